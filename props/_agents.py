"""Every pfrl agent with tiny models, and a deterministic world for them."""
import hashlib
import io
import random

import numpy as np

OBS = 4
NACT = 3
ADIM = 2


# ---------------------------------------------------------------- world
class World:
    """n environments whose episode ends are fixed beforehand.

    sched[i] is a list of (done, cut); observations name (env, episode, step)
    in their first three entries and depend on the actions in the fourth."""

    def __init__(self, n, sched, salt=0):
        self.n, self.sched, self.salt = n, sched, salt
        self.ep = [0] * n
        self.k = [0] * n
        self.count = [0] * n
        self.acc = [0.0] * n
        self.hist = [[] for _ in range(n)]  # (obs, action, reward, next, done, cut, episode)
        self.cur = [None] * n

    def obs(self, i):
        return np.array([0.11 * (i + 1) + 0.003 * self.salt, 0.017 * (self.ep[i] % 41), 0.023 * (self.k[i] % 37),
                         self.acc[i]], dtype=np.float32)

    def reset(self, i):
        self.ep[i] += 1
        self.k[i] = 0
        self.acc[i] = 0.0
        self.cur[i] = self.obs(i)
        return self.cur[i]

    def step(self, i, action):
        done, cut = self.sched[i][self.count[i] % len(self.sched[i])]
        self.count[i] += 1
        self.k[i] += 1
        a = float(np.sum(np.asarray(action, dtype=np.float64)))
        self.acc[i] = float(np.float32(0.5 * self.acc[i] + 0.1 * np.tanh(a)))
        o = self.obs(i)
        r = 0.1 * ((self.count[i] * 7 + i * 3) % 11) - 0.4 + 0.05 * np.tanh(a)
        r = float(r)
        self.hist[i].append((self.cur[i], action, r, o, done, cut, self.ep[i]))
        self.cur[i] = o
        return o, r, done, cut


class WorldEnv:
    """One environment of a World as a gym-like env (for pfrl's evaluators)."""

    spec = None
    action_space = observation_space = None

    def __init__(self, world, i, fail_at=None, bad_obs=False):
        self.w, self.i, self.fail_at, self.bad_obs = world, i, fail_at, bad_obs
        self.steps = 0

    def reset(self):
        return self.w.reset(self.i)

    def step(self, a):
        self.steps += 1
        if self.fail_at is not None and self.steps >= self.fail_at:
            if not self.bad_obs:
                raise EvalBoom("evaluation environment failed")
            self.w.cur[self.i] = np.zeros(OBS + 2, dtype=np.float32)  # does not fit the networks
            return self.w.cur[self.i], 0.0, False, {}
        o, r, d, c = self.w.step(self.i, a)
        return o, r, d, ({"needs_reset": True} if c else {})

    def close(self):
        pass


class WorldVec:
    def __init__(self, world, fail_at=None, bad_obs=False):
        self.envs = [WorldEnv(world, i, fail_at, bad_obs) for i in range(world.n)]
        self.num_envs = world.n
        self.w = world

    def reset(self, mask=None):
        mask = [False] * self.num_envs if mask is None else mask
        return [self.w.cur[i] if m else e.reset() for i, (e, m) in enumerate(zip(self.envs, mask))]

    def step(self, actions):
        rs = [e.step(a) for e, a in zip(self.envs, actions)]
        o, r, d, i = zip(*rs)
        return list(o), list(r), list(d), list(i)

    def close(self):
        pass


class EvalBoom(Exception):
    pass




def draw_sched(ch, n, length, p_done=None, p_cut=None, label="sched"):
    p_done = ch.pick([0.15, 0.3, 0.05], label + ".pdone") if p_done is None else p_done
    p_cut = ch.pick([0.0, 0.1, 0.25], label + ".pcut") if p_cut is None else p_cut
    out = []
    for _ in range(n):
        s = []
        for _ in range(length):
            s.append((ch.chance(p_done, "done"), ch.chance(p_cut, "cut")))
        out.append(s)
    return out


# ---------------------------------------------------------------- rng
def rng_state():
    import torch

    return random.getstate(), np.random.get_state(), torch.get_rng_state().clone()


def set_rng(s):
    import torch

    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2].clone())


def seed_all(seed):
    import torch

    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    torch.manual_seed(seed)


# ---------------------------------------------------------------- models
def _runstat():
    import torch
    from torch import nn

    class RunStat(nn.Module):
        """Like batch normalisation: learns a running mean of its inputs in
        training mode (works with batches of one)."""

        def __init__(self, n):
            super().__init__()
            self.register_buffer("mean", torch.zeros(n))

        def forward(self, x):
            if self.training:
                with torch.no_grad():
                    self.mean.mul_(0.9).add_(0.1 * x.detach().reshape(-1, x.shape[-1]).mean(0))
            return x - 0.5 * self.mean.clone()

    return RunStat


def _lin(i, o):
    """A linear layer whose output varies clearly with its input."""
    import torch
    from torch import nn

    m = nn.Linear(i, o)
    with torch.no_grad():
        m.weight.mul_(6.0 if i == OBS else 2.0)
        m.bias.mul_(0.2)
    return m


def _body(o):
    """Layers from observation to 8 features."""
    from torch import nn

    ls = [_lin(OBS, 8), nn.Tanh()]
    if o.get("runstat"):
        ls.append(_runstat()(8))
    if o.get("dropout"):
        ls.append(nn.Dropout(0.3))
    return ls


def _rnn(o):
    import torch
    from torch import nn

    m = {"gru": nn.GRU, "lstm": nn.LSTM, "rnn": nn.RNN}[o.get("cell", "gru")](8, 8)
    with torch.no_grad():
        for p in m.parameters():
            p.mul_(2.5 if p.dim() > 1 else 0.3)
    return m


def _seq(o, head):
    import pfrl
    from torch import nn

    if o.get("recurrent"):
        return pfrl.nn.RecurrentSequential(*_body(o), _rnn(o), *head)
    return nn.Sequential(*_body(o), *head)


def _optim(o, params):
    import torch

    n = o.get("optim", "sgd")
    if n == "sgd":
        return torch.optim.SGD(params, lr=o.get("lr", 0.05))
    if n == "momentum":
        return torch.optim.SGD(params, lr=o.get("lr", 0.02), momentum=0.9)
    if n == "adam":
        return torch.optim.Adam(params, lr=o.get("lr", 0.01))
    if n == "rmsprop":
        import pfrl

        return pfrl.optimizers.RMSpropEpsInsideSqrt(params, lr=o.get("lr", 0.01), eps=1e-2)
    raise AssertionError(n)


def _replay(o):
    import pfrl

    cap = o.get("capacity", 50)
    if o.get("buffer") is not None:
        return o["buffer"](o)
    if o.get("recurrent") or o.get("episodic"):
        return pfrl.replay_buffers.EpisodicReplayBuffer(cap)
    if o.get("per"):
        return pfrl.replay_buffers.PrioritizedReplayBuffer(cap, betasteps=o.get("betasteps"), num_steps=o.get("num_steps", 1))
    return pfrl.replay_buffers.ReplayBuffer(cap, num_steps=o.get("num_steps", 1))


def _explorer(o):
    import pfrl

    if o.get("myexplorer") is not None:
        return o["myexplorer"]
    e = o.get("explorer", "eps")
    if e == "eps":
        return pfrl.explorers.ConstantEpsilonGreedy(0.3, lambda: np.random.randint(NACT))
    if e == "lin":
        return pfrl.explorers.LinearDecayEpsilonGreedy(0.9, 0.1, 40, lambda: np.random.randint(NACT))
    if e == "boltzmann":
        return pfrl.explorers.Boltzmann()
    if e == "greedy":
        return pfrl.explorers.Greedy()
    if e == "gauss":
        return pfrl.explorers.AdditiveGaussian(scale=0.3, low=-2, high=2)
    if e == "ou":
        return pfrl.explorers.AdditiveOU(sigma=0.3)
    raise AssertionError(e)


def _dqn_kw(o):
    kw = dict(gamma=o.get("gamma", 0.9), explorer=_explorer(o), replay_start_size=o.get("replay_start", 8),
              minibatch_size=o.get("minibatch", 4), update_interval=o.get("update_interval", 1),
              target_update_interval=o.get("target_interval", 6), n_times_update=o.get("n_times", 1),
              target_update_method=o.get("target_method", "hard"), soft_update_tau=0.1,
              recurrent=bool(o.get("recurrent")), batch_accumulator=o.get("accum", "mean"),
              clip_delta=o.get("clip", True))
    if o.get("recurrent"):
        kw["episodic_update_len"] = o.get("update_len", 4)
        kw["minibatch_size"] = 2
    if o.get("max_grad_norm"):
        kw["max_grad_norm"] = _gn(o)
    return kw


def _make_dqn(cls):
    def f(o):
        import pfrl

        q = _seq(o, [_lin(8, NACT), pfrl.q_functions.DiscreteActionValueHead()])
        kw = _dqn_kw(o)
        if cls in ("CategoricalDQN", "CategoricalDoubleDQN"):
            raise AssertionError
        c = getattr(pfrl.agents, cls, None) or getattr(__import__("pfrl.agents.dpp", fromlist=["x"]), cls)
        return c(q, _optim(o, q.parameters()), _replay(o), **kw)

    return f


def _make_cat(cls):
    def f(o):
        import pfrl

        q = pfrl.q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
            OBS, NACT, 5, -2.0, 2.0, n_hidden_channels=8, n_hidden_layers=1)
        return getattr(pfrl.agents, cls)(q, _optim(o, q.parameters()), _replay(o), **_dqn_kw(o))

    return f


def TauLog(inner, log):
    """The embedding of quantile thresholds, recording the thresholds it is given."""
    from torch import nn

    class Wrapped(nn.Module):
        def __init__(self):
            super().__init__()
            self.inner = inner

        def forward(self, taus):
            log.append(("taus", taus.detach().clone()))
            return self.inner(taus)

    return Wrapped()


def _make_iqn(o):
    import pfrl
    from pfrl.agents import iqn
    from torch import nn

    phi = nn.Sequential(iqn.CosineBasisLinear(4, 8), nn.ReLU())
    if o.get("taulog") is not None:
        phi = TauLog(phi, o["taulog"])
    nt = o.get("taus", (4, 4, 4))
    if o.get("fixedphi"):
        phi = pfrl.nn.Lambda(lambda taus: taus.new_ones(tuple(taus.shape) + (8,)))
    if o.get("recurrent"):
        psi = pfrl.nn.RecurrentSequential(*_body(o), _rnn(o))
        q = iqn.RecurrentImplicitQuantileQFunction(psi=psi, phi=phi, f=_lin(8, NACT))
    else:
        q = iqn.ImplicitQuantileQFunction(psi=nn.Sequential(*_body(o)), phi=phi, f=_lin(8, NACT))
    return pfrl.agents.IQN(q, _optim(o, q.parameters()), _replay(o), quantile_thresholds_N=nt[0], quantile_thresholds_N_prime=nt[1],
                           quantile_thresholds_K=nt[2], act_deterministically=o.get("det", True), **_dqn_kw(o))


def _det_policy(o):
    import pfrl
    from torch import nn

    return nn.Sequential(*_body(o), _lin(8, ADIM), nn.Tanh(), pfrl.policies.DeterministicHead())


def _qsa(o):
    import pfrl
    from torch import nn

    return nn.Sequential(pfrl.nn.ConcatObsAndAction(), _lin(OBS + ADIM, 8), nn.Tanh(), _lin(8, 1))


def _make_ddpg(o):
    import pfrl

    p, q = _det_policy(o), _qsa(o)
    burn = (lambda: np.random.uniform(-1, 1, ADIM).astype(np.float32)) if o.get("burnin") else None
    return pfrl.agents.DDPG(p, q, _optim(o, p.parameters()), _optim(o, q.parameters()), _replay(o), gamma=0.9,
                            explorer=_explorer(dict(o, explorer=o.get("cexplorer", "gauss"))),
                            replay_start_size=o.get("replay_start", 8), minibatch_size=o.get("minibatch", 4),
                            update_interval=o.get("update_interval", 1), target_update_interval=o.get("target_interval", 6),
                            target_update_method=o.get("target_method", "soft"), soft_update_tau=0.1,
                            n_times_update=o.get("n_times", 1), burnin_action_func=burn)


SMOOTH = (0.8, 0.1)


def _make_td3(o):
    import pfrl

    p, q1, q2 = _det_policy(o), _qsa(o), _qsa(o)
    burn = (lambda: np.random.uniform(-1, 1, ADIM).astype(np.float32)) if o.get("burnin") else None
    return pfrl.agents.TD3(p, q1, q2, _optim(o, p.parameters()), _optim(o, q1.parameters()), _optim(o, q2.parameters()),
                           _replay(o), gamma=0.9, explorer=_explorer(dict(o, explorer=o.get("cexplorer", "gauss"))),
                           replay_start_size=o.get("replay_start", 8), minibatch_size=o.get("minibatch", 4),
                           update_interval=o.get("update_interval", 1), burnin_action_func=burn,
                           policy_update_delay=o.get("delay", 2), soft_update_tau=0.1, max_grad_norm=_gn(o),
                           **({"target_policy_smoothing_func": lambda a: SMOOTH[0] * a + SMOOTH[1]} if o.get("nosmooth") else {}))


class FixedDist:
    """A policy output without randomness (so that updates are a function of the data)."""

    def __init__(self, x):
        self.x = x

    def rsample(self):
        return self.x.tanh()

    def sample(self):
        return self.x.tanh().detach()

    def log_prob(self, a):
        return -0.3 * (self.x ** 2).sum(-1) + 0.1 * a.sum(-1)

    def entropy(self):
        return 0.3 * (self.x ** 2).sum(-1)


def _make_sac(o):
    import pfrl
    import torch
    from torch import distributions, nn

    def squashed(x):
        mean, log_scale = torch.chunk(x, 2, dim=1)
        log_scale = torch.clamp(log_scale, -2.0, 0.5)
        base = distributions.Independent(distributions.Normal(loc=mean, scale=torch.exp(log_scale)), 1)
        return distributions.transformed_distribution.TransformedDistribution(
            base, [distributions.transforms.TanhTransform(cache_size=1)])

    if o.get("fixedpolicy"):
        p = nn.Sequential(*_body(o), _lin(8, ADIM), pfrl.nn.Lambda(FixedDist))
    else:
        p = nn.Sequential(*_body(o), _lin(8, ADIM * 2), pfrl.nn.Lambda(squashed))
    q1, q2 = _qsa(o), _qsa(o)
    burn = (lambda: np.random.uniform(-1, 1, ADIM).astype(np.float32)) if o.get("burnin") else None
    return pfrl.agents.SoftActorCritic(p, q1, q2, _optim(o, p.parameters()), _optim(o, q1.parameters()),
                                       _optim(o, q2.parameters()), _replay(o), gamma=0.9,
                                       replay_start_size=o.get("replay_start", 8), minibatch_size=o.get("minibatch", 4),
                                       update_interval=o.get("update_interval", 1), burnin_action_func=burn,
                                       entropy_target=(-2.0 if o.get("entropy_target") else None),
                                       soft_update_tau=0.1, initial_temperature=0.7, max_grad_norm=_gn(o), temperature_optimizer_lr=0.05, act_deterministically=o.get("det", True))


def sure_categorical(x):
    """A categorical distribution whose sample is always its mode."""
    import torch

    class Sure(torch.distributions.Categorical):
        def sample(self, sample_shape=torch.Size()):
            return self.logits.argmax(-1)

    return Sure(logits=x)


def sure_normal(x):
    """A Gaussian whose sample is always its mean."""
    import torch

    class Sure(torch.distributions.Independent):
        def sample(self, sample_shape=torch.Size()):
            return self.mean.detach()

    return Sure(torch.distributions.Normal(loc=x, scale=torch.full_like(x, 0.6)), 1)


def _pi_head(o):
    import pfrl

    if o.get("sure"):
        return [_lin(8, ADIM if o.get("continuous") else NACT), pfrl.nn.Lambda(sure_normal if o.get("continuous") else
                                                                               sure_categorical)]
    if o.get("continuous"):
        return [_lin(8, ADIM), pfrl.policies.GaussianHeadWithStateIndependentCovariance(
            action_size=ADIM, var_type="diagonal", var_func=lambda x: __import__("torch").exp(2 * x), var_param_init=-0.5)]
    return [_lin(8, NACT), pfrl.policies.SoftmaxCategoricalHead()]


def _pv(o):
    import pfrl
    from torch import nn

    if o.get("recurrent"):
        return pfrl.nn.RecurrentSequential(
            *_body(o), _rnn(o), pfrl.nn.Branched(nn.Sequential(*_pi_head(o)), _lin(8, 1)))
    return nn.Sequential(*_body(o), pfrl.nn.Branched(nn.Sequential(*_pi_head(o)), _lin(8, 1)))


def _make_a2c(o):
    import pfrl

    m = _pv(o)
    return pfrl.agents.A2C(m, _optim(o, m.parameters()), gamma=0.9, num_processes=o["nenv"], update_steps=o.get("tmax", 3),
                           tau=0.8, pi_loss_coef=1.0, v_loss_coef=0.5, entropy_coeff=0.01,
                           use_gae=bool(o.get("gae")), act_deterministically=o.get("det", True),
                           max_grad_norm=_gn(o))


def _share(*things):
    import torch

    for t in things:
        if isinstance(t, torch.nn.Module):
            t.share_memory()
        else:
            for st in t.state_dict()["state"].values():
                for v in st.values():
                    if isinstance(v, torch.Tensor):
                        v.share_memory_()


def reshare(agent):
    """What the async trainer does to the shared parts before the workers start."""
    import torch

    for name in getattr(agent, "shared_attributes", ()):
        v = getattr(agent, name)
        if isinstance(v, torch.nn.Module):
            for p in v.state_dict().values():
                p.share_memory_()
        else:
            for st in v.state_dict()["state"].values():
                for p in st.values():
                    if isinstance(p, torch.Tensor):
                        p.share_memory_()


def _gn(o):
    g = o.get("max_grad_norm")
    return 0.5 if g is True else (g or None)


def _shared_optim(o, params):
    import pfrl

    if o.get("shared_sgd"):
        import torch

        return torch.optim.SGD(params, lr=o.get("lr", 0.05))
    return pfrl.optimizers.SharedRMSpropEpsInsideSqrt(params, lr=o.get("lr", 0.01), eps=1e-2, alpha=0.9)


def _make_a3c(o):
    import pfrl

    m = _pv(o)
    opt = _shared_optim(o, m.parameters())
    a = pfrl.agents.A3C(m, opt, t_max=o.get("tmax", 3), gamma=0.9, beta=1e-2, pi_loss_coef=1.0, v_loss_coef=0.5,
                        keep_loss_scale_same=bool(o.get("keepscale")), normalize_grad_by_t_max=bool(o.get("normt")), recurrent=bool(o.get("recurrent")),
                        act_deterministically=o.get("det", True),
                        max_grad_norm=_gn(o))
    a.process_idx = o.get("process_idx", 1)
    if not o.get("noshare"):
        reshare(a)
    return a


def _make_acer(o):
    import pfrl
    from torch import nn

    if o.get("continuous"):
        raise AssertionError
    head = pfrl.agents.acer.ACERDiscreteActionHead(
        pi=nn.Sequential(*_pi_head(o)),
        q=nn.Sequential(_lin(8, NACT), pfrl.q_functions.DiscreteActionValueHead()))
    m = _seq(o, [head])
    opt = _shared_optim(o, m.parameters())
    rb = None if o.get("noreplay") else (o["buffer"](dict(o, episodic=True)) if o.get("buffer") else
                                         pfrl.replay_buffers.EpisodicReplayBuffer(o.get("capacity", 50)))
    a = pfrl.agents.ACER(m, opt, t_max=o.get("tmax", 3), gamma=0.9, replay_buffer=rb, n_times_replay=o.get("n_times", 1),
                         replay_start_size=o.get("replay_start", 8), act_deterministically=o.get("det", True),
                         recurrent=bool(o.get("recurrent")), trust_region_alpha=0.7, beta=1e-2, pi_loss_coef=1.0,
                         Q_loss_coef=0.5, truncation_threshold=o.get("trunc", 10),
                         use_trust_region=not o.get("notrust"), max_grad_norm=_gn(o),
                         trust_region_delta=o.get("trdelta", 0.1), use_Q_opc=bool(o.get("opc")))
    a.process_idx = o.get("process_idx", 1)
    if not o.get("noshare"):
        reshare(a)
    return a


def _normalizer(o):
    import pfrl

    return pfrl.nn.EmpiricalNormalization(OBS, clip_threshold=5) if o.get("normalize") else None


def _make_ppo(o):
    import pfrl

    m = _pv(o)
    return pfrl.agents.PPO(m, _optim(o, m.parameters()), obs_normalizer=_normalizer(o), gamma=0.9, lambd=0.8,
                           update_interval=o.get("ppo_interval", 12), minibatch_size=o.get("minibatch", 4),
                           epochs=o.get("epochs", 2), clip_eps_vf=0.2 if o.get("clipvf") else None,
                           clip_eps=0.2, value_func_coef=1.0, entropy_coef=0.01,
                           standardize_advantages=o.get("std_adv", True), recurrent=bool(o.get("recurrent")),
                           max_recurrent_sequence_len=o.get("maxseq"), act_deterministically=o.get("det", True),
                           max_grad_norm=_gn(o))


def _make_trpo(o):
    import pfrl
    import torch
    from torch import nn

    if o.get("recurrent"):
        pol = pfrl.nn.RecurrentSequential(*_body(o), _rnn(o), *_pi_head(o))
        vf = pfrl.nn.RecurrentSequential(*_body(o), _rnn(o), _lin(8, 1))
    else:
        pol = nn.Sequential(*_body(o), *_pi_head(o))
        vf = nn.Sequential(*_body(o), _lin(8, 1))
    return pfrl.agents.TRPO(policy=pol, vf=vf, vf_optimizer=_optim(o, vf.parameters()), obs_normalizer=_normalizer(o),
                            gamma=0.9, lambd=0.8, entropy_coef=0.01, max_kl=0.01, conjugate_gradient_damping=1e-2,
                            standardize_advantages=o.get("std_adv", True),
                            update_interval=o.get("ppo_interval", 12), vf_epochs=o.get("epochs", 2),
                            vf_batch_size=o.get("minibatch", 4), recurrent=bool(o.get("recurrent")),
                            max_recurrent_sequence_len=o.get("maxseq"), conjugate_gradient_max_iter=3,
                            line_search_max_backtrack=3, act_deterministically=o.get("det", True), max_grad_norm=_gn(o))


class FakePipe:
    """The learner's end of an actor, as a recorder."""

    def __init__(self):
        self.sent = []

    def send(self, m):
        self.sent.append(m)

    def recv(self):
        return [] if self.sent and self.sent[-1][0] == "get_statistics" else None


def _make_actor(o):
    import pfrl

    q = _seq(o, [_lin(8, NACT), pfrl.q_functions.DiscreteActionValueHead()])
    a = pfrl.agents.StateQFunctionActor(pipe=FakePipe(), model=q, explorer=_explorer(o), recurrent=bool(o.get("recurrent")))
    a.process_idx = 1
    return a


def _make_reinforce(o):
    import pfrl

    m = _seq(o, _pi_head(o))
    return pfrl.agents.REINFORCE(m, _optim(o, m.parameters()), beta=o.get("beta", 1e-2), batchsize=o.get("batchsize", 2),
                                 backward_separately=bool(o.get("separately")), act_deterministically=o.get("det", True),
                                 recurrent=bool(o.get("recurrent")),
                                 max_grad_norm=_gn(o))


DQNS = ["DQN", "DoubleDQN", "PAL", "AL", "DPP", "DoublePAL", "DPPL", "DPPGreedy"]
CATS = ["CategoricalDQN", "CategoricalDoubleDQN"]
DQN_FAMILY = DQNS + CATS + ["IQN"]

_MAKERS = {n: _make_dqn(n) for n in DQNS}
_MAKERS.update({n: _make_cat(n) for n in CATS})
_MAKERS.update(IQN=_make_iqn, DDPG=_make_ddpg, TD3=_make_td3, SAC=_make_sac, A2C=_make_a2c, A3C=_make_a3c,
               ACER=_make_acer, PPO=_make_ppo, TRPO=_make_trpo, REINFORCE=_make_reinforce, Actor=_make_actor)

ALL = DQN_FAMILY + ["DDPG", "TD3", "SAC", "A2C", "A3C", "ACER", "PPO", "TRPO", "REINFORCE"]
SINGLE = ("A3C", "ACER", "REINFORCE", "Actor")  # act/observe only
RECURRENT = tuple(DQNS) + ("IQN", "A3C", "ACER", "PPO", "TRPO", "REINFORCE", "Actor")
REPLAY = DQN_FAMILY + ["DDPG", "TD3", "SAC", "ACER"]
CONT_OK = ("A2C", "A3C", "PPO", "TRPO", "REINFORCE")


def draw_opts(ch, kind, nenv=None, recurrent=None):
    """A random configuration of the given agent."""
    o = {"kind": kind}
    o["nenv"] = 1 if kind in SINGLE else (nenv or ch.pick([1, 2, 3], "nenv"))
    if kind in RECURRENT:
        o["recurrent"] = ch.chance(0.4, "recurrent") if recurrent is None else recurrent
        if o["recurrent"]:
            o["cell"] = ch.pick(["gru", "lstm", "rnn"], "cell")
    if kind in REPLAY:
        o["capacity"] = ch.pick([50, 12, 20], "cap")
        o["n_times"] = ch.pick([1, 2], "ntimes")
        if kind != "ACER":
            o["update_interval"] = ch.pick([1, 2, 3], "ui")
            o["target_interval"] = o["update_interval"] * ch.pick([2, 1, 4], "ti")
            o["target_method"] = ch.pick(["hard", "soft"], "tm")
            o["burnin"] = ch.chance(0.4, "burnin")
    if kind in DQN_FAMILY and not o.get("recurrent"):
        o["num_steps"] = ch.pick([1, 2, 3], "N")
        o["per"] = ch.chance(0.35, "per")
    elif kind in ("DDPG", "TD3", "SAC"):
        o["num_steps"] = ch.pick([1, 1, 2], "N")
    if kind in DQN_FAMILY or kind == "Actor":
        o["explorer"] = ch.pick(["eps", "lin", "boltzmann", "greedy"], "explorer") if kind not in CATS + ["IQN"] else \
            ch.pick(["eps", "lin", "greedy"], "explorer")
        o["max_grad_norm"] = ch.chance(0.2, "gn")
    if kind in ("DDPG", "TD3"):
        o["cexplorer"] = ch.pick(["gauss", "ou"], "cexplorer")
    if kind == "SAC":
        o["entropy_target"] = ch.chance(0.6, "temp")
    if kind in CONT_OK:
        o["continuous"] = ch.chance(0.4, "cont")
    if kind in ("PPO", "TRPO"):
        o["normalize"] = ch.chance(0.6, "normalize")
        o["ppo_interval"] = ch.pick([12, 7, 20], "ppoi")
        if o.get("recurrent"):
            o["maxseq"] = ch.pick([None, 3], "maxseq")
    if kind in ("A2C", "A3C", "ACER"):
        o["tmax"] = ch.pick([3, 5, 2], "tmax")
    if kind == "A2C":
        o["gae"] = ch.chance(0.5, "gae")
    if kind == "REINFORCE":
        o["batchsize"] = ch.pick([1, 2, 3], "bs")
        o["separately"] = ch.chance(0.4, "sep")
    o["optim"] = ch.pick(["adam", "sgd", "momentum", "rmsprop"], "optim")
    o["det"] = ch.chance(0.5, "det")
    return o


def make(o, seed):
    """A newly built agent; its initial parameters depend on seed only."""
    st = rng_state()
    seed_all(seed)
    try:
        return _MAKERS[o["kind"]](o)
    finally:
        set_rng(st)


# ---------------------------------------------------------------- driving
class Driver:
    """Trains an agent in a World step by step."""

    def __init__(self, agent, world, kind, log=None):
        self.agent, self.w, self.kind = agent, world, kind
        self.single = kind in SINGLE
        self.obs = [world.reset(i) for i in range(world.n)]
        self.log = [] if log is None else log
        self.steps = 0

    def step(self, between=None):
        w, a = self.w, self.agent
        if self.single:
            acts = [a.act(self.obs[0])]
        else:
            acts = list(a.batch_act(list(self.obs)))
        if between is not None:
            acts = [np.array(x, copy=True) for x in acts]
            between()
        rs = [w.step(i, np.array(acts[i], copy=True)) for i in range(w.n)]
        nxt = [r[0] for r in rs]
        rew = [r[1] for r in rs]
        done = [r[2] for r in rs]
        cut = [r[3] for r in rs]
        if self.single:
            a.observe(nxt[0], rew[0], done[0], cut[0])
        else:
            a.batch_observe(nxt, rew, done, cut)
        self.obs = [w.reset(i) if (done[i] or cut[i]) else nxt[i] for i in range(w.n)]
        self.steps += 1
        self.log.append(tuple(np.asarray(x).tobytes() for x in acts))
        return done, cut


# ---------------------------------------------------------------- comparing
def _feed(h, x, seen):
    import torch

    if isinstance(x, (bool, int, float, np.generic)) or (isinstance(x, torch.Tensor) and x.dim() == 0):
        # torch turns plain numbers of an optimiser state into 0-d tensors when loading
        h.update(repr(float(x)).encode() + b";")
    elif x is None or isinstance(x, (str, bytes)):
        h.update(repr(x).encode() + b";")
    elif isinstance(x, torch.Tensor):
        h.update(b"T" + str(tuple(x.shape)).encode() + x.detach().cpu().contiguous().numpy().tobytes())
    elif isinstance(x, np.ndarray):
        h.update(b"N" + str(x.shape).encode() + np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b"{")
        for k in sorted(x, key=str):
            h.update(str(k).encode() + b":")
            _feed(h, x[k], seen)
        h.update(b"}")
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for v in x:
            _feed(h, v, seen)
        h.update(b"]")
    else:
        h.update(b"?" + type(x).__name__.encode())


def digest(x):
    h = hashlib.sha256()
    _feed(h, x, set())
    return h.hexdigest()[:16]


def learned_parts(agent):
    """name -> state_dict of every network and optimiser the agent holds."""
    import torch

    out = {}
    for k, v in sorted(vars(agent).items()):
        if isinstance(v, (torch.nn.Module, torch.optim.Optimizer)):
            out[k] = v
    return out


def _clean_state(v):
    """An optimiser state dict without the hyper-parameters' object identities."""
    sd = v.state_dict()
    return sd


def learned(agent):
    return {k: digest(_clean_state(v)) for k, v in learned_parts(agent).items()}


def replay_entries(agent):
    """The contents of the agent's replay memory as plain data, or None."""
    rb = getattr(agent, "replay_buffer", None)
    if rb is None:
        return None
    return buffer_entries(rb)


def _all_zero(v):
    if v is None:
        return True
    if isinstance(v, (tuple, list)):
        return all(_all_zero(x) for x in v)
    return not np.any(np.asarray(v))


def _plain(t):
    import torch

    out = {}
    for k, v in t.items():
        if k == "weight":
            continue
        if k in ("recurrent_state", "next_recurrent_state") and _all_zero(v):
            v = None  # the initial state: None and zeros mean the same
        if isinstance(v, torch.distributions.Distribution):
            v = digest({n: getattr(v, n) for n in ("logits", "loc", "scale") if hasattr(v, n)})
        out[k] = v
    return out


def buffer_entries(rb):
    epi = getattr(rb, "episodic_memory", None)
    if epi is not None:
        return [[_plain(t) for t in epi[i]] for i in range(len(epi))]
    m = getattr(rb, "memory", None)
    if m is None:
        return None
    try:
        if hasattr(m, "data"):  # prioritised: data of both halves
            seq = [m.data[i] for i in range(len(m.data))]
        else:
            seq = [m[i] for i in range(len(m))]
        return [[_plain(t) for t in e] for e in seq]
    except Exception:
        return None


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def stats(agent):
    return [(k, repr(float(v))) for k, v in agent.get_statistics()]


def copy_learned(src, dst):
    """Copies every network and optimiser state of src into dst (the oracle of
    what loading a saved agent has to do)."""
    import copy

    s, d = learned_parts(src), learned_parts(dst)
    for k in s:
        d[k].load_state_dict(copy.deepcopy(s[k].state_dict()))


def clone_buffer_bytes(rb):
    b = io.BytesIO()
    import pickle

    pickle.dump(rb, b)
    return b.getvalue()
