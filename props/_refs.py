"""Small executable reference models of what each agent has to learn from.

A reference sees the environments' own history (World.hist), never the agent's
bookkeeping, and predicts the networks after every step."""
import numpy as np

from sim.errors import check

from . import _agents as A

GAMMA, LAMBD, LR = 0.9, 0.8, 0.05


def _t(x):
    import torch

    return torch.as_tensor(np.asarray(x, dtype=np.float32))


def _acts(xs):
    import torch

    a = np.asarray(xs)
    return torch.as_tensor(a)


def _is_rnn(m):
    from torch import nn

    return isinstance(m, (nn.GRU, nn.LSTM, nn.RNN))


def seq_forward(model, xs, state):
    """Feeds one sequence (T x OBS) to a RecurrentSequential of one recurrent
    layer from the given state (None: initial); returns (outputs, next state)."""
    x = xs
    for m in model.children():
        if _is_rnn(m):
            y, state = m(x[:, None, :], state)
            x = y[:, 0, :]
        else:
            x = m(x)
    return x, state


def forward(model, xs, recurrent, state=None):
    """(outputs, next state) for one sequence of inputs."""
    if recurrent:
        return seq_forward(model, xs, state)
    return model(xs), None


def detach(state):
    if state is None:
        return None
    if isinstance(state, tuple):
        return tuple(s.detach().clone() for s in state)
    return state.detach().clone()


def leaves(x):
    """All numbers of a recurrent state in order; zeros and None are the same."""
    import torch

    if x is None:
        return []
    if isinstance(x, (tuple, list)):
        return [v for y in x for v in leaves(y)]
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu().numpy()
    return [np.asarray(x, dtype=np.float64).ravel()]


def same_state(a, b):
    x, y = leaves(a), leaves(b)
    x = np.concatenate(x) if x else np.zeros(0)
    y = np.concatenate(y) if y else np.zeros(0)
    if x.size == 0:
        x = np.zeros_like(y)
    if y.size == 0:
        y = np.zeros_like(x)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-3, atol=1e-4)


def sgd(module, loss, lr=LR, clip=None):
    import torch

    ps = [p for p in module.parameters() if p.requires_grad]
    gs = torch.autograd.grad(loss, ps, allow_unused=True, retain_graph=True)
    with torch.no_grad():
        if clip:
            norm = float(sum((g.double() ** 2).sum() for g in gs if g is not None)) ** 0.5
            lr *= min(1.0, clip / (norm + 1e-6))
        for p, g in zip(ps, gs):
            if g is not None:
                p -= lr * g


def soft(dst, src, tau):
    d, s = dst.state_dict(), src.state_dict()
    for k in d:
        d[k].mul_(1 - tau).add_(tau * s[k])


def gae(seg, vs, nvs):
    """(advantages, value targets) of one uninterrupted stretch."""
    adv, out = 0.0, []
    for k in reversed(range(len(seg))):
        nt = 0.0 if seg[k]["done"] else 1.0
        adv = seg[k]["r"] + GAMMA * nt * nvs[k] - vs[k] + GAMMA * LAMBD * adv
        out.append(adv)
    advs = np.array(out[::-1], dtype=np.float64)
    return advs, advs + vs


class Ref:
    nets = ()

    def __init__(self, o, agent, shadow, world, log=None):
        self.o, self.agent, self.s, self.w, self.log = o, agent, shadow, world, log
        self.rec = bool(o.get("recurrent"))
        self.h = [None] * world.n
        self.h_next = [None] * world.n
        self.updates = 0
        self.start = {}

    def net(self, name):
        return getattr(self.s, name)

    def sgd(self, module, loss):
        sgd(module, loss, clip=self.o.get("max_grad_norm"))

    def pre(self):
        """Before the agent acts."""
        import copy

        self.start = {}
        for k in self.nets:
            a = getattr(self.agent, k)
            if a is None:
                continue
            sd = copy.deepcopy(a.state_dict())
            self.start[k] = sd
            getattr(self.s, k).load_state_dict(sd)
        if hasattr(self.s, "obs_normalizer") and self.s.obs_normalizer is not None:
            # (a copy without caches)
            self.s.obs_normalizer._cached_std_inverse = None

    def track(self, module, obs):
        """Recurrent states before and after acting on obs, per environment."""
        import torch

        if not self.rec:
            return
        with torch.no_grad():
            for i in range(self.w.n):
                _, self.h_next[i] = seq_forward(module, _t(obs[i])[None], self.h[i])
                self.h_next[i] = detach(self.h_next[i])

    def last(self, i):
        obs, a, r, nxt, done, cut, ep = self.w.hist[i][-1]
        return dict(obs=obs, a=a, r=r, nxt=nxt, done=done, end=done or cut, h=self.h[i], hn=self.h_next[i])

    def advance(self):
        for i in range(self.w.n):
            self.h[i] = None if (self.w.hist[i][-1][4] or self.w.hist[i][-1][5]) else self.h_next[i]

    def compare(self, kind, step):
        import torch

        for k in self.start:
            got, want = getattr(self.agent, k).state_dict(), getattr(self.s, k).state_dict()
            for n in want:
                g, v, p = got[n].double(), want[n].double(), self.start[k][n].double()
                tol = self.tol(k) * (1e-3 + float((v - p).abs().max()))
                d = float((g - v).abs().max()) if g.numel() else 0.0
                check(bool(torch.isfinite(g).all()) and d <= tol, "update-differs",
                      "%s: after training step %d, %s.%s differs by %.3g from what the recorded transitions give "
                      "(moved by %.3g; expected move %.3g)", kind, step + 1, k, n, d, float((g - p).abs().max()),
                      float((v - p).abs().max()))

    def tol(self, k):
        return 5e-3


# ------------------------------------------------------------- on-policy
class PPORef(Ref):
    nets = ("model", "obs_normalizer")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cur = [[] for _ in range(self.w.n)]
        self.mem = []
        self.interval = self.o["ppo_interval"]

    def before_act(self, obs):
        self.pre()
        xs = [self.norm(_t(x)[None])[0].numpy() for x in obs] if self.rec else obs
        self.track(self.net("model"), xs)

    def norm(self, x):
        n = self.s.obs_normalizer
        return x if n is None else n(x, update=False)

    def collect(self):
        for i in range(self.w.n):
            tr = self.last(i)
            self.cur[i].append(tr)
            if tr["end"]:
                self.mem.append(self.cur[i])
                self.cur[i] = []
        self.advance()
        if sum(map(len, self.mem)) + sum(map(len, self.cur)) >= self.interval:
            segs = self.mem + [c for c in self.cur if c]
            self.mem, self.cur = [], [[] for _ in range(self.w.n)]
            return segs
        return None

    def values(self, segs, model):
        """Adds old log-probabilities, advantages and value targets."""
        import torch

        with torch.no_grad():
            for seg in segs:
                xs, nxs = self.norm(_t([t["obs"] for t in seg])), self.norm(_t([t["nxt"] for t in seg]))
                (dist, v), _ = forward(model, xs, self.rec, seg[0]["h"])
                (_, nv), _ = forward(model, nxs, self.rec, seg[0]["hn"])
                lp = dist.log_prob(_acts([t["a"] for t in seg])).numpy()
                v, nv = v.numpy().ravel().astype(np.float64), nv.numpy().ravel().astype(np.float64)
                adv, tgt = gae(seg, v, nv)
                for t, *q in zip(seg, lp, v, adv, tgt):
                    t["lp"], t["v"], t["adv"], t["tgt"] = (float(z) for z in q)

    def chunks(self, segs):
        m = self.o.get("maxseq")
        if not self.rec or m is None:
            return segs
        return [seg[k:k + m] for seg in segs for k in range(0, len(seg), m)]

    def after_observe(self):
        import torch

        segs = self.collect()
        if segs is None:
            return
        self.updates += 1
        model = self.net("model")
        self.values(segs, model)
        alltr = [t for seg in segs for t in seg]
        if self.s.obs_normalizer is not None:
            self.s.obs_normalizer.experience(_t([t["obs"] for t in alltr]))
        advs = np.array([t["adv"] for t in alltr])
        if self.o.get("std_adv", True):
            mu, sd = advs.mean(), advs.std()
            for t in alltr:
                t["adv"] = (t["adv"] - mu) / (sd + 1e-8)
        pol, val, ent, n = 0.0, 0.0, 0.0, len(alltr)
        for seg in self.chunks(segs):
            (dist, v), _ = forward(model, self.norm(_t([t["obs"] for t in seg])), self.rec, seg[0]["h"])
            lp = dist.log_prob(_acts([t["a"] for t in seg]))
            ratio = torch.exp(lp - _t([t["lp"] for t in seg]))
            ad = _t([t["adv"] for t in seg])
            pol = pol - torch.min(ratio * ad, torch.clamp(ratio, 0.8, 1.2) * ad).sum()
            v = v[:, 0]
            tg = _t([t["tgt"] for t in seg])
            if self.o.get("clipvf"):
                old = _t([t["v"] for t in seg])
                cv = old + torch.clamp(v - old, -0.2, 0.2)
                val = val + torch.max((v - tg) ** 2, (cv - tg) ** 2).sum()
            else:
                val = val + ((v - tg) ** 2).sum()
            ent = ent + dist.entropy().sum()
        self.sgd(model, (pol + 1.0 * val - 0.01 * ent) / n)


class TRPORef(PPORef):
    nets = ("policy", "vf", "obs_normalizer")

    def before_act(self, obs):
        self.pre()
        if not self.rec:
            return
        import torch

        with torch.no_grad():
            for i in range(self.w.n):
                x = self.norm(_t(obs[i])[None])
                h = self.h[i] or (None, None)
                _, a = seq_forward(self.s.policy, x, h[0])
                _, b = seq_forward(self.s.vf, x, h[1])
                self.h_next[i] = (detach(a), detach(b))

    def after_observe(self):
        import torch

        segs = self.collect()
        if segs is None:
            return
        self.updates += 1
        vf, policy = self.s.vf, self.s.policy

        def hs(seg, key, j):
            h = seg[0][key]
            return None if h is None else h[j]

        with torch.no_grad():
            for seg in segs:
                xs, nxs = self.norm(_t([t["obs"] for t in seg])), self.norm(_t([t["nxt"] for t in seg]))
                v, _ = forward(vf, xs, self.rec, hs(seg, "h", 1))
                nv, _ = forward(vf, nxs, self.rec, hs(seg, "hn", 1))
                dist, _ = forward(policy, xs, self.rec, hs(seg, "h", 0))
                lp = dist.log_prob(_acts([t["a"] for t in seg])).numpy()
                adv, tgt = gae(seg, v.numpy().ravel().astype(np.float64), nv.numpy().ravel().astype(np.float64))
                for t, l, a_, g in zip(seg, lp, adv, tgt):
                    t["lp"], t["adv"], t["tgt"] = float(l), float(a_), float(g)
        alltr = [t for seg in segs for t in seg]
        if self.s.obs_normalizer is not None:
            self.s.obs_normalizer.experience(_t([t["obs"] for t in alltr]))
        advs = np.array([t["adv"] for t in alltr])
        if self.o.get("std_adv", True):
            mu, sd = advs.mean(), advs.std()
            for t in alltr:
                t["adv"] = (t["adv"] - mu) / (sd + 1e-8)
        n = len(alltr)
        chunks = self.chunks(segs)
        # the direction of the policy step, when it moved: it must improve the surrogate of these transitions
        gain = 0.0
        for seg in chunks:
            dist, _ = forward(policy, self.norm(_t([t["obs"] for t in seg])), self.rec, hs(seg, "h", 0))
            ratio = torch.exp(dist.log_prob(_acts([t["a"] for t in seg])) - _t([t["lp"] for t in seg]))
            gain = gain + (ratio * _t([t["adv"] for t in seg])).sum() + 0.01 * dist.entropy().sum()
        self.policy_step(chunks, gain / n, hs)
        loss = 0.0
        for seg in chunks:
            v, _ = forward(vf, self.norm(_t([t["obs"] for t in seg])), self.rec, hs(seg, "h", 1))
            loss = loss + ((v[:, 0] - _t([t["tgt"] for t in seg])) ** 2).sum()
        self.sgd(vf, loss / n)

    def policy_step(self, chunks, gain, hs):
        """Natural gradient step with a KL limit and line search."""
        import torch

        policy = self.s.policy
        ps = list(policy.parameters())
        n = sum(map(len, chunks))

        def dists():
            return [forward(policy, self.norm(_t([t["obs"] for t in seg])), self.rec, hs(seg, "h", 0))[0] for seg in chunks]

        with torch.no_grad():
            old = dists()
        kl = sum(torch.distributions.kl_divergence(a, b).sum() for a, b in zip(old, dists())) / n
        g1 = torch.cat([g.flatten() for g in torch.autograd.grad(kl, ps, create_graph=True)])

        def fvp(v):
            h = torch.autograd.grad((g1 * v).sum(), ps, retain_graph=True)
            return torch.cat([x.reshape(-1) for x in h]).detach() + 1e-2 * v

        b = torch.cat([g.reshape(-1) for g in torch.autograd.grad(gain, ps, retain_graph=True)]).detach()
        x = torch.zeros_like(b)
        r = b.clone()
        p = r.clone()
        for _ in range(3):
            ap = fvp(p)
            a = r.dot(r) / ap.dot(p)
            x = x + a * p
            r2 = r - a * ap
            if r2.norm() < 1e-10:
                break
            p = r2 + r2.dot(r2) / r.dot(r) * p
            r = r2
        step = (2.0 * 0.01 / (float(x.dot(fvp(x))) + 1e-8)) ** 0.5 * x
        flat = torch.cat([q.detach().reshape(-1) for q in ps]).clone()
        size = 1.0
        g0 = float(gain)
        self.loose = False
        self.candidates = [flat]

        def put(vec):
            k = 0
            with torch.no_grad():
                for q in ps:
                    q.copy_(vec[k:k + q.numel()].reshape(q.shape))
                    k += q.numel()

        for _ in range(4):
            put(flat + size * step)
            with torch.no_grad():
                new = dists()
                gn = 0.0
                for seg, d in zip(chunks, new):
                    ratio = torch.exp(d.log_prob(_acts([t["a"] for t in seg])) - _t([t["lp"] for t in seg]))
                    gn = gn + (ratio * _t([t["adv"] for t in seg])).sum() + 0.01 * d.entropy().sum()
                gn = float(gn / n)
                k2 = float(sum(torch.distributions.kl_divergence(a_, b_).sum() for a_, b_ in zip(old, new)) / n)
            if abs(k2 - 0.01) < 2e-5 or abs(gn - g0) < 1e-6:
                self.loose = True  # rounding decides whether this step is accepted
            if gn - g0 >= 0 and k2 <= 0.01:
                return
            size *= 0.5
        put(flat)

    def tol(self, k):
        return 3e-2 if k == "policy" else 5e-3

    loose = False

    def compare(self, kind, step):
        if self.loose:
            self.start.pop("policy", None)
            self.loose = False
        super().compare(kind, step)


class A2CRef(Ref):
    nets = ("model",)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.buf = []

    def before_act(self, obs):
        import torch

        self.pre()
        with torch.no_grad():
            self.v0 = self.net("model")(_t(obs))[1][:, 0].numpy().astype(np.float64)

    def after_observe(self):
        import torch

        self.buf.append([dict(self.last(i), v=self.v0[i]) for i in range(self.w.n)])
        if len(self.buf) < self.o["tmax"]:
            return
        self.updates += 1
        model, n = self.net("model"), self.w.n
        buf, self.buf = self.buf, []
        with torch.no_grad():
            nv = model(_t([t["nxt"] for t in buf[-1]]))[1][:, 0].numpy().astype(np.float64)
        pol = val = ent = 0.0
        for i in range(n):
            R, adv = nv[i], 0.0
            nextv = nv[i]
            rets = []
            for k in reversed(range(len(buf))):
                t = buf[k][i]
                m = 0.0 if t["end"] else 1.0  # A2C takes a cut-off for a termination (it warns about it)
                if self.o.get("gae"):
                    adv = t["r"] + GAMMA * nextv * m - t["v"] + GAMMA * 0.8 * m * adv
                    rets.append(adv + t["v"])
                    nextv = t["v"]
                else:
                    R = t["r"] + GAMMA * R * m
                    rets.append(R)
            rets = _t(rets[::-1])
            dist, v = model(_t([b[i]["obs"] for b in buf]))
            ad = rets - v[:, 0]
            val = val + (ad ** 2).sum()
            pol = pol - (ad.detach() * dist.log_prob(_acts([b[i]["a"] for b in buf]))).sum()
            ent = ent + dist.entropy().sum()
        self.sgd(model, (0.5 * val + pol - 0.01 * ent) / (n * len(buf)))


class A3CRef(Ref):
    nets = ("model", "shared_model")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.seg = []

    def before_act(self, obs):
        self.pre()
        self.track(self.net("model"), obs)

    def after_observe(self):
        import torch

        self.seg.append(self.last(0))
        end = self.seg[-1]["end"]
        self.advance()
        if not (end or len(self.seg) == self.o["tmax"]):
            return
        self.updates += 1
        seg, self.seg = self.seg, []
        model = self.net("model")
        R = 0.0
        if not seg[-1]["done"]:
            with torch.no_grad():
                R = float(forward(model, _t(seg[-1]["nxt"])[None], self.rec, seg[-1]["hn"])[0][1])
        rets = []
        for t in reversed(seg):
            R = t["r"] + GAMMA * R
            rets.append(R)
        rets = _t(rets[::-1])
        (dist, v), _ = forward(model, _t([t["obs"] for t in seg]), self.rec, seg[0]["h"])
        v = v[:, 0]
        f = 1.0
        if self.o.get("keepscale") and len(seg) < self.o["tmax"]:
            f *= self.o["tmax"] / len(seg)
        if self.o.get("normt"):
            f /= len(seg)
        pol = -((rets - v.detach()) * dist.log_prob(_acts([t["a"] for t in seg]))).sum() - 0.01 * dist.entropy().sum()
        val = 0.5 * ((rets - v) ** 2).sum()
        self.sgd(model, f * (pol + 0.5 * val))
        self.net("shared_model").load_state_dict(model.state_dict())


class ReinforceRef(Ref):
    nets = ("model",)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cur, self.eps = [], []

    def before_act(self, obs):
        self.pre()

    def after_observe(self):
        t = self.last(0)
        self.cur.append(t)
        if not t["end"]:
            return
        if t["done"]:
            self.eps.append(self.cur)
        self.cur = []
        if len(self.eps) < self.o["batchsize"]:
            return
        self.updates += 1
        eps, self.eps = self.eps, []
        model = self.net("model")
        loss = 0.0
        for ep in eps:
            R = np.cumsum([x["r"] for x in reversed(ep)])[::-1]
            dist, _ = forward(model, _t([x["obs"] for x in ep]), self.rec)
            loss = loss - (_t(R) * dist.log_prob(_acts([x["a"] for x in ep]))).sum() - 1e-2 * dist.entropy().sum()
        self.sgd(model, loss / len(eps))


# ------------------------------------------------------------- replay
class ReplayRef(Ref):
    """Agents that learn from a replay buffer whose calls are recorded."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.t = 0
        self.seen = 0

    def before_act(self, obs):
        self.pre()
        if self.rec:
            m = self.net("model")
            self.track(getattr(m, "psi", m), obs)

    def events(self):
        ev = self.log[self.seen:]
        self.seen = len(self.log)
        return ev

    def after_observe(self):
        had = want = 0
        for e in self.events() + [("append", None, None)]:
            if e[0] == "append":
                check(had == want, "update-cadence", "%s: %d updates after environment step %d, expected %d", self.o["kind"],
                      had, self.t, want)
                if e[1] is None:
                    break
                had = want = 0
                self.t += 1
                self.on_step()
            if e[0] in ("append", "stop"):
                size, eps = e[2]
                due = size >= self.o.get("replay_start", 8) and self.t % self.o["update_interval"] == 0 and \
                    not (self.rec and eps < 2)
                want = self.n_times() if due else 0
            elif e[0] == "sample":
                had += 1
                self.updates += 1
                self.learn(e[1])
            elif e[0] == "episodes":
                had += 1
                self.updates += 1
                self.learn_episodes(e[1])
            elif e[0] == "errors":
                self.errors(e[1])
        self.advance()

    def errors(self, es):
        pass

    def n_times(self):
        return 1 if self.o["kind"] in ("TD3", "SAC") else self.o.get("n_times", 1)

    def on_step(self):
        pass

    def batch(self, items):
        """(states, actions, returns, discounts, nonterminal, next states) of N-step items."""
        s, a, R, d, nt, ns = [], [], [], [], [], []
        for e in items:
            s.append(e[0]["state"])
            a.append(e[0]["action"])
            R.append(sum(GAMMA ** k * t["reward"] for k, t in enumerate(e)))
            d.append(GAMMA ** len(e))
            nt.append(0.0 if any(t["is_state_terminal"] for t in e) else 1.0)
            ns.append(e[-1]["next_state"])
        return _t(s), _acts(a), _t(R), _t(d), _t(nt), _t(ns)


class DQNRef(ReplayRef):
    nets = ("model", "target_model")
    delta = None

    def on_step(self):
        if self.t % self.o["target_interval"] == 0:
            if self.o.get("target_method", "hard") == "hard":
                self.s.target_model.load_state_dict(self.s.model.state_dict())
            else:
                soft(self.s.target_model, self.s.model, 0.1)

    def y(self, s, a, R, d, nt, ns, h=None, hn=None):
        """The values to learn (Q'(.) are the target network's)."""
        import torch

        kind = self.o["kind"]
        qn = forward(self.s.target_model, ns, self.rec, hn)[0].q_values
        best = qn.max(1)[0]
        if kind in ("DoubleDQN", "DoublePAL"):
            c = forward(self.s.model, ns, self.rec, hn)[0].q_values
            best = qn.gather(1, c.argmax(1, keepdim=True))[:, 0]
        if kind in ("DQN", "DoubleDQN"):
            return R + d * nt * best
        q = forward(self.s.target_model, s, self.rec, h)[0].q_values
        qa = q.gather(1, a[:, None])[:, 0]
        if kind in ("AL", "PAL", "DoublePAL"):
            adv = qa - q.max(1)[0]
            if kind != "AL":
                adv = torch.max(adv, qn.gather(1, a[:, None])[:, 0] - qn.max(1)[0])
            return R + d * nt * best + 0.9 * adv
        op = {"DPP": lambda x: (torch.softmax(x, 1) * x).sum(1), "DPPL": lambda x: torch.logsumexp(x, 1),
              "DPPGreedy": lambda x: x.max(1)[0]}[kind]
        return qa + R + d * nt * op(qn) - op(q)

    def losses(self, e, h=None, hn=None):
        import torch

        s, a, R, d, nt, ns = self.batch(e)
        with torch.no_grad():
            y = self.y(s, a, R, d, nt, ns, h, hn)
        q = forward(self.s.model, s, self.rec, h)[0].q_values.gather(1, a[:, None])[:, 0]
        self.delta = (q - y).detach().abs().numpy()
        if not self.o.get("clip", True):
            return 0.5 * (q - y) ** 2
        return torch.nn.functional.smooth_l1_loss(q, y, reduction="none")

    def learn(self, items):
        l = self.losses(items)
        if "weight" in items[0][0]:
            l = l * _t([e[0]["weight"] for e in items])
        self.sgd(self.s.model, l.mean() if self.o.get("accum", "mean") == "mean" else l.sum())

    def learn_episodes(self, eps):
        import torch

        l = torch.cat([self.losses([[t] for t in ep], _state(self.s.model, ep[0]["recurrent_state"]),
                                   _state(self.s.model, ep[0]["next_recurrent_state"])) for ep in eps])
        self.sgd(self.s.model, l.mean() if self.o.get("accum", "mean") == "mean" else l.sum())

    def errors(self, es):
        es = np.asarray(es, dtype=np.float64).ravel()
        check(self.delta is not None and es.shape == self.delta.shape and
              np.allclose(es, self.delta, rtol=5e-3, atol=1e-3), "priority-errors",
              "%s: priorities were updated with errors %s, but the sampled transitions had errors %s", self.o["kind"],
              es, self.delta)


class CategoricalRef(DQNRef):
    def losses(self, e, h=None, hn=None):
        import torch

        s, a, R, d, nt, ns = self.batch(e)
        with torch.no_grad():
            tn = self.s.target_model(ns)
            z = tn.z_values.double()
            p = tn.q_dist.double()
            sel = self.s.model(ns) if self.o["kind"] == "CategoricalDoubleDQN" else tn
            best = (sel.q_dist * sel.z_values).sum(-1).argmax(1)
            p = p[torch.arange(len(e)), best]
            T = torch.zeros_like(p)
            dz = float(z[1] - z[0])
            for i in range(len(e)):
                for j in range(len(z)):
                    v = float(R[i] + d[i] * nt[i] * z[j])
                    v = min(max(v, float(z[0])), float(z[-1]))
                    for k in range(len(z)):  # linear interpolation between the neighbouring atoms
                        T[i, k] += p[i, j] * max(0.0, 1.0 - abs(v - float(z[k])) / dz)
        q = self.s.model(s).q_dist[torch.arange(len(e)), a]
        l = -(T.float() * torch.log(q.clamp(1e-10, 1.0))).sum(1)
        self.delta = l.detach().numpy()
        return l


class IQNRef(DQNRef):
    """Knows the quantile thresholds from what the networks were given."""

    def after_observe(self):
        self.due = []
        cur = None
        for e in self.log[self.seen:]:
            if e[0] in ("sample", "episodes"):
                cur = []
                self.due.append(cur)
            elif e[0] == "taus":
                if cur is not None:
                    cur.append(e[1])
            else:
                cur = None
        super().after_observe()

    def events(self):
        return [e for e in super().events() if e[0] != "taus"]

    def learn(self, items):
        import torch

        taus = self.due.pop(0)
        B = len(items)
        N, M, K = self.o["taus"]
        by = {n: [t for t in taus if tuple(t.shape) == (B, n)] for n in (N, M, K)}
        check(all(len(v) == 1 for v in by.values()), "thresholds", "IQN: an update with %d transitions used thresholds of shapes %s", B,
              [tuple(t.shape) for t in taus])
        for t in taus:
            check(bool((t >= 0).all()) and bool((t <= 1).all()), "thresholds", "quantile thresholds outside [0, 1]")
        tn, tm, tk = by[N][0], by[M][0], by[K][0]
        s, a, R, d, nt, ns = self.batch(items)
        i = torch.arange(B)
        with torch.no_grad():
            f = self.s.target_model(ns)
            best = f(tk).quantiles.mean(1).argmax(1)
            y = R[:, None] + (d * nt)[:, None] * f(tm).quantiles[i, :, best]
        z = self.s.model(s)(tn).quantiles[i, :, a]
        delta = y[:, None, :] - z[:, :, None]
        ad = delta.abs()
        hub = torch.where(ad < 1, 0.5 * delta ** 2, ad - 0.5)
        l = (tn[:, :, None] - (delta < 0).float()).abs().detach() * hub
        self.delta = l.detach().mean((1, 2)).numpy()
        l = l.mean(2).sum(1)
        if "weight" in items[0][0]:
            l = l * _t([e[0]["weight"] for e in items])
        self.sgd(self.s.model, l.mean() if self.o.get("accum", "mean") == "mean" else l.sum())


def _state(model, stored):
    """A stored recurrent state (of one environment) as an input of the layer."""
    import torch

    lv = leaves(stored)
    if not lv:
        return None
    ts = [torch.as_tensor(v, dtype=torch.float32).reshape(1, 1, -1) for v in lv]
    return tuple(ts) if any(type(m).__name__ == "LSTM" for m in model.children()) else ts[0]


class DDPGRef(ReplayRef):
    nets = ("model", "target_model")

    def on_step(self):
        if self.t % self.o["target_interval"] == 0:
            if self.o.get("target_method", "soft") == "hard":
                self.s.target_model.load_state_dict(self.s.model.state_dict())
            else:
                soft(self.s.target_model, self.s.model, 0.1)

    def learn(self, items):
        import torch

        s, a, R, d, nt, ns = self.batch(items)
        pol, q = self.s.model
        tpol, tq = self.s.target_model
        with torch.no_grad():
            y = R + d * nt * tq((ns, tpol(ns).sample()))[:, 0]
        self.sgd(q, ((q((s, a.float()))[:, 0] - y) ** 2).mean())
        self.sgd(pol, -q((s, pol(s).rsample())).mean())


class TD3Ref(ReplayRef):
    nets = ("policy", "q_func1", "q_func2", "target_policy", "target_q_func1", "target_q_func2")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.n = 0

    def learn(self, items):
        import torch

        g = self.net
        s, a, R, d, nt, ns = self.batch(items)
        with torch.no_grad():
            na = A.SMOOTH[0] * g("target_policy")(ns).sample() + A.SMOOTH[1]
            y = R + d * nt * torch.min(g("target_q_func1")((ns, na)), g("target_q_func2")((ns, na)))[:, 0]
        for q in (g("q_func1"), g("q_func2")):
            self.sgd(q, ((q((s, a.float()))[:, 0] - y) ** 2).mean())
        self.n += 1
        if self.n % self.o.get("delay", 2) == 0:
            self.sgd(g("policy"), -g("q_func1")((s, g("policy")(s).rsample())).mean())
            for k in ("policy", "q_func1", "q_func2"):
                soft(g("target_" + k), g(k), 0.1)


class SACRef(ReplayRef):
    nets = ("policy", "q_func1", "q_func2", "target_q_func1", "target_q_func2")

    def __init__(self, *a, **k):
        import torch

        super().__init__(*a, **k)
        self.logt = torch.tensor(float(np.log(0.7)), requires_grad=True)
        self.topt = torch.optim.Adam([self.logt], lr=0.05)

    def learn(self, items):
        import torch

        g = self.net
        T = float(self.logt.detach().exp())
        s, a, R, d, nt, ns = self.batch(items)
        with torch.no_grad():
            di = g("policy")(ns)
            na = di.sample()
            y = R + d * nt * (torch.min(g("target_q_func1")((ns, na)), g("target_q_func2")((ns, na)))[:, 0]
                              - T * di.log_prob(na))
        for q in (g("q_func1"), g("q_func2")):
            self.sgd(q, 0.5 * ((q((s, a.float()))[:, 0] - y) ** 2).mean())
        di = g("policy")(s)
        na = di.rsample()
        lp = di.log_prob(na)
        q = torch.min(g("q_func1")((s, na)), g("q_func2")((s, na)))[:, 0]
        self.sgd(g("policy"), (T * lp - q).mean())
        for k in ("q_func1", "q_func2"):
            soft(g("target_" + k), g(k), 0.1)
        if self.o.get("entropy_target"):
            gr = float(-(T * (lp.detach() - 2.0)).mean())
            if self.o.get("max_grad_norm"):
                gr = max(-self.o["max_grad_norm"], min(self.o["max_grad_norm"], gr))
            self.logt.grad = torch.tensor(gr)
            self.topt.step()

    def compare(self, kind, step):
        super().compare(kind, step)
        T = float(self.logt.detach().exp())
        check(abs(self.agent.temperature - T) <= 1e-2 * T, "temperature", "SAC: temperature %.5g after step %d instead of %.5g",
              self.agent.temperature, step + 1, T)


class ACERRef(ReplayRef):
    nets = ("model", "shared_model", "shared_average_model")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.seg = []
        self.ha = self.ha_next = None  # the average model's recurrent state

    def before_act(self, obs):
        import torch

        super().before_act(obs)
        if self.rec:
            with torch.no_grad():
                self.ha_next = detach(seq_forward(self.s.shared_average_model, _t(obs[0])[None], self.ha)[1])

    def step(self, seg, h, ha, mus, v_last_state):
        import torch

        model = self.s.model
        xs = _t([t["obs"] for t in seg])
        (dist, q, v), h2 = forward(model, xs, self.rec, h)
        with torch.no_grad():
            avg = torch.softmax(forward(self.s.shared_average_model, xs, self.rec, ha)[0][0].logits, 1)
        q = q.q_values
        acts = torch.as_tensor(np.asarray([int(t["a"]) for t in seg]))
        if seg[-1]["done"]:
            R = 0.0
        else:
            with torch.no_grad():
                st = h2 if v_last_state is None else v_last_state
                R = float(forward(model, _t(seg[-1]["nxt"])[None], self.rec, st)[0][2])
        loss = 0.0
        trunc = self.o.get("trunc", 10)
        opc = R
        for k in reversed(range(len(seg))):
            a = int(acts[k])
            R = seg[k]["r"] + GAMMA * R
            opc = seg[k]["r"] + GAMMA * opc
            lp = dist.logits[k] - torch.logsumexp(dist.logits[k], 0)
            vv, qq = float(v[k]), float(q[k, a])
            adv = (opc if self.o.get("opc") else R) - vv
            g = torch.zeros_like(lp)  # derivative of the policy loss by the log probabilities
            if mus is None:
                rho = 1.0
                g[a] -= adv
            else:
                mu = mus[k].logits.reshape(-1)
                mu = mu - torch.logsumexp(mu, 0)
                with torch.no_grad():
                    full = torch.exp(lp - mu)
                    rho = float(full[a])
                    w = torch.clamp(1 - trunc / full, min=0) * torch.exp(lp)
                    corr = w * (q[k] - vv)
                g = g - corr.detach()
                g[a] -= min(trunc, rho) * adv
            if not self.o.get("notrust"):
                # the derivative of KL(average || policy) by the log probabilities is -average
                kk = avg[k]
                g = g - max(0.0, (float(kk @ g) - self.o.get("trdelta", 0.1)) / float(kk @ kk)) * kk
            loss = loss + (g.detach() * lp).sum()
            loss = loss - 0.01 * -(lp.exp() * lp).sum()
            loss = loss + 0.5 * 0.5 * (q[k, a] - R) ** 2
            R = min(1.0, rho) * (R - qq) + vv
            opc = opc - qq + vv
        self.sgd(model, loss / len(seg))
        self.s.shared_model.load_state_dict(model.state_dict())
        soft(self.s.shared_average_model, model, 1 - 0.7)

    def after_observe(self):
        t = dict(self.last(0), ha=self.ha)
        self.seg.append(t)
        ev = self.events()
        due = t["end"] or len(self.seg) == self.o["tmax"]
        if due:
            self.updates += 1
            seg, self.seg = self.seg, []
            self.step(seg, seg[0]["h"], seg[0]["ha"], None, seg[-1]["hn"])
        for e in ev:
            if e[0] == "episodes":
                check(due, "replay-early", "ACER replayed before the segment was over")
                self.updates += 1
                ep = e[1][0]
                seg = [dict(obs=x["state"], a=x["action"], r=x["reward"], nxt=x["next_state"], done=x["is_state_terminal"])
                       for x in ep]
                self.step(seg, None, None, [x["mu"] for x in ep], None)
        self.advance()
        self.ha = None if t["end"] else self.ha_next


REFS = {"PPO": PPORef, "TRPO": TRPORef, "A2C": A2CRef, "A3C": A3CRef, "REINFORCE": ReinforceRef, "DQN": DQNRef,
        "DoubleDQN": DQNRef, "AL": DQNRef, "PAL": DQNRef, "DoublePAL": DQNRef, "DPP": DQNRef, "DPPL": DQNRef, "DPPGreedy": DQNRef,
        "CategoricalDQN": CategoricalRef, "CategoricalDoubleDQN": CategoricalRef, "IQN": IQNRef, "DDPG": DDPGRef, "TD3": TD3Ref, "SAC": SACRef, "ACER": ACERRef}


# ------------------------------------------------------------- recording
def recording(base, log):
    """The given replay buffer, recording its use in log."""
    cls = type(base)

    class Rec(cls):
        def append(self, *a, **k):
            if not self._vdepth:
                names = ["state", "action", "reward", "next_state", "next_action", "is_state_terminal", "env_id"]
                d = dict(zip(names, a))
                d.update(k)
            self._vdepth += 1
            try:
                super().append(*a, **k)
            finally:
                self._vdepth -= 1
            if not self._vdepth:
                log.append(("append", d, (len(self), getattr(self, "n_episodes", 0))))

        def stop_current_episode(self, env_id=0):
            self._vdepth += 1
            try:
                super().stop_current_episode(env_id=env_id)
            finally:
                self._vdepth -= 1
            if not self._vdepth:
                log.append(("stop", env_id, (len(self), getattr(self, "n_episodes", 0))))

        def sample(self, n):
            self._vdepth += 1
            try:
                r = super().sample(n)
            finally:
                self._vdepth -= 1
            if not self._vdepth:
                log.append(("sample", [[dict(t) for t in e] for e in r]))
            return r

    if hasattr(cls, "update_errors"):
        def update_errors(self, errors):
            log.append(("errors", [float(e) for e in errors]))
            return cls.update_errors(self, errors)

        Rec.update_errors = update_errors
    if hasattr(cls, "sample_episodes"):
        def sample_episodes(self, n_episodes, max_len=None):
            self._vdepth += 1
            try:
                r = cls.sample_episodes(self, n_episodes, max_len)
            finally:
                self._vdepth -= 1
            log.append(("episodes", [[dict(t) for t in e] for e in r]))
            return r

        Rec.sample_episodes = sample_episodes
    base.__class__ = Rec
    base._vdepth = 0
    return base
