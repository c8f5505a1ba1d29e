import warnings

import numpy as np

from sim.errors import check

from . import _agents as A
from . import _refs as R

PROPERTY = "C20"
LEVEL = "exploration"
TECH = ("refinement against executable reference models under random episode schedules: what is stored, how recurrent state "
        "flows and every parameter update are predicted from the environments' own history")
RULE = ("One run = one agent in a random configuration over 1-3 environments with a random schedule of terminations and "
        "cut-offs. 'stored': every call on the replay buffer (or message of an actor) against the environments' history, for "
        "all replay agents, with the recurrent states a per-environment reference computes, and every sampled item against "
        "the history. 'update': after every step all networks against a reference that learns from the environments' history "
        "(for replay agents: from the sampled items). 'act': actions of batched and recurrent agents against a reference "
        "that runs each environment alone. 'usage': how often each transition enters an update of PPO or TRPO with any "
        "minibatch size and number of epochs. Non-trivial: at least one cut-off or termination and one update (one stored "
        "transition). distinct_states counts (scenario, agent, recurrent, environments, options) tuples.")
REAL = ["pfrl.agents.*", "pfrl.replay_buffers", "pfrl.replay_buffer (ReplayUpdater, batch_experiences, "
        "batch_recurrent_experiences)", "pfrl.utils.recurrent", "pfrl.nn", "torch"]
STUB = ["environments are scripted", "the actor's pipe to the learner is a recorder"]
ASSUMPTIONS = ["plain SGD (with and without gradient clipping; DDPG without) in 'update' (so that a wrong gradient is visible), tolerance 0.5% of the "
               "largest move (TRPO policy 3%)",
               "A2C takes a cut-off for a termination and REINFORCE drops cut episodes (both warn about it)"]

STORED = A.REPLAY + ["Actor"]


def _recording_opts(o, log):
    o = dict(o)
    plain = {k: v for k, v in o.items() if k != "buffer"}

    def factory(oo):
        oo = dict(plain, episodic=oo.get("episodic"))
        return R.recording(A._replay(oo), log)

    o["buffer"] = factory
    return o


def _eq(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def _index(w):
    out = {}
    for i in range(w.n):
        for k, h in enumerate(w.hist[i]):
            out.setdefault(np.asarray(h[0]).tobytes(), []).append((i, k))
    return out


def _check_item(kind, e, w, idx, n_steps):
    """A sampled item: consecutive transitions of one environment and episode."""
    for (i, k) in idx.get(np.asarray(e[0]["state"]).tobytes(), []):
        ok = True
        for j, t in enumerate(e):
            if k + j >= len(w.hist[i]):
                ok = False
                break
            o, a, r, nx, d, c, ep = w.hist[i][k + j]
            if not (_eq(t["state"], o) and _eq(t["action"], a) and t["reward"] == r and _eq(t["next_state"], nx)
                    and bool(t["is_state_terminal"]) == d and ep == w.hist[i][k][6]):
                ok = False
                break
        if ok:
            last = w.hist[i][k + len(e) - 1]
            if n_steps is None or len(e) == n_steps or last[4] or last[5]:
                return True
    check(False, "sampled-item", "%s: learned from an item that is not what happened in an environment: %s", kind,
          [(t["state"], t["action"], t["reward"], t["is_state_terminal"]) for t in e])


def _stored(ctx):
    ch = ctx.ch
    kind = ch.pick(STORED, "agent")
    o = A.draw_opts(ch, kind)
    log = []
    o = _recording_opts(o, log)
    n = o["nenv"]
    seed = ch.draw(1 << 20, "seed")
    total = ch.integer(6, 45, "total")
    sched = A.draw_sched(ch, n, total)
    ctx.event("stored", kind, {k: o[k] for k in sorted(o) if k not in ("kind", "buffer", "taulog")}, "steps", total)
    agent = A.make(o, seed)
    shadow = A.make(dict(o, buffer=None), seed)
    A.seed_all(seed + 1)
    w = A.World(n, sched)
    drv = A.Driver(agent, w, kind)
    rec = bool(o.get("recurrent"))
    ref = None
    if rec and kind != "ACER":
        class Track(R.ReplayRef):
            nets = ("model",)
        ref = Track(o, agent, shadow, w, log)
    seen = 0
    sent = 0
    appended = 0
    for step in range(total):
        if ref is not None:
            ref.before_act(drv.obs)
        done, cut = drv.step()
        if kind == "Actor":
            ev = []
            for m in agent.pipe.sent[sent:]:
                if m[0] == "transition":
                    ev.append(("append", dict(m[1])))
                elif m[0] == "stop_episode":
                    ev.append(("stop", 0 if m[1] is None else m[1]))
            sent = len(agent.pipe.sent)
        else:
            ev = log[seen:]
            seen = len(log)
        idx = None
        for i in range(n):
            mine = [e for e in ev if (e[0] == "append" and e[1].get("env_id", 0) == i) or (e[0] == "stop" and e[1] == i)]
            ap = [e[1] for e in mine if e[0] == "append"]
            check(len(ap) == 1, "stored-count", "%s: %d transitions stored for environment %d at step %d", kind, len(ap), i,
                  step + 1)
            appended += 1
            t = ap[0]
            o_, a_, r_, nx, d_, c_, ep = w.hist[i][-1]
            for key, want in (("state", o_), ("action", a_), ("next_state", nx)):
                check(_eq(t[key], want), "stored-transition", "%s: stored %s of environment %d at step %d is %s, but it was %s",
                      kind, key, i, step + 1, t[key], want)
            check(t["reward"] == r_, "stored-transition", "%s: stored reward of environment %d at step %d is %s, but it was %s",
                  kind, i, step + 1, t["reward"], r_)
            check(bool(t.get("is_state_terminal", False)) == bool(d_), "stored-terminal",
                  "%s: transition of environment %d at step %d stored as terminal=%s (terminated %s, cut off %s)", kind, i,
                  step + 1, t.get("is_state_terminal"), d_, c_)
            stops = [k for k, e in enumerate(mine) if e[0] == "stop"]
            check(not stops or (d_ or c_), "stored-boundary", "%s: an episode boundary was recorded in the middle of the "
                  "episode of environment %d at step %d", kind, i, step + 1)
            check(bool(stops) or not c_ or d_, "stored-boundary", "%s: the cut-off of environment %d at step %d was not recorded "
                  "as an episode boundary", kind, i, step + 1)
            if stops:
                check(stops[-1] > [k for k, e in enumerate(mine) if e[0] == "append"][0], "stored-boundary",
                      "%s: the boundary was recorded before the last transition of the episode", kind)
            if ref is not None and "recurrent_state" in t:
                check(R.same_state(t["recurrent_state"], ref.h[i]), "stored-recurrent-state",
                      "%s: the recurrent state stored with the transition of environment %d at step %d is not the one of its "
                      "episode so far", kind, i, step + 1)
                check(R.same_state(t["next_recurrent_state"], ref.h_next[i]), "stored-recurrent-state",
                      "%s: the next recurrent state stored for environment %d at step %d is wrong", kind, i, step + 1)
        for e in ev:
            if e[0] in ("sample", "episodes"):
                idx = idx or _index(w)
                for item in e[1]:
                    _check_item(kind, item, w, idx, None if e[0] == "episodes" else o.get("num_steps", 1))
        if ref is not None:
            ref.advance()
    ends = sum(1 for i in range(n) for h in w.hist[i] if h[4] or h[5])
    ctx.nontrivial = appended > 0 and ends > 0
    ctx.states.add(("stored", kind, rec, n, bool(o.get("per")), o.get("num_steps", 1)))
    ctx.digest_only(A.digest([A.learned(agent), drv.log]))


def _update(ctx):
    ch = ctx.ch
    kind = ch.pick(sorted(R.REFS) + ["ACER", "ACER", "IQN", "SAC"], "agent")
    o = A.draw_opts(ch, kind)
    o.update(optim="sgd", lr=R.LR, max_grad_norm=ch.pick([False, 0.5, 0.05], "gn"), shared_sgd=True, burnin=False)
    if kind == "DDPG":
        o["max_grad_norm"] = False
    n = o["nenv"]
    log = []
    if kind in ("PPO", "TRPO"):
        o["ppo_interval"] = n * ch.integer(2, 9, "m")
        o["minibatch"] = o["ppo_interval"]
        o["epochs"] = 1
        o["std_adv"] = ch.chance(0.5, "std")
        o["clipvf"] = ch.chance(0.4, "clipvf")
    if kind == "A3C":
        o["keepscale"] = ch.chance(0.3, "keepscale")
        o["normt"] = ch.chance(0.3, "normt")
    if kind == "TD3":
        o["nosmooth"] = True
        o["delay"] = ch.pick([2, 1, 3], "delay")
    if kind == "SAC":
        o["fixedpolicy"] = True
        o["entropy_target"] = ch.chance(0.6, "etarget")
    if kind == "ACER":
        o["notrust"] = ch.chance(0.4, "notrust")
        o["trdelta"] = ch.pick([0.1, 0.01, 0.02, 1.0], "trdelta")
        o["opc"] = ch.chance(0.3, "opc")
        o["trunc"] = ch.pick([10, 1.0, 0.7], "trunc")
    if kind == "IQN":
        o.update(recurrent=False, taus=(3, 5, 6), taulog=log, num_steps=o.get("num_steps", 1), per=o.get("per", False))
    if kind in A.DQNS + A.CATS + ["IQN"]:
        o["clip"] = ch.chance(0.7, "clip")
        o["accum"] = ch.pick(["mean", "sum"], "accum")
        if o["accum"] == "sum":
            o["lr"] = R.LR
    if kind in A.REPLAY:
        o["num_steps"] = 1 if o.get("recurrent") else ch.pick([1, 2, 3], "N2")
        o = _recording_opts(o, log)
    seed = ch.draw(1 << 20, "seed")
    total = ch.integer(10, 40, "total")
    sched = A.draw_sched(ch, n, total)
    ctx.event("update", kind, {k: o[k] for k in sorted(o) if k not in ("kind", "buffer", "taulog")}, "steps", total)
    agent = A.make(o, seed)
    shadow = A.make(dict(o, buffer=None, taulog=[] if "taulog" in o else None), seed + 1)
    A.seed_all(seed + 1)
    w = A.World(n, sched)
    drv = A.Driver(agent, w, kind)
    ref = R.REFS[kind](o, agent, shadow, w, log)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step in range(total):
            ref.before_act(drv.obs)
            drv.step()
            ref.after_observe()
            ref.compare(kind, step)
    ends = sum(1 for i in range(n) for h in w.hist[i] if h[4] or h[5])
    ctx.nontrivial = ref.updates > 0 and ends > 0
    ctx.probe("updates predicted", ref.updates)
    ctx.states.add(("update", kind, bool(o.get("recurrent")), n, o.get("num_steps"), bool(o.get("normalize")), o.get("maxseq")))
    ctx.digest_only(A.digest([A.learned(agent), drv.log]))


# ------------------------------------------------------------- acting
ACT = A.DQN_FAMILY + ["Actor", "DDPG", "TD3", "SAC", "A2C", "A3C", "ACER", "PPO", "TRPO", "REINFORCE"]
EXPLORED = A.DQN_FAMILY + ["Actor", "DDPG", "TD3"]
_NET = {"DDPG": "policy", "TD3": "policy", "SAC": "policy", "TRPO": "policy"}


def _probe_explorer(ch, calls, discrete):
    """Hands out scripted actions and notes what it was offered."""
    import pfrl

    class Probe(pfrl.explorer.Explorer):
        def select_action(self, t, greedy_action_func, action_value=None):
            g = greedy_action_func()
            q = None if action_value is None else action_value.q_values.detach().cpu().numpy().reshape(-1).copy()
            if ch.chance(0.3, "explore"):
                a = np.int64(ch.draw(A.NACT, "xa")) if discrete else np.float32(0.25 * (np.arange(A.ADIM) - ch.draw(4, "xa")))
            else:
                a = g
            calls.append((t, g, q, a))
            return a

        def __repr__(self):
            return "Probe()"

    return Probe()


class Solo:
    """What the agent has to do in each environment, run alone."""

    def __init__(self, kind, o, agent, shadow, n):
        self.kind, self.o, self.agent, self.s = kind, o, agent, shadow
        self.rec = bool(o.get("recurrent"))
        self.h = [None] * n
        self.hn = [None] * n
        self.name = _NET.get(kind, "model")

    def sync(self):
        getattr(self.s, self.name).load_state_dict(getattr(self.agent, self.name).state_dict())
        if getattr(self.s, "obs_normalizer", None) is not None:
            self.s.obs_normalizer.load_state_dict(self.agent.obs_normalizer.state_dict())
            self.s.obs_normalizer._cached_std_inverse = None

    def expect(self, obs):
        """(greedy action or None if there is a tie, values or None) of every environment."""
        import torch

        self.sync()
        m = getattr(self.s, self.name)
        out = []
        with torch.no_grad():
            for i, ob in enumerate(obs):
                x = R._t(ob)[None]
                if getattr(self.s, "obs_normalizer", None) is not None:
                    x = self.s.obs_normalizer(x, update=False)
                y, self.hn[i] = R.forward(m.psi if self.kind == "IQN" else m, x, self.rec, self.h[i])
                vals = None
                if self.kind == "IQN":
                    vals = m.f(y)[0].numpy()
                elif self.kind in A.DQNS + A.CATS + ["Actor"]:
                    vals = y.q_values[0].numpy()
                elif self.kind in ("DDPG", "TD3", "SAC"):
                    out.append((y.sample()[0].numpy(), None))
                    continue
                else:
                    d = y[0] if isinstance(y, tuple) else y
                    if self.o.get("continuous"):
                        out.append((d.mean[0].numpy(), None))
                        continue
                    vals = d.logits[0].numpy()
                top = np.sort(vals)
                out.append((int(vals.argmax()) if top[-1] - top[-2] > 1e-4 else None, vals))
        return out

    def advance(self, done, cut):
        for i in range(len(self.h)):
            self.h[i] = None if (done[i] or cut[i]) else self.hn[i]


def _same_action(got, want):
    if want is None:
        return True
    return np.allclose(np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64), rtol=1e-3, atol=1e-4)


def _act(ctx):
    ch = ctx.ch
    kind = ch.pick(ACT, "agent")
    o = A.draw_opts(ch, kind, recurrent=ch.chance(0.6, "rec") if kind in A.RECURRENT else None)
    o.update(sure=True, fixedphi=True, fixedpolicy=True, burnin=False)
    if kind == "SAC":
        o["entropy_target"] = o["det"] = False
    n = o["nenv"]
    calls = []
    shadow_opts = dict(o)
    if kind in EXPLORED:
        o["myexplorer"] = _probe_explorer(ch, calls, kind not in ("DDPG", "TD3"))
    seed = ch.draw(1 << 20, "seed")
    total = ch.integer(6, 30, "total")
    sched = A.draw_sched(ch, n, total)
    ctx.event("act", kind, {k: o[k] for k in sorted(o) if k not in ("kind", "myexplorer")}, "steps", total)
    agent = A.make(o, seed)
    shadow = A.make(dict(shadow_opts, buffer=None), seed + 1)
    A.seed_all(seed + 1)
    w = A.World(n, sched)
    drv = A.Driver(agent, w, kind)
    solo = Solo(kind, o, agent, shadow, n)
    solo_ev = Solo(kind, o, agent, shadow, n)
    evals = compared = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step in range(total):
            if ch.chance(0.15, "evalnow"):
                evals += 1
                m = n if (o.get("recurrent") or kind == "A2C" or kind in A.SINGLE) else ch.integer(1, 3, "evalenvs")
                if m != n:
                    solo_ev = Solo(kind, o, agent, shadow, m)
                k = ch.integer(1, 6, "evalsteps")
                _evaluate(ctx, kind, agent, solo_ev, A.World(m, A.draw_sched(ch, m, k, label="evsched"), salt=step + 1), m, k)
                solo_ev = Solo(kind, o, agent, shadow, n)
            want = solo.expect(drv.obs)
            obs = drv.obs
            del calls[:]
            done, cut = drv.step()
            if kind in EXPLORED:
                check(len(calls) == n, "explorer-calls", "%s: the explorer was asked %d times for %d environments", kind,
                      len(calls), n)
            for i in range(n):
                got = w.hist[i][-1][1]
                compared += 1
                if kind in EXPLORED:
                    t, g, q, a = calls[i]
                    check(t == step * n, "explorer-clock", "%s: the explorer was told step %s at environment step %d", kind, t,
                          step * n)
                    check(_same_action(g, want[i][0]), "greedy-action", "%s: the greedy action of environment %d at step %d was "
                          "%s, but run alone it is %s (values %s)", kind, i, step + 1, g, want[i][0], want[i][1])
                    if q is not None and want[i][1] is not None:
                        check(np.allclose(q, want[i][1], rtol=1e-3, atol=1e-4), "action-values", "%s: environment %d at step %d "
                              "was given action values %s, but run alone they are %s", kind, i, step + 1, q, want[i][1])
                    check(_eq(got, a), "explored-action", "%s: the explorer chose %s for environment %d but %s was taken", kind,
                          a, i, got)
                else:
                    check(_same_action(got, want[i][0]), "acting", "%s: environment %d at step %d was given action %s, but run "
                          "alone it is %s (values %s)", kind, i, step + 1, got, want[i][0], want[i][1])
            solo.advance(done, cut)
            del obs
    ends = sum(1 for i in range(n) for h in w.hist[i] if h[4] or h[5])
    ctx.nontrivial = compared > 0 and ends > 0
    ctx.probe("evaluations between training steps", evals)
    ctx.states.add(("act", kind, bool(o.get("recurrent")), n, evals > 0, bool(o.get("normalize"))))
    ctx.digest_only(A.digest([A.learned(agent), drv.log]))


def _evaluate(ctx, kind, agent, solo, w, m, k):
    obs = [w.reset(i) for i in range(m)]
    with agent.eval_mode():
        for step in range(k):
            want = solo.expect(obs)
            acts = [agent.act(obs[0])] if kind in A.SINGLE else list(agent.batch_act(list(obs)))
            for i in range(m):
                check(_same_action(acts[i], want[i][0]), "evaluation-acting", "%s: in evaluation, environment %d at step %d was "
                      "given action %s, but run alone it is %s (values %s)", kind, i, step + 1, acts[i], want[i][0], want[i][1])
            rs = [w.step(i, np.array(acts[i], copy=True)) for i in range(m)]
            done = [r[2] for r in rs]
            cut = [r[3] or step == k - 1 for r in rs]
            if kind in A.SINGLE:
                agent.observe(rs[0][0], rs[0][1], done[0], cut[0])
            else:
                agent.batch_observe([r[0] for r in rs], [r[1] for r in rs], done, cut)
            solo.advance(done, cut)
            obs = [w.reset(i) if (done[i] or cut[i]) else rs[i][0] for i in range(m)]


# ------------------------------------------------------------- usage
def _usage(ctx):
    import torch

    ch = ctx.ch
    kind = ch.pick(["PPO", "TRPO"], "agent")
    o = A.draw_opts(ch, kind)
    n = o["nenv"]
    o["normalize"] = False
    o["ppo_interval"] = ch.integer(2, 14, "interval")
    o["minibatch"] = ch.integer(1, o["ppo_interval"], "mb")
    o["epochs"] = ch.integer(1, 4, "epochs")
    seed = ch.draw(1 << 20, "seed")
    total = ch.integer(10, 40, "total")
    sched = A.draw_sched(ch, n, total)
    ctx.event("usage", kind, {k: o[k] for k in sorted(o) if k != "kind"}, "steps", total)
    agent = A.make(o, seed)
    A.seed_all(seed + 1)
    w = A.World(n, sched)
    drv = A.Driver(agent, w, kind)
    rows = []
    first = list((agent.model if kind == "PPO" else agent.vf).children())[0]
    first.register_forward_pre_hook(
        lambda mod, inp: rows.append([r.tobytes() for r in inp[0].detach().cpu().numpy().reshape(-1, A.OBS)])
        if torch.is_grad_enabled() else None)
    fresh, updates = {}, 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for step in range(total):
            drv.step()
            for i in range(n):
                fresh[np.asarray(w.hist[i][-1][0]).tobytes()] = 0
            if len(fresh) < o["ppo_interval"]:
                check(not rows, "update-early", "%s updated with %d of %d transitions", kind, len(fresh), o["ppo_interval"])
                continue
            updates += 1
            for b in rows:
                check(len(b) == o["minibatch"], "minibatch-size", "%s: a minibatch of %d items (asked for %d)", kind, len(b),
                      o["minibatch"])
                for r in b:
                    check(r in fresh, "stale-item", "%s: the update at step %d used an observation that was not collected since the "
                          "last update", kind, step + 1)
                    fresh[r] += 1
            N, E, mb = len(fresh), o["epochs"], o["minibatch"]
            used = sum(fresh.values())
            worst, best = min(fresh.values()), max(fresh.values())
            if o.get("recurrent"):
                check(best <= E and used > E * (N - mb), "item-usage", "%s: %d transitions, %d epochs, minibatches of %d: items "
                      "used %d to %d times, %d in all", kind, N, E, mb, worst, best, used)
            else:
                check(worst >= E and used < N * E + mb, "item-usage", "%s: %d transitions, %d epochs, minibatches of %d: items "
                      "used %d to %d times, %d in all", kind, N, E, mb, worst, best, used)
            del rows[:]
            fresh = {}
    ends = sum(1 for i in range(n) for h in w.hist[i] if h[4] or h[5])
    ctx.nontrivial = updates > 0 and ends > 0
    ctx.states.add(("usage", kind, bool(o.get("recurrent")), n, o["minibatch"] == o["ppo_interval"]))
    ctx.digest_only(A.digest([A.learned(agent), drv.log]))


SCENARIOS = {"stored": (_stored, 160, 6000), "update": (_update, 420, 10000), "act": (_act, 220, 8000),
             "usage": (_usage, 60, 2000)}
