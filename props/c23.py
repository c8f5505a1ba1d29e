import os
import warnings

import numpy as np

from sim import disk as diskmod
from sim import kernel as kn
from sim.errors import check

from . import _agents as A
from . import _refs as R

PROPERTY = "C23"
LEVEL = "exploration"
TECH = ("seeded schedules of simulated worker processes running the real A3C and ACER on shared memory; every update is predicted by a "
        "reference learner from the worker's own history and the shared state before it")
RULE = ("One run = train_agent_async with 1-4 simulated workers running the real A3C or ACER (make_agent or one agent, SGD or shared "
        "RMSprop, recurrent or not, with evaluations and failing workers). 'steps': workers interleave between agent calls; before "
        "every call the worker must see exactly the shared networks and optimiser statistics the last update (anybody's) left, and "
        "its update must be the reference's. 'lines': workers are preempted at source lines inside the update; the shared parameters "
        "at the end must be the initial ones plus the sum of all predicted updates. Non-trivial: two workers updated. distinct_states "
        "counts (agent, workers, make_agent, optimiser, recurrent, failed) tuples; distinct interleavings are counted by schedule hash.")
REAL = ["pfrl.experiments.train_agent_async", "pfrl.agents.A3C", "pfrl.agents.ACER", "pfrl.optimizers.SharedRMSpropEpsInsideSqrt",
        "pfrl.utils.copy_param", "torch (shared-memory tensors)"]
STUB = ["processes, locks, counters and events simulated in one process; scripted environments; fork() copies everything but "
        "shared-memory tensors"]
ASSUMPTIONS = ["one torch operation on a shared tensor is atomic (no lost updates inside an operation)",
               "a worker built by make_agent acts with its own initial parameters until its first update",
               "ACER without its trust region, exploration without randomness of its own"]


class Env:
    spec = action_space = observation_space = None

    def __init__(self, idx, test, sched, fail_at=None):
        self.w = A.World(1, [sched], salt=idx + (50 if test else 0))
        self.e = A.WorldEnv(self.w, 0)
        self.idx, self.test = idx, test
        self.fail_at = fail_at
        self.n = 0

    def __deepcopy__(self, memo):
        return self

    def reset(self):
        kn.K.point("env-reset")
        return self.e.reset()

    def step(self, a):
        kn.K.point("env-step")
        self.n += 1
        if self.n == self.fail_at:
            raise RuntimeError("simulated environment failure")
        r = self.e.step(a)
        kn.K.point("env-stepped")
        return r

    def close(self):
        pass


def _tensors(x):
    """State of a network or optimiser that lives in tensors."""
    import torch

    if isinstance(x, torch.nn.Module):
        return {k: v.detach().clone() for k, v in x.state_dict().items()}
    return {(i, k): v.detach().clone() for i, st in x.state_dict()["state"].items() for k, v in st.items()
            if isinstance(v, torch.Tensor) and v.dim() > 0}


def _same(a, b):
    import torch

    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in a)


class Watch:
    """The observer of all workers."""

    def __init__(self, ctx, kind, o, fine, seed):
        self.ctx, self.kind, self.o, self.fine, self.seed = ctx, kind, o, fine, seed
        self.refs, self.envs, self.local, self.updates = {}, {}, {}, {}
        self.record = None
        self.initial = None
        self.total = None
        self.busy, self.seq = set(), 0
        self.unfinished = {}
        self.pids, self.logs = {}, {}

    def __deepcopy__(self, memo):
        return self

    def ref(self, agent):
        import torch

        i = agent.process_idx
        if i not in self.refs:
            shadow = A.make(dict(self.o, buffer=None), self.seed + 1 + i)
            base = R.REFS[self.kind]
            watch = self

            class AsyncRef(base):
                def pre(self):
                    super().pre()
                    st = self.agent.optimizer.state_dict()["state"]
                    self.sq = {j: s["square_avg"].detach().double().clone() for j, s in st.items() if "square_avg" in s}

                def sgd(self, module, loss):
                    ps = list(module.parameters())
                    gs = torch.autograd.grad(loss, ps, allow_unused=True, retain_graph=True)
                    gs = [None if g is None else g.double() for g in gs]
                    clip = self.o.get("max_grad_norm")
                    if clip:
                        norm = float(sum((g ** 2).sum() for g in gs if g is not None)) ** 0.5
                        c = min(1.0, clip / (norm + 1e-6))
                        gs = [None if g is None else g * c for g in gs]
                    lr = self.o["lr"]
                    shared = list(self.s.shared_model.parameters())
                    with torch.no_grad():
                        for j, (p, g) in enumerate(zip(shared, gs)):
                            if g is None:
                                continue
                            if self.o.get("shared_sgd"):
                                delta = -lr * g
                            else:
                                self.sq[j] = 0.9 * self.sq[j] + 0.1 * g ** 2
                                delta = -lr * g / (self.sq[j] + 1e-2).sqrt()
                            p += delta.to(p.dtype)
                            if watch.total is not None:
                                watch.total[j] += delta
                        for p, q in zip(ps, shared):
                            p.copy_(q)

            if watch.fine:
                AsyncRef.nets = ("model", "shared_model")
            self.refs[i] = AsyncRef(self.o, agent, shadow, self.envs[i].w, self.logs.setdefault(i, []))
        return self.refs[i]

    def shared(self, agent):
        return {k: _tensors(getattr(agent, k)) for k in agent.shared_attributes}

    def before_act(self, agent, obs):
        i = agent.process_idx
        self.pids[kn.K.current.proc.pid] = i
        r = self.ref(agent)
        if i in self.local:
            check(_same(self.local[i], _tensors(agent.model)), "local-changed",
                  "the parameters worker %d acts with changed since its last update", i)
        r.before_act([obs])

    def before_observe(self, agent):
        i = agent.process_idx
        r = self.ref(agent)
        if not self.fine:
            now = self.shared(agent)
            if self.record is not None:
                for k in now:
                    bad = [n for n in now[k] if n not in self.record[1][k] or not bool((now[k][n] == self.record[1][k][n]).all())]
                    check(not bad and len(now[k]) == len(self.record[1][k]), "not-shared",
                          "worker %d does not see %s of %s as worker %s left it", i, bad[:3], k, self.record[0])
        h, hn = r.h, r.h_next
        r.pre()
        r.h, r.h_next = h, hn
        self.unfinished[i] = (len(self.busy) > 0, self.seq)
        self.busy.add(i)
        self.seq += 1

    def after_observe(self, agent):
        i = agent.process_idx
        r = self.refs[i]
        self.busy.discard(i)
        alone = not self.unfinished[i][0] and self.seq == self.unfinished[i][1] + 1
        before = r.updates
        # (taken first: the reference runs networks of the traced files, where others may be scheduled)
        local, shared = _tensors(agent.model), _tensors(agent.shared_model)
        r.after_observe()
        if not self.fine:
            r.compare(self.kind, len(self.envs[i].w.hist[0]) - 1)
            self.record = (i, self.shared(agent))
        if r.updates > before:
            self.updates[i] = self.updates.get(i, 0) + 1
            self.local[i] = local
            if alone:
                a, b = local, shared
                check(_same(a, b), "not-synchronised", "after its update worker %d does not act with the shared parameters: %s differ",
                      i, [k for k in a if not bool((a[k] == b[k]).all())][:4])
        elif i in self.local:
            check(_same(self.local[i], _tensors(agent.model)), "local-changed",
                  "the parameters of worker %d changed without an update", i)


def _body(ctx, fine):
    import pfrl
    import torch

    from pfrl.experiments import train_agent_async

    ch = ctx.ch
    P = ch.pick([2, 3, 1, 4], "workers")
    kind = ch.pick(["A3C", "ACER"], "agent")
    o = A.draw_opts(ch, kind)
    o.update(shared_sgd=True if fine else ch.chance(0.5, "sgd"), max_grad_norm=ch.pick([False, 0.5, 0.05], "gn"), burnin=False,
             nenv=1, noshare=True)
    o["lr"] = 0.05 if o["shared_sgd"] else 0.01
    if kind == "A3C":
        o["keepscale"] = ch.chance(0.3, "keepscale")
        o["normt"] = ch.chance(0.3, "normt")
    else:
        o["notrust"] = True
        o["noreplay"] = True if fine else ch.chance(0.3, "noreplay")
    maker = ch.chance(0.5, "make_agent")
    steps = ch.pick([16, 8, 30], "steps")
    interval = ch.pick([None, 6], "interval")
    seed = ch.draw(1 << 20, "seed")
    fail = {}
    if ch.chance(0.25, "failing"):
        fail[ch.draw(P, "who")] = 1 + ch.draw(8, "when")
    scheds = {(i, t): A.draw_sched(ch, 1, 12, p_done=0.25)[0] for i in range(P) for t in (False, True)}
    outdir = ctx.scratch() + "/out"
    os.makedirs(outdir)
    files = ("experiments/train_agent_async.py",)
    if fine:
        files += ("agents/a3c.py", "agents/acer.py", "utils/copy_param.py", "optimizers/rmsprop_eps_inside_sqrt.py")
    k = ctx.kernel(strategy=ch.pick([("random", 1.0), ("sticky", 0.1), ("sticky", 0.4), ("pct", 0.03)], "strategy"),
                   trace_files=files, trace_p=ch.pick([0.3, 0.05, 1.0] if fine else [0.0, 0.1], "trace_p"), step_cap=200000)
    d = diskmod.Disk(outdir)
    w = Watch(ctx, kind, o, fine, seed)
    ctx.event("run", kind, "workers", P, "steps", steps, "make_agent", maker, "interval", interval, "fail", fail,
              {x: o[x] for x in sorted(o) if x not in ("kind", "buffer")})
    cls = {"A3C": pfrl.agents.A3C, "ACER": pfrl.agents.ACER}[kind]

    class Watched(cls):
        def act(self, obs):
            if self.training:
                w.before_act(self, obs)
            return super().act(obs)

        def observe(self, obs, reward, done, reset):
            if not self.training:
                return super().observe(obs, reward, done, reset)
            w.before_observe(self)
            super().observe(obs, reward, done, reset)
            w.after_observe(self)

    def build(i):
        oo = dict(o)
        if kind == "ACER" and not o.get("noreplay"):
            cap = o.get("capacity", 50)

            def buffer(_):
                return _Logged(w, cap)

            oo["buffer"] = buffer
        a = A._MAKERS[kind](oo)
        a.__class__ = Watched
        return a

    @kn.Opaque
    def make_env(idx, test):
        e = Env(idx, test, scheds[(idx, test)], None if test else fail.get(idx))
        if not test:
            w.envs[idx] = e
        return e

    got = []

    def note(a):
        if w.initial is None:
            w.initial = [p.detach().double().clone() for p in a.shared_model.parameters()]
            if fine:
                w.total = [torch.zeros_like(p) for p in w.initial]
        return a

    note = kn.Opaque(note)

    def make_agent(i):
        return note(build(i))

    def main():
        diskmod.use(d)
        pfrl.utils.set_random_seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got.append(train_agent_async(
                outdir=outdir, processes=P, make_env=make_env, steps=steps, eval_interval=interval, eval_n_steps=5, eval_n_episodes=None,
                agent=None if maker else make_agent(0), make_agent=make_agent if maker else None))

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
    fired = [i for i in fail if i in w.envs and w.envs[i].n >= fail[i]]
    for i, p in enumerate(k.procs[1:]):
        if i in fired:
            check(p.exitcode == 1, "failure-hidden", "worker %d failed but exited with %s", i, p.exitcode)
            ctx.fault("worker-exception")
        else:
            check(p.exitcode == 0, "worker-failed", "%s exited with %s: %s", p.name, p.exitcode, p.error)
    agent = got[0]
    if fine:
        final = [p.detach().double() for p in agent.shared_model.parameters()]
        names = [n for n, _ in agent.shared_model.named_parameters()]
        n_up = sum(w.updates.values())
        for n, p0, t, p1 in zip(names, w.initial, w.total, final):
            err = float((p1 - p0 - t).abs().max())
            tol = 2e-2 * (float(t.abs().max()) + 1e-3) + 1e-5 * n_up
            check(err <= tol, "updates-lost", "after %d updates of %d workers, %s of the returned agent differs by %.3g from the initial "
                  "value plus all updates (which move it by %.3g)", n_up, P, n, err, float(t.abs().max()))
    elif w.record is not None:
        now = w.shared(agent)
        for kk in now:
            check(_same(now[kk], w.record[1][kk]), "result-differs", "%s of the agent returned to the caller is not what the workers learned", kk)
    ctx.nontrivial = len(w.updates) > 1
    ctx.probe("updates predicted", sum(w.updates.values()))
    ctx.states.add((kind, P, maker, bool(o["shared_sgd"]), bool(o.get("recurrent")), bool(fired), fine))
    ctx.digest_only(A.digest([A.learned(agent), sorted(w.updates.items())]))


class _Logged:
    """An episodic replay buffer which records, per worker, what is sampled."""

    def __new__(cls, watch, cap):
        import pfrl

        class B(pfrl.replay_buffers.EpisodicReplayBuffer):
            def log(self):
                return watch.logs.setdefault(watch.pids[kn.K.current.proc.pid], [])

            def append(self, *a, **k):
                super().append(*a, **k)
                self.log().append(("append", None))

            def sample_episodes(self, n, max_len=None):
                r = super().sample_episodes(n, max_len)
                self.log().append(("episodes", [[dict(t) for t in e] for e in r]))
                return r

        return B(cap)


def _steps(ctx):
    _body(ctx, False)


def _lines(ctx):
    _body(ctx, True)


SCENARIOS = {"steps": (_steps, 200, 6000), "lines": (_lines, 120, 4000)}
