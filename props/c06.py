import math

from sim.errors import Violation, check

from . import _meta

PROPERTY = "C06"
LEVEL = "exploration"
TECH = "seeded interleavings of appends/evictions/samples/error reports (single- and multi-threaded), checked against a priority model"
RULE = ("One run = either a random history of appends (evicting), samples and late error reports on a prioritised memory whose "
        "returned importance weights and entries are compared with a reference model, or the real learner and poller threads of "
        "DQN sharing a prioritised memory under a seeded schedule with preemption at line granularity. Non-trivial: an eviction "
        "happened between a sample and its error report, or actor data arrived during a learner update. distinct_states counts "
        "(entries, waiting, evicted-in-between) tuples and schedules.")
REAL = ["pfrl.collections.prioritized", "pfrl.replay_buffers.prioritized", "pfrl.replay_buffers.prioritized_episodic",
        "pfrl.agents.dqn learner/poller threads"]
STUB = ["threads, pipes, locks and clock simulated; transitions generated; tiny linear Q-function"]
ASSUMPTIONS = ["priorities above zero", "frequencies tested with an exact binomial tail bound below 1e-11 per test"]


class Model:
    """Entries in order with their priority."""

    def __init__(self, cap):
        self.cap = cap
        self.items = []  # [key, priority]
        self.maxp = 1.0
        self.waiting = None

    def append(self, key, priority=None):
        self.items.append([key, self.maxp if priority is None else priority])
        if self.cap is not None:
            while len(self.items) > self.cap:
                self.items.pop(0)

    def probs(self, u=0.0):
        n = len(self.items)
        tot = math.fsum(p for _, p in self.items)
        return {k: u / n + (1 - u) * p / tot for k, p in self.items}

    def report(self, keys, prios):
        for k, p in zip(keys, prios):
            for it in self.items:
                if it[0] == k:
                    it[1] = p
            self.maxp = max(self.maxp, p)


def expected_weights(model, keys, beta, norm, u=0.0):
    pr = model.probs(u)
    n = len(model.items)
    if norm is False:
        return [(n * pr[k]) ** -beta for k in keys]
    mn = min(pr[k] for k in keys) if norm in (True, "batch") else min(pr.values())
    return [(pr[k] / mn) ** -beta for k in keys]


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def compare_weights(got, want, keys, what):
    for g, w, k in zip(got, want, keys):
        check(close(g, w), "wrong-weight", "%s: entry %s has importance weight %.9g, expected %.9g", what, k, g, w)


def tail_ok(k, n, q):
    """False only if Binomial(n, q) has a value this extreme with probability < 1e-11."""
    f = k / n
    kl = 0.0
    if f > 0:
        kl += f * math.log(f / q) if q > 0 else math.inf
    if f < 1:
        kl += (1 - f) * math.log((1 - f) / (1 - q)) if q < 1 else math.inf
    return n * kl < 26


def _transition(c, term):
    return dict(state=c, action=-c, reward=c * 0.5, next_state=c + 0.25, next_action=None, is_state_terminal=term)


def _params(ch):
    alpha = ch.pick([0.6, 1.0, 0.3, 2.0], "alpha")
    beta0 = ch.pick([0.4, 1.0, 0.0, 0.7], "beta0")
    steps = ch.pick([10, None, 3, 1000], "betasteps")
    norm = ch.pick([False, True, "batch", "memory"], "normalise")
    emin = ch.pick([0, None, 0.05], "emin")
    emax = ch.pick([1, None, 0.5, 5], "emax")
    eps = ch.pick([0.01, 0.2], "eps")
    return dict(alpha=alpha, beta0=beta0, betasteps=steps, normalize_by_max=norm, error_min=emin, error_max=emax, eps=eps)


def _prio(pa, e):
    if pa["error_min"] is not None:
        e = max(pa["error_min"], e)
    if pa["error_max"] is not None:
        e = min(pa["error_max"], e)
    return (e + pa["eps"]) ** pa["alpha"]


class Beta:
    def __init__(self, pa):
        self.b = pa["beta0"]
        self.add = 0 if pa["betasteps"] is None else (1 - pa["beta0"]) / pa["betasteps"]

    def next(self):
        b = self.b
        self.b = min(1.0, self.b + self.add)
        return b


def _history(ctx):
    import pfrl

    ch = ctx.ch
    pa = _params(ch)
    cap = ch.pick([8, None, 1, 2, 3, 5, 16], "cap")
    N = ch.pick([1, 2, 3], "N")
    nenv = ch.integer(1, 3, "nenv")
    buf = pfrl.replay_buffers.PrioritizedReplayBuffer(capacity=cap, num_steps=N, **pa)
    m = Model(cap)
    beta = Beta(pa)
    win = {e: [] for e in range(nenv)}
    ctx.event("cap", cap, "N", N, pa)
    c = 0
    pend = None

    def emit(e):
        m.append(win[e].pop(0))
        if pend is not None and cap is not None:
            ctx.probe("append while waiting")

    def sample(n, what):
        nonlocal pend
        before = {k for k, _ in m.items}
        got = buf.sample(n)
        keys = [e[0]["state"] for e in got]
        check(len(keys) == n and len(set(keys)) == n and set(keys) <= before, "wrong-sample",
              "%s: sampled %s of %s", what, keys, sorted(before))
        b = beta.next()
        compare_weights([e[0]["weight"] for e in got], expected_weights(m, keys, b, pa["normalize_by_max"]), keys, what)
        pend = keys

    def report(errs):
        nonlocal pend
        buf.update_errors(errs)
        m.report(pend, [_prio(pa, e) for e in errs])
        pend = None

    def err():
        return ch.pick([0.0, 0.3, 0.9, 2.0, 7.5, 0.001], "err") + ch.draw(50, "e") / 1000.0

    for _ in range(ch.integer(5, 40, "nops")):
        op = ch.weighted([("append", 60), ("sample", 25), ("report", 20), ("stop", 6)], "op")
        if op == "append":
            e = ch.draw(nenv, "env")
            c += 1
            term = ch.chance(0.15, "T")
            evicts = cap is not None and len(m.items) >= cap
            buf.append(env_id=e, **_transition(c, term))
            win[e].append(c)
            if len(win[e]) == N:
                emit(e)
            if term:
                while win[e]:
                    emit(e)
            if pend is not None and evicts:
                ctx.nontrivial = True
                ctx.probe("eviction between sample and report")
            ctx.event("append", e, c)
        elif op == "stop":
            e = ch.draw(nenv, "env")
            buf.stop_current_episode(env_id=e)
            while win[e]:
                emit(e)
        elif op == "sample" and pend is None and m.items:
            sample(ch.integer(1, len(m.items), "n"), "sample")
            ctx.event("sample", pend)
        elif op == "report" and pend is not None:
            report([err() for _ in pend])
            ctx.event("report")
        check(len(buf) == len(m.items), "wrong-size", "%d entries, expected %d", len(buf), len(m.items))
        ctx.states.add((len(m.items), pend is not None and len(pend), len({k for k, _ in m.items} & set(pend or ())), op))
    if pend is not None:
        report([err() for _ in pend])
    if m.items:
        sample(len(m.items), "final check of all entries")
        report([0.5] * len(m.items))
        sample(len(m.items), "after a uniform report")


def _episodic(ctx):
    import pfrl

    ch = ctx.ch
    pa = _params(ch)
    cap = ch.pick([12, None, 3, 6, 20], "cap")
    u = ch.pick([0, 0.1, 0.5], "u")
    wait = not ch.chance(0.3, "nowait")
    dpf = ch.pick([None, "len"], "default_priority")
    buf = pfrl.replay_buffers.PrioritizedEpisodicReplayBuffer(
        capacity=cap, uniform_ratio=u, wait_priority_after_sampling=wait,
        default_priority_func=None if dpf is None else (lambda ep: 0.1 * len(ep)), **pa)
    m = Model(None)
    lens = {}
    beta = Beta(pa)
    pend = None
    c = 0

    def sample(n, what):
        nonlocal pend
        before = {k for k, _ in m.items}
        got, ws = buf.sample_episodes(n)
        keys = [e[0]["state"] for e in got]
        check(len(keys) == n and set(keys) <= before, "wrong-sample", "%s: %s of %s", what, keys, sorted(before))
        if wait or u == 0:
            check(len(set(keys)) == n, "repeated-sample", "%s: %s", what, keys)
        b = beta.next()
        compare_weights(ws, expected_weights(m, keys, b, pa["normalize_by_max"], u), keys, what)
        pend = keys

    def report(errs):
        nonlocal pend
        by = dict(zip(pend, errs))
        errs = [by[k] for k in pend]
        buf.update_errors(errs)
        m.report(pend, [_prio(pa, e) for e in errs])
        pend = None

    def err():
        return ch.pick([0.0, 0.3, 0.9, 2.0, 7.5, 0.001], "err") + ch.draw(50, "e") / 1000.0

    ctx.event("cap", cap, "u", u, "wait", wait, pa)
    for _ in range(ch.integer(4, 30, "nops")):
        op = ch.weighted([("episode", 50), ("sample", 25), ("report", 20)], "op")
        if op == "episode":
            L = ch.integer(1, 5, "len")
            first = c + 1
            for i in range(L):
                c += 1
                buf.append(env_id=0, **_transition(c, i == L - 1))
            m.append(first, None if dpf is None else 0.1 * L)
            lens[first] = L
            if cap is not None:
                while sum(lens[k] for k, _ in m.items) > cap:
                    m.items.pop(0)
                    if pend is not None:
                        ctx.nontrivial = True
                        ctx.probe("eviction between sample and report")
            ctx.event("episode", first, L)
        elif op == "sample" and (pend is None or not wait) and m.items:
            sample(ch.integer(1, len(m.items), "n"), "sample")
            ctx.event("sample", pend)
        elif op == "report" and pend is not None:
            report([err() for _ in pend])
            ctx.event("report")
        ctx.states.add((len(m.items), pend is not None, op))
    if pend is not None:
        report([err() for _ in pend])
    if m.items:
        sample(len(m.items), "final check of all entries")


def _frequency(ctx):
    import pfrl

    ch = ctx.ch
    pa = dict(_params(ch), beta0=0.4, normalize_by_max=False)
    cap = ch.integer(2, 9, "cap")
    total = cap + ch.draw(12, "extra")
    buf = pfrl.replay_buffers.PrioritizedReplayBuffer(capacity=cap, **pa)
    for c in range(1, total + 1):
        buf.append(**_transition(c, ch.chance(0.1, "T")))
        if ch.chance(0.3, "interleave") and len(buf):
            n = ch.integer(1, len(buf), "n")
            buf.sample(n)
            for _ in range(ch.draw(2, "between")):
                total += 0
            buf.update_errors([0.1 + 0.2 * i for i in range(n)])
    buf.stop_current_episode()
    got = buf.sample(len(buf))
    keys = [e[0]["state"] for e in got]
    errs = {k: ch.pick([0.2, 0.02, 0.45, 0.9, 3.0], "err") for k in keys}
    buf.update_errors([errs[k] for k in keys])
    p = {k: _prio(pa, errs[k]) for k in keys}
    T = sum(p.values())
    n = ch.pick([1, 2], "batch") if len(keys) > 2 else 1
    M = 500
    count = dict.fromkeys(keys, 0)
    for _ in range(M):
        s = [e[0]["state"] for e in buf.sample(n)]
        for k in s:
            count[k] += 1
        buf.update_errors([errs[k] for k in s])
    for k in keys:
        q = p[k] / T
        if n == 2:
            q += sum(p[j] / T * p[k] / (T - p[j]) for j in keys if j != k)
        check(tail_ok(count[k], M, min(q, 1.0)), "wrong-frequency",
              "entry %s drawn %d times in %d draws of %d, expected frequency %.4f", k, count[k], M, n, q)
    ctx.nontrivial = True
    ctx.states.add((cap, n, tuple(sorted(count.values()))))
    ctx.event("freq", sorted(count.items()))


def _threads(ctx):
    """The real DQN learner and poller threads around one prioritised memory."""
    import torch
    import pfrl

    ch = ctx.ch
    k = ctx.kernel(strategy=ch.pick([("random", 1.0), ("sticky", 0.1), ("sticky", 0.3), ("pct", 0.02)], "strategy"),
                   trace_files=("pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py"),
                   trace_p=ch.pick([0.02, 0.1, 0.005], "trace_p"), step_cap=40000)
    cap = ch.pick([6, 4, 10, 16], "cap")
    n_act = ch.integer(1, 2, "actors")
    batch = ch.integer(1, 3, "batch")
    n_upd = ch.integer(2, 8, "updates")
    n_tr = [ch.integer(cap, 3 * cap, "n") for _ in range(n_act)]
    pa = dict(alpha=0.6, beta0=0.4, betasteps=20, normalize_by_max=False, error_min=0, error_max=1, eps=0.01)
    problems = []
    inflight = {"update": False}

    class Recorder(pfrl.replay_buffers.PrioritizedReplayBuffer):
        """Mirrors every operation in the model."""

        model = Model(cap)
        beta_model = Beta(pa)
        pend = None

        def note(self, fn):
            try:
                fn()
            except Violation as v:
                problems.append(v)

        def append(self, state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
            super().append(state, action, reward, next_state, next_action, is_state_terminal, env_id, **kw)
            self.model.append(float(state[0]))
            if inflight["update"]:
                ctx.probe("append during a learner update")
                ctx.nontrivial = True

        def sample(self, n):
            got = super().sample(n)
            keys = [float(e[0]["state"][0]) for e in got]

            def cmp():
                known = {x for x, _ in self.model.items}
                check(len(set(keys)) == n and set(keys) <= known, "wrong-sample", "%s of %s", keys, sorted(known))
                compare_weights([e[0]["weight"] for e in got],
                                expected_weights(self.model, keys, self.beta_model.next(), False), keys, "learner sample")
            self.note(cmp)
            self.pend = keys
            inflight["update"] = True
            return got

        def update_errors(self, errors):
            super().update_errors(errors)
            self.model.report(self.pend, [_prio(pa, float(e)) for e in errors])
            inflight["update"] = False

    def main():
        import numpy as np
        import logging

        torch.manual_seed(ch.seed32("torch"))
        q = torch.nn.Sequential(torch.nn.Linear(2, 2), pfrl.q_functions.DiscreteActionValueHead())
        buf = Recorder(capacity=cap, **pa)
        log = _meta.LogTrap()
        agent = pfrl.agents.DQN(
            q, torch.optim.SGD(q.parameters(), lr=1e-3), buf, 0.9,
            pfrl.explorers.ConstantEpsilonGreedy(0.3, lambda: int(np.random.randint(2))),
            replay_start_size=max(batch, 2), minibatch_size=batch, update_interval=1, target_update_interval=4,
            logger=log.logger)
        make_actor, learner, poller, exc = agent.setup_actor_learner_training(
            n_actors=n_act, n_updates=n_upd, actor_update_interval=2)
        actors = [make_actor(i) for i in range(n_act)]
        learner.start()
        poller.start()

        def actor(i):
            for j in range(n_tr[i]):
                s = np.array([i * 1000 + j + 1, 0], dtype=np.float32)
                actors[i].pipe.send(("transition", dict(state=s, action=j % 2, reward=1.0, next_state=s,
                                                        is_state_terminal=ch.chance(0.1, "T"))))
                k.point("actor")

        import threading
        ts = [threading.Thread(target=actor, args=(i,)) for i in range(n_act)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for i in range(n_act):
            actors[i].get_statistics()
        learner.join()
        poller.stop()
        poller.join()
        if log.records:
            raise Violation("thread-failed", log.records[0])
        if problems:
            raise problems[0]
        check(not exc.is_set(), "thread-failed", "exception event set")
        check(len(buf) == len(buf.model.items) == min(cap, sum(n_tr)), "wrong-size", "%d entries, model %d, cap %d, sent %s",
              len(buf), len(buf.model.items), cap, n_tr)
        buf.sample(len(buf))
        buf.update_errors([0.5] * len(buf.pend))
        buf.sample(len(buf))
        if problems:
            raise problems[0]

    try:
        k.run(main)
    finally:
        ctx.absorb(k)


SCENARIOS = {
    "history": (lambda ctx: _meta.solo(ctx, lambda: _history(ctx)), 6000, 150000),
    "episodic": (lambda ctx: _meta.solo(ctx, lambda: _episodic(ctx)), 4000, 100000),
    "frequency": (lambda ctx: _meta.solo(ctx, lambda: _frequency(ctx)), 160, 4000),
    "threads": (_threads, 500, 12000),
}
