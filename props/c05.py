import errno

from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from . import _meta

PROPERTY = "C05"
LEVEL = "exploration"
TECH = "seeded interleavings of environment streams with torn/failed saves, checked against a reference model"
RULE = ("One run = a random interleaving of 1-4 environments' transitions, terminal steps and cuts into an episodic replay "
        "memory (plain or prioritised, random capacity), with sampling of transitions, episodes and sub-episodes, saves and "
        "loads (some killed or failing midway); both views are compared with the model after each operation. Non-trivial: "
        "an eviction happened or two environments had unfinished episodes. distinct_states counts (capacity, stored episodes, "
        "pending environments, operation) tuples.")
REAL = ["pfrl.replay_buffers.episodic", "pfrl.replay_buffers.prioritized_episodic", "pfrl.collections", "pfrl.replay_buffer.random_subseq"]
STUB = ["disk behind a crash/error seam; environments are generated event streams"]
ASSUMPTIONS = ["one thread at a time uses the memory", "the transition view of the prioritised variant is not claimed"]


def _run(ctx, kind):
    import pfrl

    ch = ctx.ch
    root = ctx.scratch()
    plan = {"left": None, "act": None}

    def planner(op, path, size):
        if plan["left"] is None:
            return None
        if plan["left"] == 0:
            plan["left"] = None
            return plan["act"]
        plan["left"] -= 1
        return None

    d = diskmod.Disk(root, planner)
    diskmod.use(d)
    cap = ch.pick([8, None, 1, 3, 5, 12, 20], "cap")
    nenv = ch.integer(1, 4, "nenv")
    wait = ch.chance(0.5, "wait")
    u = ch.pick([0, 0.3], "uniform")
    retw = ch.chance(0.6, "weights")

    def make():
        if kind == "prio":
            return pfrl.replay_buffers.PrioritizedEpisodicReplayBuffer(
                capacity=cap, wait_priority_after_sampling=wait, uniform_ratio=u, return_sample_weights=retw)
        return pfrl.replay_buffers.EpisodicReplayBuffer(capacity=cap)

    buf = make()
    ctx.event(kind, "cap", cap, "envs", nenv)
    episodes = []
    cur = {e: [] for e in range(nenv)}
    c = 0
    saved = {}

    def store(e):
        nonlocal episodes
        if cur[e]:
            episodes.append(cur[e])
            cur[e] = []
            if cap is not None:
                while sum(len(x) for x in episodes) > cap:
                    episodes.pop(0)
                    ctx.probe("eviction")
                    ctx.nontrivial = True

    def sample_eps(b, n, max_len=None):
        r = b.sample_episodes(n, max_len) if max_len is not None else b.sample_episodes(n)
        if kind == "prio":
            if retw:
                check(isinstance(r, tuple) and len(r) == 2 and len(r[1]) == n, "bad-weights", "%r", r)
                r = r[0]
            b.update_errors([0.1 + 0.07 * (i % 5) for i in range(n)])
        return r

    def states(epi):
        return tuple(t["state"] for t in epi)

    def verify(b, want, what):
        check(b.n_episodes == len(want), "wrong-episode-count", "%s: %d episodes, expected %d", what, b.n_episodes, len(want))
        unique = kind == "plain" or wait or u == 0
        if want:
            got = sample_eps(b, len(want))
            g = sorted(states(x) for x in got)
            w = sorted(states(x) for x in want)
            if unique:
                check(g == w, "wrong-episodes", "%s: %s, expected %s", what, g, w)
            else:
                check(set(g) <= set(w), "wrong-episodes", "%s: %s, expected only %s", what, g, w)
            by = {states(x): x for x in want}
            for x in got:
                check(list(x) == by[states(x)], "altered-episode", "%s: %r", what, x)
        if kind == "plain":
            n = sum(len(x) for x in want)
            check(len(b) == n, "views-differ", "%s: %d transitions but episodes hold %d", what, len(b), n)
            if n:
                tr = b.sample(n)
                g = []
                for e in tr:
                    check(len(e) == 1, "bad-transition", "%r", e)
                    g.append(e[0]["state"])
                w = sorted(s for x in want for s in states(x))
                check(sorted(g) == w, "views-differ", "%s: transitions %s, episodes hold %s", what, sorted(g), w)

    for _ in range(ch.integer(4, 45, "nops")):
        op = ch.weighted([("append", 60), ("stop", 12), ("sub", 8), ("save", 5), ("load", 4)], "op")
        if op == "append":
            e = ch.draw(nenv, "env")
            c += 1
            term = ch.chance(0.2, "terminal")
            t = dict(state=c, action=-c, reward=c * 0.5, next_state=c + 0.25, next_action=None, is_state_terminal=term)
            if ch.chance(0.2, "extra"):
                t["recurrent_state"] = "h%d" % c
            buf.append(env_id=e, **dict(t))
            cur[e].append(t)
            if term:
                store(e)
            if sum(1 for x in cur.values() if x) >= 2:
                ctx.nontrivial = True
            ctx.event("append", e, c, "T" if term else "")
        elif op == "stop":
            e = ch.draw(nenv, "env")
            buf.stop_current_episode(env_id=e)
            store(e)
            ctx.event("stop", e)
        elif op == "sub":
            if episodes:
                k = ch.integer(1, len(episodes), "k")
                ml = ch.integer(1, 5, "max_len")
                got = sample_eps(buf, k, ml)
                check(len(got) == k, "sample-size", "%d of %d", len(got), k)
                used = []
                for x in got:
                    st = states(x)
                    home = [y for y in episodes if st and st[0] in states(y)]
                    check(len(home) == 1, "phantom-episode", "%s", st)
                    full = states(home[0])
                    i = full.index(st[0])
                    check(full[i:i + len(st)] == st, "not-contiguous", "%s is not a contiguous piece of %s", st, full)
                    check(len(st) == min(ml, len(full)), "wrong-length", "%s of %s with max_len %d", st, full, ml)
                    used.append(full)
                if kind == "plain" or wait or u == 0:
                    check(len(set(used)) == len(used), "repeated-episode", "%s", used)
                ctx.event("sub", k, ml)
        elif op == "save":
            f = ch.pick(["a", "b"], "file")
            fault = ch.weighted([(None, 5), ("crash", 3), ("err", 2)], "save-fault")
            if fault:
                plan["left"] = ch.draw(4, "save-op")
                frac = ch.pick([0, 1, 300, 500, 900, 1000, "boundary", "boundary"], "frac")
                if frac == "boundary":
                    frac = -ch.integer(1, 40, "which")
                plan["act"] = ("crash", frac) if fault == "crash" else ("errno", errno.ENOSPC, min(0, frac))
            try:
                buf.save(root + "/" + f)
                plan["left"] = None
                saved[f] = dict(full=list(episodes), torn=[])
                ctx.event("save", f)
            except SimCrash:
                saved.setdefault(f, dict(full=None, torn=[]))["torn"].append(list(episodes))
                ctx.event("save torn", f)
                d.reboot()
                buf = make()
                episodes = []
                cur = {e: [] for e in range(nenv)}
            except OSError:
                saved.setdefault(f, dict(full=None, torn=[]))["torn"].append(list(episodes))
                plan["left"] = None
                ctx.event("save failed", f)
        elif op == "load":
            if saved:
                f = ch.pick(sorted(saved), "file")
                b2 = make()
                try:
                    b2.load(root + "/" + f)
                except Exception as e:
                    check(saved[f]["torn"], "load-failed", "loading a completely saved file raised %r", e)
                    ctx.event("load refused", f, type(e).__name__)
                    continue
                ok = ([saved[f]["full"]] if saved[f]["full"] is not None else []) + saved[f]["torn"]
                for cand in ok:
                    try:
                        verify(b2, cand, "after load")
                        break
                    except Violation:
                        if cand is ok[-1]:
                            raise
                buf, episodes = b2, list(cand)
                cur = {e: [] for e in range(nenv)}
                ctx.event("load", f, len(episodes))
        ctx.states.add((cap, len(episodes), sum(1 for x in cur.values() if x), op))
        verify(buf, episodes, "after " + op)
    ctx.absorb_disk(d)


SCENARIOS = {
    "plain": (lambda ctx: _meta.solo(ctx, lambda: _run(ctx, "plain")), 5000, 120000),
    "prioritised": (lambda ctx: _meta.solo(ctx, lambda: _run(ctx, "prio")), 4000, 100000),
}
