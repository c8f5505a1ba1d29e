import errno

from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from . import _meta

PROPERTY = "C04"
LEVEL = "exploration"
TECH = "seeded interleavings of environment streams with torn/failed saves, checked against a reference model"
RULE = ("One run = a random interleaving of the transition streams of 1-4 environments (terminal steps, cuts) into one replay "
        "memory (plain or prioritised, random N and capacity), with samples, saves and loads; some saves are killed or fail at "
        "a random file operation. After every operation the contents are compared with the model. Non-trivial: at least two "
        "environments were interleaved within unfinished episodes, or a save was torn. distinct_states counts (N, capacity, "
        "environments pending, operation) tuples.")
REAL = ["pfrl.replay_buffers.replay_buffer", "pfrl.replay_buffers.prioritized", "pfrl.collections"]
STUB = ["disk behind a crash/error seam; environments are generated event streams"]
ASSUMPTIONS = ["one thread at a time uses the memory (callers lock, see C13)"]


def _key(e):
    return tuple(t["state"] for t in e)


def _run(ctx):
    import pfrl

    ch = ctx.ch
    root = ctx.scratch()
    plan = {"left": None, "act": None}

    def planner(op, path, size):
        if plan["left"] is None:
            return None
        if plan["left"] == 0:
            plan["left"] = None
            return plan["act"]
        plan["left"] -= 1
        return None

    d = diskmod.Disk(root, planner)
    diskmod.use(d)
    N = ch.pick([1, 2, 3, 5], "N")
    cap = ch.pick([6, None, 1, 2, 4, 9, 15], "cap")
    prio = ch.chance(0.35, "prio")
    nenv = ch.integer(1, 4, "nenv")
    extra = ch.chance(0.3, "kwargs")

    def make():
        if prio:
            return pfrl.replay_buffers.PrioritizedReplayBuffer(capacity=cap, num_steps=N)
        return pfrl.replay_buffers.ReplayBuffer(capacity=cap, num_steps=N)

    buf = make()
    ctx.event("N", N, "cap", cap, "prio", prio, "envs", nenv)
    entries = []  # model: list of tuples of transition dicts
    ep = {e: [] for e in range(nenv)}  # current episode
    emitted = {e: 0 for e in range(nenv)}
    counter = [0]
    saved = {}  # file -> list of possible contents
    envs = ["e%d" % e if ch.chance(0.2, "strid") else e for e in range(nenv)]

    def emit(e):
        entries.append(tuple(ep[e][emitted[e]:emitted[e] + N]))
        emitted[e] += 1
        if cap is not None:
            while len(entries) > cap:
                entries.pop(0)

    def flush(e):
        while emitted[e] < len(ep[e]):
            emit(e)
        ep[e] = []
        emitted[e] = 0

    def same(e, m):
        if len(e) != len(m):
            return False
        for a, b in zip(e, m):
            a = {k: v for k, v in a.items() if k != "weight"}
            if a != b:
                return False
        return True

    def verify(b, want, what):
        n = len(b)
        check(n == len(want), "wrong-size", "%s: %d entries, expected %d: %s", what, n, len(want),
              [[t["state"] for t in m] for m in want][-12:])
        if n == 0:
            return
        got = b.sample(n)
        if prio:
            b.update_errors([0.1 + 0.05 * (i % 7) for i in range(n)])
        check(len(got) == n, "sample-size", "%s: sample(%d) returned %d", what, n, len(got))
        gk = sorted(_key(e) for e in got)
        wk = sorted(tuple(t["state"] for t in m) for m in want)
        check(gk == wk, "wrong-entries", "%s: entries %s, expected %s", what, gk, wk)
        bykey = {tuple(t["state"] for t in m): m for m in want}
        for e in got:
            check(same(e, bykey[_key(e)]), "altered-entry", "%s: %r, expected %r", what, e, bykey[_key(e)])
        check(len(b) == n, "sample-removes", "%s: sampling changed the size", what)

    for _ in range(ch.integer(4, 40, "nops")):
        op = ch.weighted([("append", 60), ("stop", 10), ("sample", 8), ("save", 6), ("load", 5)], "op")
        if op == "append":
            e = ch.draw(nenv, "env")
            counter[0] += 1
            c = counter[0]
            term = ch.chance(0.15, "terminal")
            t = dict(state=c, action=-c, reward=c * 0.5, next_state=c + 0.25, next_action=None, is_state_terminal=term)
            if extra:
                t["extra"] = "k%d" % c
            kw = {} if (nenv == 1 and envs[0] == 0 and ch.chance(0.3, "noid")) else {"env_id": envs[e]}
            buf.append(**dict(t), **kw)
            ep[e].append(t)
            if term:
                flush(e)
            elif len(ep[e]) - emitted[e] == N:
                emit(e)
            ctx.event("append", e, c, "T" if term else "")
            if sum(1 for x in ep.values() if x) >= 2:
                ctx.nontrivial = True
        elif op == "stop":
            e = ch.draw(nenv, "env")
            kw = {} if (nenv == 1 and envs[0] == 0) else {"env_id": envs[e]}
            buf.stop_current_episode(**kw)
            flush(e)
            ctx.event("stop", e)
        elif op == "sample":
            if len(entries):
                k = ch.integer(1, len(entries), "k")
                got = buf.sample(k)
                keys = [_key(x) for x in got]
                check(len(set(keys)) == k == len(got), "repeated-sample", "sample(%d) gave %s", k, keys)
                have = {tuple(t["state"] for t in m) for m in entries}
                check(set(keys) <= have, "phantom-sample", "sampled %s which is not stored", set(keys) - have)
                if prio:
                    buf.update_errors([0.3] * k)
                ctx.event("sample", k)
        elif op == "save":
            f = ch.pick(["a", "b"], "file")
            fault = ch.weighted([(None, 5), ("crash", 3), ("err", 2)], "save-fault")
            if fault:
                plan["left"] = ch.draw(4, "save-op")
                frac = ch.pick([0, 1, 300, 500, 900, 1000, "boundary", "boundary"], "frac")
                if frac == "boundary":
                    frac = -ch.integer(1, 40, "which")
                plan["act"] = ("crash", frac) if fault == "crash" else ("errno", errno.ENOSPC, min(0, frac))
            try:
                buf.save(root + "/" + f)
                plan["left"] = None
                saved[f] = dict(full=list(entries), torn=[])
                ctx.event("save", f, len(entries))
            except SimCrash:
                saved.setdefault(f, dict(full=None, torn=[]))["torn"].append(list(entries))
                ctx.event("save torn by crash", f)
                ctx.nontrivial = True
                ctx.states.add(("crash", d.log[-1][0], plan["act"][1]))
                d.reboot()
                # the process is gone: start again, from the file if it loads
                buf = make()
                entries = []
                ep = {e: [] for e in range(nenv)}
                emitted = {e: 0 for e in range(nenv)}
            except OSError:
                saved.setdefault(f, dict(full=None, torn=[]))["torn"].append(list(entries))
                plan["left"] = None
                ctx.event("save failed", f)
                ctx.nontrivial = True
        elif op == "load":
            if saved:
                f = ch.pick(sorted(saved), "file")
                b2 = make()
                ok = ([saved[f]["full"]] if saved[f]["full"] is not None else []) + saved[f]["torn"]
                try:
                    b2.load(root + "/" + f)
                except Exception as e:
                    check(saved[f]["torn"], "load-failed", "loading a completely saved file raised %r", e)
                    ctx.event("load refused", f, type(e).__name__)
                    continue
                n = len(b2)
                cand = None
                for c in ok:
                    if len(c) == n:
                        try:
                            verify(b2, c, "after load")
                            cand = c
                            break
                        except Violation:
                            pass
                if cand is None:
                    raise Violation("wrong-load", "loaded %d entries that were never saved; saved: %s" % (
                        n, [[[t["state"] for t in m] for m in c] for c in ok]))
                buf, entries = b2, list(cand)
                ep = {e: [] for e in range(nenv)}
                emitted = {e: 0 for e in range(nenv)}
                ctx.event("load", f, n)
                ctx.probe("loaded")
        ctx.states.add((N, cap, sum(1 for x in ep.values() if x), op))
        verify(buf, entries, "after " + op)
    ctx.absorb_disk(d)


SCENARIOS = {"interleave": (lambda ctx: _meta.solo(ctx, lambda: _run(ctx)), 8000, 200000)}
