from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from . import _meta

PROPERTY = "C01"
LEVEL = "fault_enumeration"
RULE = ("One run = a history of sessions on one scratch directory: open (contents compared with the model), appends / "
        "episodes of random sizes, then clean close, abandonment, or death of the process at a randomly chosen file "
        "operation (before, in the middle of, or after it). Non-trivial: at least one crash hit an operation and a later "
        "session was checked. distinct_states counts (crash operation kind, position in the write, session step) tuples.")
REAL = ["pfrl.collections.persistent_collections", "pfrl.replay_buffers.persistent", "pickle, io buffering of CPython"]
STUB = ["disk: real files in a scratch directory behind a seam that kills the process at any mutating operation; "
        "wall clock; data file roll-over size randomised"]
ASSUMPTIONS = ["crash = death of the process; the operating system and its page cache survive (the code never fsyncs, so "
               "power loss is outside the property)", "one process at a time uses a directory"]


def _scenario(kind):
    def run(ctx):
        from . import _persist as P

        ch = ctx.ch
        maxlen, chunk = P.pick_sizes(ctx)
        P.set_chunk_size(chunk)
        root = ctx.scratch()
        plan = P.CrashPlan(ch)
        d = diskmod.Disk(root, plan)
        diskmod.use(d)
        path = root + "/store"
        nviews = 2 if kind == "episodic" else 1
        views = [P.View() for _ in range(nviews)]
        state = {"n": 0}
        nsess = ch.integer(1, 4, "sessions")
        ctx.event(kind, "maxlen", maxlen, "chunk", chunk)
        crashed_before = False

        def session(si, last):
            st = P.Store(kind, path, maxlen)
            got = st.contents()
            for v, g in zip(views, got):
                v.judge(g, maxlen, "after opening (session %d)" % si, strict=True)
            for v, g in zip(views, got):
                v.settle(g)
            ctx.event("open", si, [P.short(g) for g in got])
            if last:
                st.close()
                return
            nops = ch.integer(0, 8, "nops")
            for _ in range(nops):
                if kind == "queue" and ch.chance(0.15, "extend"):
                    vs = []
                    for _ in range(ch.integer(1, 3, "ext-n")):
                        state["n"] += 1
                        vs.append(P.payload(ch, state["n"]))
                    base = len(views[0].entries)
                    for v in vs:
                        views[0].add(v, "maybe")
                    st.obj.extend(vs)
                    for e in views[0].entries[base:]:
                        e[1] = "acked"
                    ctx.event("extend", P.short(vs))
                elif kind == "episodic":
                    vs = []
                    for _ in range(ch.integer(1, 4, "ep-len")):
                        state["n"] += 1
                        vs.append(P.payload(ch, state["n"]))
                    term = ch.chance(0.5, "terminal")
                    b0, b1 = len(views[0].entries), len(views[1].entries)
                    for v in vs:
                        views[0].add(v, "maybe")
                    views[1].add(list(vs), "maybe")
                    st.append_episode(vs, term)
                    for e in views[0].entries[b0:] + views[1].entries[b1:]:
                        e[1] = "acked"
                    ctx.event("episode", P.short(vs))
                else:
                    state["n"] += 1
                    v = P.payload(ch, state["n"])
                    views[0].add(v, "maybe")
                    st.append(v)
                    views[0].entries[-1][1] = "acked"
                    ctx.event("append", state["n"])
                if kind == "queue" and len(st.obj) and ch.chance(0.1, "sample"):
                    s = st.obj.sample(1)
                    check(s[0] in list(st.obj), "phantom-sample", "sampled %r", P.short(s))
                if ch.chance(0.3, "peek"):
                    for v, g in zip(views, st.contents()):
                        v.judge(g, maxlen, "while running", strict=True)
            if ch.chance(0.5, "close"):
                st.close()
                ctx.event("closed")
            # otherwise abandoned: the interpreter simply goes away
            d.reboot()

        for si in range(nsess + 1):
            last = si == nsess
            d.reboot()
            crash = not last and ch.chance(0.75, "crash?")
            if crash:
                plan.arm(ch.pick([6, 14, 30], "horizon"))
            ops0 = d.ops
            try:
                session(si, last)
                plan.disarm()
            except SimCrash:
                op = d.log[-1]
                ctx.event("CRASH at", op[0], op[1], "after", d.ops - ops0, "ops, done", plan.frac)
                ctx.states.add((op[0], op[1].split("/")[-1].split(".")[0], plan.frac, min(d.ops - ops0, 30)))
                plan.disarm()
                # only a prefix of what was in flight can be there
                crashed_before = True
        if crashed_before:
            ctx.nontrivial = True
        ctx.absorb_disk(d)
        ctx.probe("rollover", int(chunk is not None))

    return lambda ctx: _meta.solo(ctx, lambda: run(ctx))


SCENARIOS = {
    "queue": (_scenario("queue"), 6000, 120000),
    "buffer": (_scenario("buffer"), 3000, 60000),
    "episodic": (_scenario("episodic"), 4000, 80000),
}


def cleanup():
    from . import _persist as P

    P.cleanup()
