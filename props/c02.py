from sim import disk as diskmod
from sim.errors import Violation, check

from . import _meta

PROPERTY = "C02"
LEVEL = "fault_enumeration"
RULE = ("One run = a history of sessions on one directory with ENOSPC / EIO (single or in bursts, with 0-99% of the data "
        "already written) and short writes and errors of close() injected at randomly chosen file operations; appends that raise may be retried "
        "with a new value, the store closed, abandoned or reopened while the disk is still failing; the contents after "
        "each successful reopening are compared with the model. Non-trivial: at least one append failed and a later "
        "reopening was checked. distinct_states counts (operation hit, partial fraction, chunk position) tuples.")
REAL = ["pfrl.collections.persistent_collections", "pfrl.replay_buffers.persistent", "CPython io buffering and retry of short writes"]
STUB = ["disk: real files in scratch behind a fault-injecting seam; wall clock; data file roll-over size randomised"]
ASSUMPTIONS = ["an error of close() may go unreported (the data was flushed before)", "one process at a time uses a directory"]


def _scenario(kind):
    def run(ctx):
        from . import _persist as P

        ch = ctx.ch
        maxlen, chunk = P.pick_sizes(ctx)
        P.set_chunk_size(chunk)
        root = ctx.scratch()
        plan = P.ErrPlan(ch)
        d = diskmod.Disk(root, plan)
        diskmod.use(d)
        path = root + "/store"
        views = [P.View() for _ in range(2 if kind == "episodic" else 1)]
        n = 0
        failed = 0
        ctx.event(kind, "maxlen", maxlen, "chunk", chunk, "rates", plan.rate, plan.short)

        def note():
            op = d.log[-1]
            ctx.states.add((op[0], op[1].split("/")[-1].split(".")[0], min(op[2], 100)))

        for si in range(ch.integer(1, 3, "sessions") + 1):
            d.reboot()
            plan.on = ch.chance(0.3, "faulty-open")
            hits = plan.hits
            try:
                st = P.Store(kind, path, maxlen)
            except OSError as e:
                check(plan.hits > hits, "spurious-failure", "opening failed without a disk error: %r", e)
                ctx.event("open failed", e.errno)
                note()
                failed += 1
                continue
            plan.on = True
            got = st.contents()
            for v, g in zip(views, got):
                v.judge(g, maxlen, "after opening (session %d)" % si)
                v.settle(g)
            ctx.event("open", [P.short(g) for g in got])
            for _ in range(ch.integer(0, 9, "nops")):
                hits, silent = plan.hits, plan.silent
                try:
                    if kind == "episodic":
                        vs = []
                        for _ in range(ch.integer(1, 3, "ep-len")):
                            n += 1
                            vs.append(P.payload(ch, n))
                        b0, b1 = len(views[0].entries), len(views[1].entries)
                        for v in vs:
                            views[0].add(v, "maybe")
                        views[1].add(list(vs), "maybe")
                        st.append_episode(vs, ch.chance(0.5, "terminal"))
                        for e in views[0].entries[b0:] + views[1].entries[b1:]:
                            e[1] = "acked"
                        ctx.event("episode", P.short(vs))
                    else:
                        n += 1
                        v = P.payload(ch, n)
                        views[0].add(v, "maybe")
                        st.append(v)
                        views[0].entries[-1][1] = "acked"
                        ctx.event("append", n)
                except OSError as e:
                    check(plan.hits > hits, "spurious-failure", "append failed without a disk error: %r", e)
                    failed += 1
                    ctx.event("append FAILED", n, e.errno)
                    note()
                    if kind == "episodic":
                        break  # the unfinished episode stays pending; restart the process
                else:
                    check(plan.hits - plan.silent == hits - silent, "swallowed-error", "a disk error during an append was not reported")
            end = ch.draw(3, "end")
            plan.on = ch.chance(0.3, "faulty-close")
            if end == 0:
                try:
                    st.close()
                    ctx.event("closed")
                except OSError:
                    ctx.event("close failed")
            elif end == 1:
                d.reboot()  # process death: user-space buffers are lost
                ctx.event("abandoned")
            st = None
        plan.on = False
        d.reboot()
        st = P.Store(kind, path, maxlen)
        got = st.contents()
        for v, g in zip(views, got):
            v.judge(g, maxlen, "final reopening")
        ctx.event("final", [P.short(g) for g in got])
        ctx.nontrivial = failed > 0 and n > 0
        ctx.absorb_disk(d)

    return lambda ctx: _meta.solo(ctx, lambda: run(ctx))


SCENARIOS = {
    "queue": (_scenario("queue"), 9000, 200000),
    "buffer": (_scenario("buffer"), 4000, 80000),
    "episodic": (_scenario("episodic"), 5000, 100000),
}


def cleanup():
    from . import _persist as P

    P.cleanup()
