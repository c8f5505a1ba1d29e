from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from . import _meta

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("One run = a random tree of runs (each directory optionally inherits from an earlier one), each with its own "
        "capacity, filled with a random number of items, ended by close, abandonment or death at a random file operation, "
        "and possibly reopened with the same arguments; contents are compared with the model lineage and the ancestors' "
        "files hashed before and after. Non-trivial: a store with at least one ancestor holding data was checked. "
        "distinct_states counts (generations, own items vs capacity, clean or crashed parent) tuples.")
REAL = ["pfrl.collections.persistent_collections", "pfrl.replay_buffers.persistent"]
STUB = ["disk: real files in scratch behind a crash seam; wall clock; data file roll-over size randomised"]
ASSUMPTIONS = ["a store is reopened with the same ancestor argument it was created with",
               "an ancestor's directory was successfully created before it is inherited from"]


def _scenario(kind):
    def run(ctx):
        from . import _persist as P

        ch = ctx.ch
        root = ctx.scratch()
        plan = P.CrashPlan(ch)
        d = diskmod.Disk(root, plan)
        diskmod.use(d)
        nviews = 2 if kind == "episodic" else 1
        nodes = []  # dict(path, parent, own views, maxlen, born, crashed)
        n = 0
        same_cap = ch.chance(0.4, "same-cap")
        cap0, chunk = P.pick_sizes(ctx)
        ctx.event(kind, "chunk", chunk)

        def lineage(node):
            out = [P.View() for _ in range(nviews)]
            chain = []
            x = node
            while x is not None:
                chain.append(x)
                x = x["parent"]
            for x in reversed(chain):
                for o, v in zip(out, x["own"]):
                    o.entries.extend([list(e) for e in v.entries])
            return out

        def settle(node, got):
            # translate the observation back to the nodes' own entries
            x = node
            chain = []
            while x is not None:
                chain.append(x)
                x = x["parent"]
            for vi in range(nviews):
                g = [repr(y) for y in got[vi]]
                seen = set(g)
                if not g:
                    continue
                # entries newer than the oldest visible one are now decided
                flat = [e for x in reversed(chain) for e in x["own"][vi].entries]
                first = next(i for i, e in enumerate(flat) if repr(e[0]) == g[0])
                for x in chain:
                    keep = []
                    for e in x["own"][vi].entries:
                        pos = next(i for i, f in enumerate(flat) if f is e)
                        if pos >= first and e[1] == "maybe":
                            if repr(e[0]) in seen:
                                e[1] = "acked"
                                keep.append(e)
                        else:
                            keep.append(e)
                    x["own"][vi].entries = keep

        def use(node, nops, verify_only=False):
            nonlocal n
            P.set_chunk_size(chunk if not ch.chance(0.2, "rechunk") else ch.pick([None, 1, 100, 400], "chunk2"))
            before = {}
            x = node["parent"]
            while x is not None:
                before[x["path"]] = P.tree_hash(x["path"])
                x = x["parent"]
            st = P.Store(kind, node["path"], node["maxlen"], node["parent"]["path"] if node["parent"] else None)
            node["born"] = True
            got = st.contents()
            lin = lineage(node)
            for v, g in zip(lin, got):
                v.judge(g, node["maxlen"], "opening %s" % node["name"])
            settle(node, got)
            ctx.event("open", node["name"], "cap", node["maxlen"], [P.short(g) for g in got])
            if node["parent"] is not None and any(v.entries for v in lin):
                ctx.nontrivial = True
                gens = 0
                x = node
                while x is not None:
                    gens += 1
                    x = x["parent"]
                ctx.states.add((gens, node["maxlen"], min(len(lin[0].entries), 20), node["parent"]["crashed"]))
            for _ in range(nops):
                if kind == "episodic":
                    vs = []
                    for _ in range(ch.integer(1, 3, "ep-len")):
                        n += 1
                        vs.append(P.payload(ch, n))
                    b0, b1 = len(node["own"][0].entries), len(node["own"][1].entries)
                    for v in vs:
                        node["own"][0].add(v, "maybe")
                    node["own"][1].add(list(vs), "maybe")
                    st.append_episode(vs, ch.chance(0.5, "terminal"))
                    for e in node["own"][0].entries[b0:] + node["own"][1].entries[b1:]:
                        e[1] = "acked"
                else:
                    n += 1
                    v = P.payload(ch, n)
                    node["own"][0].add(v, "maybe")
                    st.append(v)
                    node["own"][0].entries[-1][1] = "acked"
                if ch.chance(0.2, "peek"):
                    for v, g in zip(lineage(node), st.contents()):
                        v.judge(g, node["maxlen"], "running %s" % node["name"])
            ctx.event("appended up to", n)
            if ch.chance(0.6, "close"):
                st.close()
            d.reboot()
            for p, h in before.items():
                check(P.tree_hash(p) == h, "ancestor-modified", "files of %s changed", p)

        def go(node, nops):
            d.reboot()
            if ch.chance(0.25, "crash?"):
                plan.arm(ch.pick([8, 20], "horizon"))
            try:
                use(node, nops)
                plan.disarm()
            except SimCrash:
                plan.disarm()
                node["crashed"] = True
                ctx.event("CRASH in", node["name"])
                d.reboot()

        for i in range(ch.integer(2, 5, "nodes")):
            born = [x for x in nodes if x["born"]]
            parent = None
            if born and ch.chance(0.85, "inherit"):
                parent = born[-1 - ch.draw(min(2, len(born)), "parent")]
            node = dict(name="d%d" % i, path=root + "/d%d" % i, parent=parent,
                        maxlen=cap0 if same_cap else ch.pick([4, None, 1, 2, 3, 5, 8, 12], "cap"),
                        own=[P.View() for _ in range(nviews)], born=False, crashed=False)
            nodes.append(node)
            go(node, ch.integer(0, 7, "nops"))
            if ch.chance(0.35, "revisit"):
                born = [x for x in nodes if x["born"]]
                if born:
                    x = born[ch.draw(len(born), "which")]
                    go(x, ch.integer(0, 3, "nops"))
        for node in nodes:
            if node["born"]:
                d.reboot()
                use(node, 0)
        ctx.absorb_disk(d)

    return lambda ctx: _meta.solo(ctx, lambda: run(ctx))


SCENARIOS = {
    "queue": (_scenario("queue"), 6000, 120000),
    "buffer": (_scenario("buffer"), 2500, 50000),
    "episodic": (_scenario("episodic"), 3000, 60000),
}


def cleanup():
    from . import _persist as P

    P.cleanup()
