import errno
import os

from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from . import _agents as A

PROPERTY = "C18"
LEVEL = "fault_enumeration"
TECH = ("save/kill/load histories of every agent type with crash and disk faults at every file operation, the loaded agent "
        "compared bit for bit with an in-memory copy of the saved networks and optimisers")
RULE = ("One run = one agent of any of the 18 kinds in a random configuration, trained in 1-3 scripted environments, saved at a "
        "random point (also in the middle of episodes and from evaluation mode); the save may be killed or fail at a chosen "
        "file operation, or a saved file is lost or cut afterwards; then a newly built (or already used) agent loads it. "
        "Compared: every network and optimiser state, evaluation actions, and the further training of the loaded agent against "
        "a new agent given the saved state in memory. Non-trivial: the agent had been updated before the save. "
        "distinct_states counts (agent, recurrent, optimiser, fault, file) tuples.")
REAL = ["pfrl.agents.*", "pfrl.agent.AttributeSavingMixin", "pfrl.nn", "pfrl.optimizers", "pfrl.replay_buffers", "torch"]
STUB = ["environments are scripted", "disk behind a crash/error seam (torch.save included)",
        "a new process is a newly built agent with its own initial parameters"]
ASSUMPTIONS = ["each save goes to its own directory",
               "counters and replay contents are not part of save() (they are of save_snapshot, see C17)"]


def _eval_actions(agent, kind, seed, sched, n):
    """Actions over two evaluation episodes under fixed random draws."""
    A.seed_all(seed)
    out = []
    w = A.World(1, sched, salt=11)
    with agent.eval_mode():
        for _ in range(n):
            obs = w.reset(0)
            for k in range(5):
                a = agent.act(obs)
                out.append(A.np.asarray(a).tobytes())
                obs, r, d, c = w.step(0, A.np.array(a, copy=True))
                last = k == 4
                agent.observe(obs, r, d, c or last)
                if d or c or last:
                    break
    return out


def _run(ctx):
    ch = ctx.ch
    kind = ch.pick(A.ALL, "agent")
    o = A.draw_opts(ch, kind)
    if kind not in ("A3C", "ACER"):
        o["runstat"] = ch.chance(0.3, "runstat")
    n = o["nenv"]
    seed = ch.draw(1 << 20, "seed")
    before = ch.integer(0, 40, "before")
    after = ch.integer(6, 24, "after")
    sched = A.draw_sched(ch, n, before + after + 2)
    fault = ch.pick([None, "crash", "errno", "lost-file", "cut-file", None, None], "fault")
    root = ctx.scratch()
    plan = {"left": None, "act": None, "fired": False}

    def planner(op, path, size):
        if plan["left"] is None:
            return None
        if plan["left"] == 0:
            plan["left"] = None
            plan["fired"] = True
            return plan["act"]
        plan["left"] -= 1
        return None

    d = diskmod.Disk(root, planner)
    diskmod.use(d)
    try:
        agent = A.make(o, seed)
        fresh = A.learned(agent)
        A.seed_all(seed + 1)
        drv = A.Driver(agent, A.World(n, sched), kind)
        for _ in range(before):
            drv.step()
        want = A.learned(agent)
        updated = want != fresh
        path = os.path.join(root, "agent", "x") if ch.chance(0.3, "nested") else os.path.join(root, "agent")
        ctx.event(kind, {k: o[k] for k in sorted(o) if k != "kind"}, "before", before, "fault", fault)
        torn = False
        in_eval = ch.chance(0.3, "ineval")

        def save():
            if in_eval:
                with agent.eval_mode():
                    agent.save(path)
            else:
                agent.save(path)

        if fault in ("crash", "errno"):
            plan["left"] = ch.draw(28, "at")
            if fault == "crash":
                plan["act"] = ("crash", ch.pick([0, 500, 1000, 250, 999], "frac"))
            else:
                plan["act"] = ("errno", ch.pick([errno.ENOSPC, errno.EIO], "code"), ch.pick([0, 500, 900], "frac"))
            try:
                save()
                check(not plan["fired"], "error-swallowed",
                      "saving %s returned normally although a file operation failed (%s)", kind, plan["act"])
            except SimCrash:
                torn = True
                d.reboot()
            except OSError:
                check(plan["fired"], "save-raised", "save raised an OSError without a disk fault")
                torn = True
            plan["left"] = None
        else:
            save()
            check(A.learned(agent) == want, "save-modifies", "%s: saving changed %s", kind, A.diff(A.learned(agent), want))
        ctx.absorb_disk(d)
        f = None
        if fault in ("lost-file", "cut-file"):
            files = []
            for dp, dn, fn in os.walk(path):
                files += [os.path.relpath(os.path.join(dp, x), path) for x in fn]
            f = ch.pick(sorted(files), "file")
            fp = os.path.join(path, f)
            if fault == "lost-file":
                os.remove(fp)
            else:
                cut = ch.draw(os.path.getsize(fp), "size")
                with open(fp, "rb") as fh:
                    b = diskmod.boundaries(fh.read())
                if b and ch.chance(0.4, "boundary"):
                    cut = ch.pick(b, "which")
                with open(fp, "rb+") as fh:
                    fh.truncate(cut)
            ctx.event(fault, f)
            ctx.fault(fault)
            torn = "damaged"
        ctx.states.add((kind, bool(o.get("recurrent")), o["optim"], fault, f))
        # a new process
        used = ch.chance(0.3, "used")
        other = A.make(o, seed + 7)
        if used:
            A.seed_all(seed + 9)
            ud = A.Driver(other, A.World(n, [[(True, False), (False, False)] * 2 for _ in range(n)], salt=3), kind)
            for _ in range(ch.integer(1, 30, "usedsteps")):
                ud.step()
            if ch.chance(0.7, "usedeval"):
                _eval_actions(other, kind, seed, [[(False, False)]], 1)
        try:
            other.load(path)
        except Exception as e:  # noqa
            if not torn:
                raise
            ctx.event("load raised", type(e).__name__)
            ctx.nontrivial = updated
            return
        if torn == "damaged":
            raise Violation("partial-load", "%s: load succeeded although %s was %s" %
                            (kind, f, "missing" if fault == "lost-file" else "cut short to %d bytes" % cut))
        got = A.learned(other)
        check(got == want, "loaded-state", "%s: after load, %s differ(s) from what was saved (the save was %s)", kind,
              A.diff(got, want), "torn, but load did not raise" if torn else "complete")
        ctx.nontrivial = updated
        # evaluation behaviour
        esched = A.draw_sched(ch, 1, 12, label="eval")
        if o.get("recurrent"):
            # both start from an ended evaluation episode
            _eval_actions(agent, kind, seed, [[(True, False)]], 1)
            _eval_actions(other, kind, seed, [[(True, False)]], 1)
        x = _eval_actions(agent, kind, seed + 3, esched, 2)
        y = _eval_actions(other, kind, seed + 3, esched, 2)
        check(x == y, "eval-actions", "%s: evaluation actions of the loaded agent differ from those of the saved one", kind)
        # further training, against a new agent given the same state in memory
        if not used:
            ref = A.make(o, seed + 13)
            A.copy_learned(agent, ref)
            A.reshare(ref)
            A.reshare(other)
            logs = []
            for ag in (ref, other):
                A.seed_all(seed + 17)
                dr = A.Driver(ag, A.World(n, [s[before:] or s for s in sched], salt=5), kind)
                for _ in range(after):
                    dr.step()
                logs.append(dr.log)
            for k, (p, q) in enumerate(zip(*logs)):
                check(p == q, "resumed-actions", "%s: training action %d after load differs from that of an agent given the "
                      "saved networks and optimisers in memory", kind, k + 1)
            a, b = A.learned(ref), A.learned(other)
            check(a == b, "resumed-training", "%s: %d steps after load, %s differ(s) from an agent given the saved networks and "
                  "optimisers in memory", kind, after, A.diff(a, b))
            ctx.probe("trained on after load", int(a != want))
        ctx.digest_only(A.digest([got, x]))
    finally:
        diskmod.use(None)


SCENARIOS = {"saveload": (_run, 420, 12000)}
