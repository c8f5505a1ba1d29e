import errno
import os

from sim import disk as diskmod
from sim.errors import SimCrash, Violation, check

from . import _agents as A

PROPERTY = "C17"
LEVEL = "fault_enumeration"
TECH = ("twin runs under one random stream: uninterrupted against killed-and-resumed from a snapshot, the kill and disk faults "
        "at any file operation of the save, compared bit for bit")
RULE = ("One run = one value-based agent (DQN, DoubleDQN, PAL, AL, DPP, DoublePAL, Categorical(Double)DQN, IQN; plain, N-step, "
        "prioritised or recurrent with episodic replay; random intervals, optimiser, explorer) trained in 1-3 scripted "
        "environments. At a point where the running episodes have just ended a snapshot is taken, possibly after earlier ones; "
        "the process is lost (in some runs in the middle of save_snapshot, at a chosen file operation, or a file operation "
        "fails); a newly built agent with other initial parameters loads it and both go on with the same random draws. "
        "Non-trivial: at least one update happened before and after the snapshot, or the save was torn. distinct_states counts "
        "(agent, buffer kind, N, envs, fault) tuples.")
REAL = ["pfrl.agents.dqn and its subclasses (save_snapshot/load_snapshot/act/observe/update)", "pfrl.replay_buffers",
        "pfrl.agent.AttributeSavingMixin", "pfrl.explorers", "torch"]
STUB = ["environments are scripted", "disk behind a crash/error seam (torch.save included)",
        "a new process is a newly built agent with its own initial parameters"]
ASSUMPTIONS = ["random generator states and environments are restored by the user (pfrl does not save them)",
               "each snapshot has its own directory", "prioritised replay without beta annealing (beta is not saved)",
               "snapshots are taken between episodes"]


def snapshot_state(agent):
    st = A.learned(agent)
    for k in ("t", "optim_t", "cumulative_steps"):
        if hasattr(agent, k):
            st[k] = getattr(agent, k)
    e = A.replay_entries(agent)
    if e is not None:
        st["replay"] = A.digest(e)
    st["rlen"] = len(agent.replay_buffer)
    return st


def _resume(ctx):
    ch = ctx.ch
    kind = ch.pick(A.DQN_FAMILY, "agent")
    o = A.draw_opts(ch, kind)
    n = o["nenv"]
    seed = ch.draw(1 << 20, "seed")
    before = ch.integer(4, 40, "before")
    after = ch.integer(6, 30, "after")
    sched = A.draw_sched(ch, n, before + after + 2)
    # the snapshot is taken where every running episode has just ended
    for i in range(n):
        d, c = sched[i][before - 1]
        if not (d or c):
            if ch.chance(0.5, "enddone"):
                sched[i][before - 1] = (True, False)
            else:
                sched[i][before - 1] = (False, True)
    fault = ch.pick([None, "crash", "errno", "lost-file", "cut-file", None], "fault")
    root = ctx.scratch()
    plan = {"left": None, "act": None, "fired": False}

    def planner(op, path, size):
        if plan["left"] is None:
            return None
        if plan["left"] == 0:
            plan["left"] = None
            plan["fired"] = True
            return plan["act"]
        plan["left"] -= 1
        return None

    d = diskmod.Disk(root, planner)
    diskmod.use(d)
    try:
        agent = A.make(o, seed)
        A.seed_all(seed + 1)
        w = A.World(n, sched)
        drv = A.Driver(agent, w, kind)
        early = ch.chance(0.3, "early") and ch.integer(1, before, "earlyat")
        for k in range(before):
            drv.step()
            if early and k + 1 == early and early < before:
                agent.save_snapshot(os.path.join(root, "early"))
                ctx.event("early snapshot after", k + 1)
        path = os.path.join(root, "snap")
        rng = A.rng_state()
        want = snapshot_state(agent)
        ctx.event(kind, {k: o[k] for k in sorted(o) if k != "kind"}, "before", before, "after", after, "fault", fault)
        ctx.states.add((kind, bool(o.get("per")), bool(o.get("recurrent")), o.get("num_steps", 1), n, fault))
        torn = False
        if fault in ("crash", "errno"):
            plan["left"] = ch.draw(24, "at")
            if fault == "crash":
                plan["act"] = ("crash", ch.pick([0, 500, 1000, 250, 999], "frac"))
            else:
                plan["act"] = ("errno", ch.pick([errno.ENOSPC, errno.EIO], "code"), ch.pick([0, 500, 900], "frac"))
            try:
                agent.save_snapshot(path)
                check(not plan["fired"], "error-swallowed",
                      "save_snapshot of %s returned normally although a file operation failed (%s)", kind, plan["act"])
            except SimCrash:
                torn = True
                d.reboot()
            except OSError:
                check(plan["fired"], "save-raised", "save_snapshot raised an OSError without a disk fault")
                torn = True
            plan["left"] = None
        else:
            agent.save_snapshot(path)
            check(snapshot_state(agent) == want, "save-modifies", "taking a snapshot changed the agent: %s",
                  A.diff(snapshot_state(agent), want))
        ctx.absorb_disk(d)
        if fault in ("lost-file", "cut-file"):
            files = sorted(f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f)))
            f = ch.pick(files, "file")
            fp = os.path.join(path, f)
            if fault == "lost-file":
                os.remove(fp)
            else:
                size = os.path.getsize(fp)
                cut = ch.draw(size, "size")
                with open(fp, "rb") as fh:
                    b = diskmod.boundaries(fh.read())
                if b and ch.chance(0.4, "boundary"):
                    cut = ch.pick(b, "which")
                with open(fp, "rb+") as fh:
                    fh.truncate(cut)
            ctx.event(fault, f)
            ctx.fault(fault)
            torn = "damaged"
        # a new process
        other = A.make(o, seed + 7)
        if ch.chance(0.25, "used"):
            # ... which has already been training on its own
            A.seed_all(seed + 9)
            uw = A.World(n, [[(True, False)] * 3 for _ in range(n)], salt=3)
            ud = A.Driver(other, uw, kind)
            for _ in range(ch.integer(1, 12, "usedsteps")):
                ud.step()
        try:
            other.load_snapshot(path)
        except Exception as e:  # noqa
            if not torn:
                raise
            ctx.event("load raised", type(e).__name__)
            ctx.nontrivial = True
            return
        if torn == "damaged":
            raise Violation("partial-load", "%s: load_snapshot succeeded although %s was %s" %
                            (kind, f, "missing" if fault == "lost-file" else "cut short to %d bytes" % cut))
        got = snapshot_state(other)
        check(got == want, "resumed-state",
              "%s: state after load_snapshot differs from the saved one in %s (snapshot %s)", kind, A.diff(got, want),
              "whose save was torn but loads without an error" if torn else "complete")
        if torn:
            ctx.nontrivial = True
            return
        # both continue
        drv.log.clear()
        A.set_rng(rng)
        obs0 = list(drv.obs)
        n0 = agent.optim_t
        w2 = _copy_world(w)
        for _ in range(after):
            drv.step()
        end = A.rng_state()
        A.set_rng(rng)
        drv2 = A.Driver.__new__(A.Driver)
        drv2.__dict__.update(drv.__dict__)
        drv2.agent, drv2.w, drv2.obs, drv2.log, drv2.steps = other, w2, obs0, [], 0
        for _ in range(after):
            drv2.step()
        for k, (x, y) in enumerate(zip(drv.log, drv2.log)):
            check(x == y, "resumed-actions", "%s: action %d after resuming differs from the uninterrupted run", kind, k + 1)
        a, b = snapshot_state(agent), snapshot_state(other)
        check(a == b, "resumed-training", "%s: %d steps after resuming, %s differ(s) from the uninterrupted run", kind, after,
              A.diff(a, b))
        e2 = A.rng_state()
        check(A.digest([end[1][1], end[2]]) == A.digest([e2[1][1], e2[2]]) and end[0] == e2[0], "resumed-draws",
              "%s: the resumed run consumed other random draws than the uninterrupted one", kind)
        if agent.optim_t > n0 > 0:
            ctx.nontrivial = True
        ctx.probe("updates before and after", int(agent.optim_t > n0 > 0))
        ctx.digest_only(A.digest([a, drv.log]))
    finally:
        diskmod.use(None)


def _copy_world(w):
    import copy

    return copy.deepcopy(w)


SCENARIOS = {"resume": (_resume, 220, 6000)}
