import os
import signal
import warnings

from sim import disk as diskmod
from sim import kernel as kn
from sim.errors import check

from . import _async
from ._async import AEnv, Hooked, Rec
from ._train import Boom, Episodes

PROPERTY = "C12"
LEVEL = "exploration"
TECH = "seeded schedules of simulated worker processes with injected exceptions, kill signals and external failure signals"
RULE = ("One run = train_agent_async with 2-4 simulated workers in which one or more workers raise at a random call of their "
        "environment, agent, hook or env factory, or are killed (SIGKILL/SIGTERM) at a random scheduling point where they hold "
        "no lock, or the exception event is set by another thread at a random time. Non-trivial: a fault fired while another "
        "worker was still running. distinct_states counts (fault kind, worker, point) tuples.")
REAL = ["pfrl.experiments.train_agent_async", "pfrl.utils.async_", "pfrl.experiments.evaluator.AsyncEvaluator"]
STUB = ["processes, signals, locks, events simulated; environments and agent are recording stubs"]
ASSUMPTIONS = ["a worker killed while holding a lock is not claimed", "the success score is not in use"]


def _run(ctx):
    import pfrl
    from pfrl.experiments import train_agent_async

    ch = ctx.ch
    P = ch.pick([2, 3, 4], "workers")
    steps = ch.pick([8, 4, 14, 20], "steps")
    interval = ch.pick([None, 4, 2], "interval")
    max_len = ch.pick([None, 3], "max_len")
    maker = ch.chance(0.5, "make_agent")
    mode = ch.weighted([("raise", 5), ("kill", 4), ("event", 3)], "mode")
    k = ctx.kernel(**_async.trace_kw(ch))
    rec = Rec()
    outdir = ctx.scratch() + "/out"
    os.makedirs(outdir)
    d = diskmod.Disk(outdir)
    faults = {}  # worker -> dict
    fired = {}
    counts = {}
    nf = ch.pick([1, 1, 2], "faults") if mode != "event" else 0
    for _ in range(nf):
        w = ch.draw(P, "worker")
        if mode == "raise":
            faults[w] = dict(what=ch.pick(["step", "act", "observe", "hook", "reset", "make_env", "interrupt"], "what"), n=ch.integer(1, 6, "n"))
        else:
            faults[w] = dict(n=ch.integer(1, 60, "at"), sig=ch.pick([9, 15], "sig"))

    @kn.Opaque
    def plan(idx, what):
        if mode != "raise" or idx is None or idx in fired or idx not in faults:
            return
        f = faults[idx]
        exc = Boom
        want = f["what"]
        if want == "interrupt":
            want, exc = "step", KeyboardInterrupt
        if what == want:
            c = counts[idx] = counts.get(idx, 0) + 1
            if c == f["n"] or what == "make_env":
                fired[idx] = (what, len(rec.log))
                ctx.fault("raise:" + what)
                raise exc("injected in worker %d" % idx)

    names = {}

    def killer(task, label):
        idx = names.get(task.proc.pid)
        if idx is None or idx in fired or idx not in faults or task.proc.held or not task.proc.alive:
            return
        c = counts[idx] = counts.get(idx, 0) + 1
        if c >= faults[idx]["n"]:
            fired[idx] = ("kill", len(rec.log))
            ctx.fault("kill-%d" % faults[idx]["sig"])
            k.kill_proc(task.proc, faults[idx]["sig"])

    if mode == "kill":
        k.kill_plan = killer

    @kn.Opaque
    def make_env(idx, test):
        names[os.getpid()] = idx
        if not test:
            plan(idx, "make_env")
        return AEnv(rec, idx, test, Episodes(ch, ch.pick([0.3, 1.0, 0.1], "p"), 0.1), plan if not test else (lambda i, w: None),
                    lambda: 1.0)

    A = _async.agent_class()
    warned = []
    evset = {}
    done = {}

    def main():
        diskmod.use(d)
        agent = None if maker else A(rec, plan)
        kw = {}
        th = None
        if mode == "event":
            import multiprocessing as mp
            import threading

            ev = mp.Event()
            kw["exception_event"] = ev
            at = ch.draw(60, "at")

            def setter():
                k.sleep(at / 1e5)
                ev.set()
                evset["at"] = len(rec.log)
                rec.add("event")
            th = threading.Thread(target=setter)
            th.start()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            train_agent_async(outdir=outdir, processes=P, make_env=make_env, steps=steps, eval_interval=interval,
                              eval_n_steps=None, eval_n_episodes=1, max_episode_len=max_len, agent=agent,
                              make_agent=(lambda i: A(rec, plan)) if maker else None, global_step_hooks=[Hooked(rec, plan, 0)], **kw)
            warned.extend(str(x.message) for x in w if issubclass(x.category, pfrl.utils.async_.AbnormalExitWarning))
        if th is not None:
            th.join()
        done["ok"] = True

    try:
        r = k.run(main)
    finally:
        ctx.absorb(k)
    for x in rec.log:
        ctx.digest_only(repr(x))
    log = rec.log
    ctx.event("P", P, "steps", steps, mode, faults, "fired", sorted(fired.items()))
    workers = k.procs[1:]
    t_now = 0
    hooks = [(i, x) for i, x in enumerate(log) if x[0] == "hook"]
    n_steps = len(hooks)
    saves = [x for x in log if x[0] == "save"]
    ex = [x for x in saves if x[2].endswith("_except")]
    if mode == "event":
        # process 0 looks at the event after each of its steps
        seen0 = [i for i, x in enumerate(log) if x[0] == "hook" and x[2] == 0]
        evi = evset.get("at")
        stopped = not done.get("ok")
        if stopped:
            ctx.nontrivial = True
            ctx.fault("exception-event")
            check(len(ex) == 1 and ex[0][1] == 0, "not-saved-on-failure", "saves %s", saves)
            last0 = [x[3] for x in log if x[0] == "hook" and x[2] == 0][-1]
            check(ex[0][2] == "%d_except" % last0, "saved-under-wrong-step", "%s at step %d", ex, last0)
            check(all(not p.alive for p in k.procs), "not-stopped", "alive: %s", [p.name for p in k.procs if p.alive])
            check(evi is not None, "stopped-without-reason", "")
        else:
            # it ended normally: process 0 must not have gone on for another full step after the event
            acts = [i for i, x in enumerate(log) if x[0] == "act" and x[1] == 0 and evi is not None and i > evi]
            check(len(acts) <= 1, "failure-ignored", "process 0 took %d steps after the failure was signalled", len(acts))
            check(n_steps >= steps, "too-few-steps", "%d of %d", n_steps, steps)
            check(not ex, "unexpected-save", "%s", ex)
            check(not warned, "spurious-warning", "%s", warned)
        ctx.states.add(("event", stopped, len(log) > 5))
        return
    check(done.get("ok"), "did-not-return", "train_agent_async did not return: %s", r)
    bad = sorted(fired)
    # exit codes and warnings
    by_idx = {}
    for i, p in enumerate(workers):
        by_idx[i] = p.exitcode
        if i in fired:
            want = 1 if mode == "raise" else -faults[i]["sig"]
            check(p.exitcode == want, "wrong-exit", "worker %d exited with %s, expected %s: %s", i, p.exitcode, want, p.error)
        else:
            check(p.exitcode == 0, "worker-failed", "worker %d exited with %s: %s", i, p.exitcode, p.error)
    check(len(warned) == len(bad), "missing-warning", "failed workers %s, warnings %s", bad, warned)
    for i, msg in zip(bad, warned):
        code = 1 if mode == "raise" else faults[i]["sig"]
        check(("#%d " % i) in msg and msg.rstrip().endswith(str(code)) and str(workers[i].pid) in msg, "wrong-warning",
              "worker %d failed with %s, warning %r", i, code, msg)
    if bad and len(bad) < P:
        if any(x[0] == "act" and x[1] not in bad for x in log[min(f[1] for f in fired.values()):]):
            ctx.nontrivial = True
        for i in bad:
            ctx.states.add((mode, i, fired[i][0], P))
    ts = sorted(x[3] for _, x in hooks)
    missing_ok = len(bad)  # a failing worker may have counted a step whose hook raised or was killed
    top = ts[-1] if ts else 0
    check(len(set(ts)) == len(ts), "step-numbers", "repeated step numbers in %s", ts)
    gaps = [t for t in range(1, top + 1) if t not in set(ts)]
    check(len(gaps) <= missing_ok, "step-numbers", "step numbers %s never reached a hook, failed workers %s", gaps, bad)
    if len(bad) < P:
        check(top + (1 if gaps or bad else 0) >= steps and (top >= steps or bad), "too-few-steps", "only %d of %d steps although workers %s survived", top, steps,
              [i for i in range(P) if i not in bad])
    for i in range(P):
        if i not in bad:
            mine = [x[3] for _, x in hooks if x[2] == i]
            check(sum(1 for t in mine if t >= steps) <= 1, "worker-not-stopped", "worker %d: %s", i, mine)
            check(mine and mine[-1] >= steps, "worker-gave-up", "worker %d stopped at %s of %d", i, mine[-1:], steps)
            for e in rec.envs:
                if e.idx == i:
                    check(e.closed == 1, "env-not-closed", "env of surviving worker %d closed %d times", i, e.closed)
    # saving on failure of the first worker
    if mode == "raise" and 0 in fired and fired[0][0] != "make_env":
        mine = [x[3] for _, x in hooks if x[2] == 0]
        last = mine[-1] if mine else 0
        check(len(ex) == 1 and ex[0][1] == 0, "not-saved-on-failure", "saves %s", saves)
        u = int(ex[0][2].split("_")[0])
        check(u >= last and (u == last if fired[0][0] != "hook" else u > last), "saved-under-wrong-step", "%s, worker 0 last completed step %d", ex, last)
    else:
        check(not ex, "unexpected-save", "%s (failed workers %s)", ex, bad)
    fin = [x for x in saves if x[2] == "%d_finish" % steps]
    owner = [x[2] for _, x in hooks if x[3] == steps]
    if owner and owner[0] not in bad:
        check(len(fin) == 1, "final-save", "%d final saves", len(fin))
    else:
        check(len(fin) <= 1, "final-save", "%d final saves", len(fin))


SCENARIOS = {"failures": (_run, 1500, 40000)}
