import statistics
import warnings

from sim import disk as diskmod
from sim import kernel as kn
from sim.errors import check

from . import _async
from ._async import AEnv, Hooked, Rec
from ._train import Episodes

PROPERTY = "C11"
LEVEL = "exploration"
TECH = "seeded schedules of simulated worker processes (lock, counter, event, file and line granularity) under the real asynchronous trainer"
RULE = ("One run = train_agent_async with 1-4 simulated worker processes over scripted environments, random steps, evaluation "
        "interval and budget, success score, shared agent or make_agent, scheduled by a seeded scheduler (random, sticky or "
        "priority-change) with preemption at synchronisation, file and source-line granularity. Non-trivial: at least two "
        "workers took steps. distinct_states counts (workers, steps, evaluations, who finished, who evaluated) tuples; "
        "distinct interleavings are counted by schedule hash.")
REAL = ["pfrl.experiments.train_agent_async", "pfrl.experiments.evaluator.AsyncEvaluator", "pfrl.utils.async_", "pfrl.utils.random_seed"]
STUB = ["processes, locks, shared values, events simulated in one process; environments and agent are recording stubs"]
ASSUMPTIONS = ["sequentially consistent shared memory; preemption at synchronisation operations, file operations and source lines"]


def _run(ctx):
    import pfrl
    from pfrl.experiments import train_agent_async
    from pfrl.experiments.evaluation_hooks import EvaluationHook

    ch = ctx.ch
    P = ch.pick([2, 1, 3, 4], "workers")
    steps = ch.pick([6, 1, 3, 12, 20], "steps")
    interval = ch.pick([3, None, 1, 2, 5, 50], "interval")
    offset = ch.pick([0, 0, 0, 4], "offset")
    use_steps = ch.chance(0.3, "n_steps")
    budget = ch.pick([1, 2, 3], "budget")
    success = ch.pick([None, 4.0, 8.0], "success")
    max_len = ch.pick([None, 2, 4], "max_len")
    maker = ch.chance(0.5, "make_agent")
    shared = ch.chance(0.85, "shared_memory") if maker else True
    ext_stop = ch.chance(0.15, "external-stop")
    k = ctx.kernel(**_async.trace_kw(ch))
    rec = Rec()
    noplan = lambda idx, what: None
    outdir = ctx.scratch() + "/out"
    import os
    os.makedirs(outdir)
    d = diskmod.Disk(outdir)
    rew = lambda: ch.pick([0.0, 1.0, 2.0, 4.0, -1.0, 0.5], "r")
    p_done = [ch.pick([0.3, 0.1, 1.0, 0.0], "p_done") for _ in range(P)]

    @kn.Opaque
    def make_env(idx, test):
        return AEnv(rec, idx, test, Episodes(ch, 0.4 if test else p_done[idx], 0.1), noplan, rew)

    A = _async.agent_class()
    ctx.event("P", P, "steps", steps, "interval", interval, "budget", budget, use_steps, "success", success, "make_agent", maker)
    warned = []
    res = {}

    class EHook(EvaluationHook):
        support_train_agent_async = True

        def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            kn.K.point("ehook")
            rec.add("eval", agent.process_idx, step, eval_stats["mean"], env.idx, env.test)

        def __deepcopy__(self, memo):
            return self

    def main():
        diskmod.use(d)
        agent = None if maker else A(rec, noplan)
        stop = None
        if ext_stop:
            import multiprocessing as mp
            stop = mp.Event()
        res["stop"] = stop
        kw = {}
        if ext_stop:
            import threading

            def stopper():
                k.sleep(ch.draw(40, "stop-at") / 1e5)
                stop.set()
                rec.add("stop")
            th = threading.Thread(target=stopper)
            th.start()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            res["agent"] = train_agent_async(
                outdir=outdir, processes=P, make_env=make_env, steps=steps, eval_interval=interval, step_offset=offset,
                eval_n_steps=budget if use_steps else None, eval_n_episodes=None if use_steps else budget,
                max_episode_len=max_len, successful_score=success, agent=agent,
                make_agent=(lambda i: A(rec, noplan)) if maker else None,
                global_step_hooks=[Hooked(rec, noplan, 0), Hooked(rec, noplan, 1)], evaluation_hooks=(EHook(),),
                use_shared_memory=shared, stop_event=stop)
            warned.extend(x for x in w if issubclass(x.category, pfrl.utils.async_.AbnormalExitWarning))
        if ext_stop:
            th.join()

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
    for x in rec.log:
        ctx.digest_only(repr(x))
    for p in k.procs[1:]:
        check(p.exitcode == 0, "worker-failed", "%s exited with %s: %s", p.name, p.exitcode, p.error)
    check(not warned, "spurious-warning", "%s", [str(w.message) for w in warned])
    _oracle(ctx, rec, P, steps, interval, offset, budget, use_steps, success, ext_stop, shared, res["agent"], outdir)


def _oracle(ctx, rec, P, steps, interval, offset, budget, use_steps, success, ext_stop, shared, agent, outdir):
    log = rec.log
    n_steps = sum(1 for x in log if x[0] == "step" and not x[2])
    for h in (0, 1):
        ts = [x[3] for x in log if x[0] == "hook" and x[1] == h]
        check(sorted(ts) == list(range(1, n_steps + 1)), "step-numbers", "%d environment steps but hook %d saw %s", n_steps, h, sorted(ts))
    n_obs = sum(1 for x in log if x[0] == "observe")
    check(n_obs == n_steps, "observe-count", "%d steps, %d observed", n_steps, n_obs)
    for x in log:
        if x[0] == "hook":
            check(x[2] == x[4] and x[5] is False, "wrong-hook-args", "%s", x)
    succeeded = [x for x in log if x[0] == "save" and x[2] == "successful"]
    evals = [x for x in log if x[0] == "eval"]
    reached = [x for x in evals if success is not None and x[3] >= success]
    check(len(succeeded) == len(reached), "successful-save", "%d evaluations reached the success score, %d successful saves", len(reached), len(succeeded))
    stopped = bool(reached) or ext_stop
    per = {}
    for i, x in enumerate(log):
        if x[0] == "hook" and x[1] == 0:
            per.setdefault(x[2], []).append(x[3])
    for w, ts in per.items():
        over = [t for t in ts if t >= steps]
        check(len(over) <= 1, "worker-not-stopped", "worker %d went on after step %s of %d", w, over, steps)
        check(ts == sorted(ts), "step-numbers", "worker %d saw %s", w, ts)
    if len(per) >= 2:
        ctx.nontrivial = True
    if not stopped:
        check(n_steps >= steps, "too-few-steps", "%d of %d", n_steps, steps)
    check(n_steps <= steps + P - 1, "too-many-steps", "%d for %d requested with %d workers", n_steps, steps, P)
    if reached:
        # once success is known every worker stops after the step it is in
        i0 = max(i for i, x in enumerate(log) if x[0] == "eval" and x in reached)
        first = min(i for i, x in enumerate(log) if x in reached)
        sset = [i for i, x in enumerate(log) if x[0] == "save-begin" and x[2] == "successful"]
        if sset:
            after = {}
            for x in log[sset[0]:]:
                if x[0] == "act":
                    after[x[1]] = after.get(x[1], 0) + 1
            check(all(v <= 1 for v in after.values()), "worker-not-stopped", "steps begun after success: %s", after)
    fin = [x for x in log if x[0] == "save" and x[2] == "%d_finish" % steps]
    want = 1 if n_steps >= steps else 0
    check(len(fin) == want, "final-save", "%d final saves after %d of %d steps", len(fin), n_steps, steps)
    other = [x for x in log if x[0] == "save" and x[2] not in ("best", "successful", "%d_finish" % steps)]
    check(not other, "unexpected-save", "%s", other)
    # environments
    for e in rec.envs:
        check(e.closed == 1, "env-not-closed", "env of worker %d (test=%s) closed %d times", e.idx, e.test, e.closed)
    check(sorted((e.idx, e.test) for e in rec.envs) ==
          sorted([(i, False) for i in range(P)] + ([(i, True) for i in range(P)] if interval is not None else [])),
          "wrong-envs", "%s", [(e.idx, e.test) for e in rec.envs])
    if shared and agent is not None:
        check(int(agent.model.weight.data.item()) == n_steps, "not-shared", "shared parameter %d after %d updates",
              int(agent.model.weight.data.item()), n_steps)
    # evaluations
    text = _async.read_scores(outdir)
    if interval is None:
        check(not evals, "unexpected-eval", "%s", evals)
        return
    base = offset - offset % interval
    ts = sorted(x[2] for x in evals)
    for j, t in enumerate(ts):
        check(t >= base + (j + 1) * interval, "interval-evaluated-twice", "evaluations at %s with interval %d from %d", ts, interval, base)
    # at least: the last opportunity of the run covers an interval that was due
    last = {}
    low = {}
    for x in log:
        if x[0] == "observe":
            last[x[1]] = bool(x[2] or x[3])
        elif x[0] == "hook" and x[1] == 0 and (last[x[2]] or x[3] >= steps):
            c = low.get(x[2], 0)
            low[x[2]] = max(c, min(c + 1, (x[3] - base) // interval))
    least = max(low.values()) if low else 0
    check(len(evals) >= least, "missing-eval", "%d evaluations in %d steps with interval %d, at least %d were due", len(evals), n_steps, interval, least)
    for x in evals:
        check(x[1] == x[4] and x[5] is True, "wrong-eval-env", "%s", x)
    lines = text.split("\n")
    check(lines.pop() == "", "torn-row", "%r", text[-60:])
    if evals:
        header = ["steps", "episodes", "elapsed", "mean", "median", "stdev", "max", "min", "w"]
        check(lines[0].split("\t") == header, "wrong-header", "%r", lines[0])
        check(sum(1 for ln in lines if ln.startswith("steps")) == 1, "repeated-header", "%r", text)
    rows = [ln.split("\t") for ln in lines[1:]]
    check(sorted((int(r[0]), float(r[3])) for r in rows) == sorted((x[2], float(x[3])) for x in evals), "wrong-rows",
          "rows %s, evaluations %s", rows, evals)
    for r in rows:
        check(len(r) == 9, "misaligned-row", "%s", r)
    # best
    best = [(i, x) for i, x in enumerate(log) if x[0] == "save-begin" and x[2] == "best"]
    if evals:
        check(best, "no-best-save", "%d evaluations, best never saved", len(evals))
        lastmean = None
        means = []
        for i, x in best:
            m = [y[3] for y in log[:i] if y[0] == "eval" and y[1] == x[1]][-1]
            means.append(m)
        check(means == sorted(set(means)), "best-decreased", "best agents were saved with mean scores %s", means)
        check(means[-1] == max(x[3] for x in evals), "wrong-best", "last best %s of %s", means[-1], [x[3] for x in evals])
        # saves of the best agent never overlap
        open_ = None
        for x in log:
            if x[0] == "save-begin" and x[2] == "best":
                check(open_ is None, "overlapping-best-saves", "workers %s and %s", open_, x[1])
                open_ = x[1]
            elif x[0] == "save" and x[2] == "best":
                open_ = None
    ctx.states.add((P, steps, n_steps, len(evals), fin[0][1] if fin else None, tuple(x[1] for x in evals)))


SCENARIOS = {"async": (_run, 1500, 40000)}
