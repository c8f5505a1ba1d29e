import os
import sys
import types
import warnings

from sim import disk as diskmod
from sim import kernel as kn
from sim.errors import check

from . import _async, _train
from ._async import AEnv, Rec
from ._train import Episodes, ScriptEnv, ScriptVectorEnv, draw_plan

PROPERTY = "C22"
LEVEL = "exploration"
TECH = ("seeded schedules of simulated workers, queue feeder delays, writer thread and stop signals; the event log is compared "
        "with the score log")
RULE = ("One run = a whole training run with use_tensorboard=True. 'async': train_agent_async with 1-4 simulated workers, "
        "random success score, external stop and worker failures, the background writer scheduled like any other thread and "
        "queued records delivered late. 'sync': the single and the vectorised trainer with injected failures. Non-trivial: at "
        "least one evaluation was recorded. distinct_states counts (scenario, workers, evaluations, how training ended) tuples.")
REAL = ["pfrl.experiments.evaluator (Evaluator, AsyncEvaluator, record_tb_stats_loop)", "pfrl.experiments.train_agent*",
        "pfrl.utils.StoppableThread"]
STUB = ["torch.utils.tensorboard.SummaryWriter is a recorder (tensorboard is not installed)",
        "processes, threads, queue and events simulated; environments and agents are recording stubs"]
ASSUMPTIONS = ["a worker that exits by return or exception hands over what it queued (as multiprocessing.Queue does); workers "
               "killed by a signal are not covered"]


class Sink:
    def __init__(self, slow=None):
        self.slow = slow
        self.flushed = []
        self.pending = []
        self.writers = 0

    def __deepcopy__(self, memo):
        return self


def _install(sink):
    mod = types.ModuleType("torch.utils.tensorboard")

    class SummaryWriter:
        def __init__(self, log_dir=None, *a, **k):
            sink.writers += 1
            self.dir = log_dir

        def __deepcopy__(self, memo):
            return self

        def add_custom_scalars(self, layout):
            pass

        def add_scalar(self, tag, value, global_step=None, walltime=None, **k):
            kn.K.point("add-scalar")
            if sink.slow is not None and sink.slow.chance(0.05, "slow-writer"):
                kn.K.sleep(sink.slow.pick([0.01, 0.3, 5.0], "writer-stall"))
                kn.K.probe("slow-writer")
            sink.pending.append((self.dir, tag, float(value), global_step))

        def add_scalars(self, main_tag, d, global_step=None, walltime=None):
            for t, v in d.items():
                self.add_scalar(main_tag + "/" + t, v, global_step, walltime)

        def flush(self):
            kn.K.point("flush")
            sink.flushed.extend(sink.pending)
            del sink.pending[:]

        def close(self):
            self.flush()

    mod.SummaryWriter = SummaryWriter
    sys.modules["torch.utils.tensorboard"] = mod


def _compare(sink, outdir, text, worker_of=None, partial=False):
    """Every row of the score log against the event log."""
    lines = [ln.split("\t") for ln in text.split("\n")[:-1]]
    if not lines:
        check(not sink.flushed, "record-of-nothing", "%s", sink.flushed[:3])
        return 0
    head, rows = lines[0], lines[1:]
    by = {}
    for pos, (d, tag, v, t) in enumerate(sink.flushed):
        check(d == outdir, "wrong-directory", "record %s written to %s", tag, d)
        by.setdefault((t, tag), []).append((pos, v))
    steps = [int(r[0]) for r in rows]
    check(len(set(steps)) == len(steps), "harness", "steps %s", steps)
    first = {}
    extra = {t for t, _ in by} - set(steps)
    check(not extra, "record-of-nothing", "the event log has records at steps %s, the score log has rows at %s", sorted(extra), steps)
    for j, r in enumerate(rows):
        t = int(r[0])
        col = dict(zip(head, r))
        want = {"eval/" + c: float(col[c]) for c in ("mean", "median", "stdev", "max", "min")}
        want["extras/meanplusstdev"] = want["eval/mean"] + want["eval/stdev"]
        want["extras/meanminusstdev"] = want["eval/mean"] - want["eval/stdev"]
        for c in head[8:]:
            want[("env/" if c.startswith("env_") else "agent/") + c] = float(col[c])
        for tag, v in sorted(want.items()):
            got = by.get((t, tag), [])
            check(len(got) == 1, "record-lost" if not got else "record-repeated",
                  "evaluation at step %d (row %d of %d): %s is in the event log %d times", t, j + 1, len(rows), tag, len(got))
            check(abs(got[0][1] - v) <= 1e-6 * (1 + abs(v)), "record-differs", "step %d: %s is %s in the event log, %s in the score log",
                  t, tag, got[0][1], v)
            first.setdefault(t, []).append(got[0][0])
    # order
    groups = {}
    for j, t in enumerate(steps):
        groups.setdefault(worker_of(t) if worker_of else 0, []).append((j, t))
    for g, js in groups.items():
        for (a, ta), (b, tb) in zip(js, js[1:]):
            check(max(first[ta]) < min(first[tb]), "record-order", "the evaluation at step %d was recorded before the one at %d but "
                  "written after it", ta, tb)
    return len(rows)


def _async_run(ctx):
    import pfrl
    from pfrl.experiments import train_agent_async
    from pfrl.experiments.evaluation_hooks import EvaluationHook

    ch = ctx.ch
    P = ch.pick([2, 1, 3, 4], "workers")
    steps = ch.pick([6, 3, 12, 20], "steps")
    interval = ch.pick([2, 1, 3, 5], "interval")
    budget = ch.pick([1, 2, 3], "budget")
    success = ch.pick([None, 4.0, 2.0], "success")
    max_len = ch.pick([None, 2, 4], "max_len")
    maker = ch.chance(0.5, "make_agent")
    ext_stop = ch.chance(0.25, "external-stop")
    failing = ch.chance(0.2, "failing-worker")
    sink = Sink(ch if ch.chance(0.4, "slow") else None)
    _install(sink)
    k = ctx.kernel(**_async.trace_kw(ch))
    rec = Rec()
    bad = [ch.draw(P, "bad"), ch.pick(["step", "act", "observe"], "where"), ch.integer(1, 6, "nth")] if failing else None

    @kn.Opaque
    def plan(idx, what):
        if bad is not None and idx == bad[0] and what == bad[1]:
            bad[2] -= 1
            if bad[2] == 0:
                ctx.fault("worker-exception")
                raise _train.Boom("injected")

    outdir = ctx.scratch() + "/out"
    os.makedirs(outdir)
    d = diskmod.Disk(outdir)
    rew = lambda: ch.pick([0.0, 1.0, 2.0, 4.0, -1.0, 0.5], "r")
    p_done = [ch.pick([0.3, 0.1, 1.0], "p_done") for _ in range(P)]
    stats = ch.chance(0.5, "env-stats")

    class SEnv(AEnv):
        cleared = 0

        def clear_statistics(self):
            self.cleared = 0

        def get_statistics(self):
            return [("env_stat", 0.5 * self.idx), ("env_k", self.k or 0)]

    E = SEnv if stats else AEnv

    @kn.Opaque
    def make_env(idx, test):
        return E(rec, idx, test, Episodes(ch, 0.4 if test else p_done[idx], 0.1), plan, rew)

    AA = _async.agent_class()
    ctx.event("async", P, "steps", steps, "interval", interval, "success", success, "ext", ext_stop, "bad", bad)

    class EHook(EvaluationHook):
        support_train_agent_async = True

        def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            kn.K.point("ehook")
            rec.add("eval", agent.process_idx, step, eval_stats["mean"])

        def __deepcopy__(self, memo):
            return self

    done = []

    def main():
        diskmod.use(d)
        agent = None if maker else AA(rec, plan)
        stop = None
        th = None
        if ext_stop:
            import multiprocessing as mp
            import threading

            stop = mp.Event()

            def stopper():
                k.sleep(ch.draw(40, "stop-at") / 1e5)
                stop.set()

            th = threading.Thread(target=stopper)
            th.start()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            train_agent_async(
                outdir=outdir, processes=P, make_env=make_env, steps=steps, eval_interval=interval, eval_n_episodes=budget,
                max_episode_len=max_len, successful_score=success, agent=agent,
                make_agent=(lambda i: AA(rec, plan)) if maker else None, evaluation_hooks=(EHook(),), stop_event=stop,
                use_tensorboard=True)
        done.append(len(sink.flushed))
        if th is not None:
            th.join()

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
    check(done, "training-did-not-return", "train_agent_async did not return")
    check(done[0] == len(sink.flushed) and not sink.pending, "unfinished", "the event log was still being written after training returned")
    for x in sink.flushed:
        ctx.digest_only(repr(x[1:]))
    who = {x[2]: x[1] for x in rec.log if x[0] == "eval"}
    n = _compare(sink, outdir, _async.read_scores(outdir), worker_of=who.get)
    ctx.nontrivial = n > 0
    ctx.probe("records", n)
    ended = "success" if any(x[0] == "save" and x[2] == "successful" for x in rec.log) else ("stop" if ext_stop else "steps")
    ctx.states.add(("async", P, n, ended, bool(failing)))


def _sync_run(ctx):
    import pfrl
    from pfrl.experiments import train_agent_batch_with_evaluation, train_agent_with_evaluation

    ch = ctx.ch
    batch = ch.chance(0.5, "batch")
    n = ch.pick([2, 1, 3], "envs") if batch else 1
    steps = ch.pick([8, 3, 13, 20], "steps")
    interval = ch.pick([3, 1, 2, 5], "interval")
    budget = ch.pick([2, 1, 3], "budget")
    success = ch.pick([None, 3.0, 6.0], "success")
    during = not batch and ch.chance(0.4, "during")
    tb = ch.chance(0.85, "tb")
    sink = Sink()
    _install(sink)
    outdir = ctx.scratch() + "/out"
    os.makedirs(outdir)
    d = diskmod.Disk(outdir)
    plan = draw_plan(ch, ["act", "observe", "eval.act", "ev.step", "save:best", "env.step"], 0.3, 12)
    log = []
    rnd = lambda e: ch.pick([0.0, 1.0, 2.0, 3.0, -1.0, 0.1, 6.0], "r")
    envs = [ScriptEnv(i, Episodes(ch, 0.3, 0.1), log, plan, reward=rnd) for i in range(n)]
    eenvs = [ScriptEnv(100 + i, Episodes(ch, 0.4, 0.1), log, plan, channel="ev", reward=rnd) for i in range(n)]

    class Vec(ScriptVectorEnv, pfrl.env.VectorEnv):
        def seed(self, seeds):
            pass

    env, eenv = (Vec(envs), Vec(eenvs)) if batch else (envs[0], eenvs[0])
    if ch.chance(0.5, "env-stats"):
        cnt = [0]

        def gs():
            return [("env_stat", 7.5), ("env_calls", len(log))]

        def cs():
            cnt[0] += 1
        eenv.get_statistics, eenv.clear_statistics = gs, cs
    agent = _train.make_agent_class(batch=batch)(log, plan)
    ctx.event("sync", batch, n, steps, interval, "tb", tb, "fault", plan.channel, plan.n)
    k = ctx.kernel(strategy=("random", 1.0), step_cap=50000)
    raised = []

    def main():
        diskmod.use(d)
        kw = dict(eval_n_steps=None, eval_n_episodes=budget, eval_interval=interval, outdir=outdir, eval_env=eenv,
                  successful_score=success, use_tensorboard=tb)
        try:
            if batch:
                train_agent_batch_with_evaluation(agent, env, steps, **kw)
            else:
                train_agent_with_evaluation(agent, env, steps, eval_during_episode=during, **kw)
        except (Exception, KeyboardInterrupt) as e:
            if e is not plan.fired:
                raise
            ctx.fault("raise:" + plan.channel)
            raised.append(e)

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
    if not tb:
        check(not sink.flushed and not sink.writers, "unasked", "the event log was written although it was not asked for")
        return
    text = _async.read_scores(outdir)
    rows = _compare(sink, outdir, text)
    ctx.nontrivial = rows > 0
    ctx.probe("records", rows)
    ctx.states.add(("sync", batch, n, rows, bool(raised)))


SCENARIOS = {"async": (_async_run, 900, 30000), "sync": (_sync_run, 200, 4000)}
