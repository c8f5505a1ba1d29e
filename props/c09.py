import errno
import os
import statistics

from sim import disk as diskmod
from sim.errors import SimCrash, check

from . import _evalref, _meta, _train
from ._train import Episodes, Plan, ScriptEnv, ScriptVectorEnv, draw_plan

PROPERTY = "C09"
LEVEL = "exploration"
TECH = "seeded training/evaluation schedules with crashes, disk errors, exceptions and clock jumps; log and history checked against a reference"
RULE = ("One run = train_agent_with_evaluation or train_agent_batch_with_evaluation with the real Evaluator over scripted "
        "training and evaluation environments, a random configuration (interval, offset, budgets, success score, same or "
        "separate evaluation environment), virtual clock with jumps, and optionally a crash or error at a random file "
        "operation or an exception inside an evaluation. Non-trivial: at least two evaluations or a fault. distinct_states "
        "counts (interval, evaluated multiples, best-save pattern) tuples.")
REAL = ["pfrl.experiments.evaluator.Evaluator", "pfrl.experiments.train_agent", "pfrl.experiments.train_agent_batch",
        "pfrl.experiments.evaluation_hooks"]
STUB = ["environments and agent are recording stubs; disk behind a crash/error seam; virtual wall clock"]
ASSUMPTIONS = ["a run has its output directory to itself", "crash = process death, the operating system survives",
               "mean scores representable and above the float32 minimum"]


def _run(ctx, batch):
    import pfrl
    from pfrl.experiments import train_agent_batch_with_evaluation, train_agent_with_evaluation
    from pfrl.experiments.evaluation_hooks import EvaluationHook

    ch = ctx.ch
    n = ch.pick([2, 1, 3], "envs") if batch else 1
    steps = ch.pick([8, 3, 13, 20, 30], "steps")
    offset = ch.pick([0, 0, 0, 3, 7, 10], "offset")
    total = steps + offset
    interval = ch.pick([3, 1, 2, 5, 7, 40], "interval")
    use_steps = ch.chance(0.4, "n_steps")
    budget = ch.pick([2, 1, 3, 5], "budget")
    max_len = ch.pick([None, 2, 4], "max_len")
    eval_max_len = ch.pick([None, 1, 3], "eval_max_len")
    success = ch.pick([None, 3.0, 6.0, 0.0], "success")
    save_best = not ch.chance(0.2, "no-best")
    same_env = not batch and ch.chance(0.3, "same-env")
    during = not same_env and ch.chance(0.4, "during")
    vec_eval = batch
    outdir = ctx.scratch() + "/out"
    plan_d = {"left": None, "act": None}
    fault = ch.weighted([(None, 5), ("crash", 3), ("err", 1), ("raise", 2)], "fault")

    def planner(op, path, size):
        if plan_d["left"] is None:
            return None
        if plan_d["left"] == 0:
            plan_d["left"] = None
            return plan_d["act"]
        plan_d["left"] -= 1
        return None

    d = diskmod.Disk(outdir, planner)
    if fault in ("crash", "err"):
        plan_d["left"] = ch.draw(20, "op")
        plan_d["act"] = ("crash", ch.pick([0, 1000, 300, 700], "frac")) if fault == "crash" else ("errno", ch.pick([errno.ENOSPC, errno.EIO], "errno"), 0)
    plan = draw_plan(ch, ["eval.act", "eval.observe", "ev.step", "ev.reset", "ehook", "save:best", "stats"], 1.0 if fault == "raise" else 0.0, 8)
    log = []
    rnd = lambda e: ch.pick([0.0, 1.0, 2.0, 3.0, -1.0, 0.1, 6.0], "r")
    envs = [ScriptEnv(i, Episodes(ch, ch.pick([0.3, 0.1, 0.8], "p_done"), ch.pick([0.0, 0.1], "p_cut")), log, plan,
                      channel="ev" if same_env else "env", reward=rnd) for i in range(n)]
    m = ch.pick([1, 2, 3], "eval-envs") if vec_eval else 1
    eenvs = envs if same_env else [
        ScriptEnv(100 + i, Episodes(ch, ch.pick([0.4, 0.2, 1.0], "p_done"), ch.pick([0.0, 0.2], "p_cut")), log, plan, channel="ev", reward=rnd)
        for i in range(m)]
    agent = _train.make_agent_class(batch=batch)(log, plan)
    hooklog = []
    stats_env = ch.chance(0.5, "env-stats")

    class Hook(EvaluationHook):
        support_train_agent = support_train_agent_batch = True

        def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            plan.hit("ehook")
            hooklog.append((step, eval_stats["mean"]))

    class Vec(ScriptVectorEnv, pfrl.env.VectorEnv):
        def seed(self, seeds):
            pass

    env = Vec(envs) if batch else envs[0]
    eenv = None if same_env else (Vec(eenvs) if vec_eval else eenvs[0])
    counts = {"cleared": 0}
    if stats_env and eenv is not None:
        eenv.get_statistics = lambda: [("env_stat", 7.5), ("cleared", counts["cleared"])]

        def clear():
            counts["cleared"] += 1
        eenv.clear_statistics = clear
    else:
        stats_env = False
    # capture every evaluation: the steps at which evaluation actions happen
    k = ctx.kernel(strategy=("random", 1.0), step_cap=50000)
    k.skew = 0.0
    orig_hit = plan.hit

    def hit(c):
        orig_hit(c)
        k.now += 0.25
        if ch.chance(0.02, "clock-jump"):
            k.skew += ch.pick([3600.0, -3600.0, -10.0], "jump")
            ctx.fault("clock-jump")
    plan.hit = hit
    kw = dict(eval_n_steps=budget if use_steps else None, eval_n_episodes=None if use_steps else budget, eval_interval=interval,
              outdir=outdir, step_offset=offset, eval_max_episode_len=eval_max_len, eval_env=eenv, successful_score=success,
              evaluation_hooks=[Hook()], save_best_so_far_agent=save_best)
    ctx.event("batch" if batch else "single", n, m, "steps", steps, "offset", offset, "interval", interval,
              "budget", budget, use_steps, "success", success, "same", same_env, "during", during, "fault", fault, plan.channel, plan.n)
    raised = None
    crashed = False
    res = None

    def main():
        nonlocal raised, crashed, res
        diskmod.use(d)
        try:
            if batch:
                res = train_agent_batch_with_evaluation(agent, env, total, max_episode_len=max_len, **kw)
            else:
                res = train_agent_with_evaluation(agent, env, total, train_max_episode_len=max_len, eval_during_episode=during, **kw)
        except SimCrash:
            crashed = True
        except (Exception, KeyboardInterrupt) as e:
            raised = e

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
        ctx.absorb_disk(d)
    d.reboot()
    for x in log:
        ctx.digest_only(repr(x))
    injected = plan.fired is not None
    disk_err = d.faults.get("ENOSPC", 0) + d.faults.get("EIO", 0)
    if injected:
        ctx.fault("raise:" + plan.channel)
        check(raised is plan.fired, "exception-lost", "%r injected in %s, caller saw %r", plan.fired, plan.channel, raised)
    elif disk_err:
        check(isinstance(raised, OSError), "disk-error-lost", "disk error injected, caller saw %r", raised)
    elif not crashed:
        check(raised is None, "unexpected-exception", "%r", raised)
    failed = injected or disk_err or crashed

    # ---- split the log into training and evaluations
    t = offset
    ep = 0
    L = [0] * n
    done_evals = []  # (t, episodes, returns, ended-ok)
    cur = None
    prev = offset - offset % interval
    saves = []
    ended_now = False
    lock = {}
    opp = {}
    opps = []
    for x in log + [("end",)]:
        is_eval = x[0] in ("act", "observe") and x[1] is False or (
            x[0] in ("step", "reset") and x[1] >= 100) or (same_env and cur is not None and x[0] in ("step", "reset"))
        if same_env and x[0] == "reset":
            # look ahead: a reset starts an evaluation iff the next act is in evaluation mode
            i = log.index(x) if False else None
        if is_eval:
            if cur is None:
                cur = []
            cur.append(x)
            continue
        if x[0] == "reset" and same_env:
            pendreset = x
            continue
        if x[0] == "act" and x[1] is True or x[0] in ("save", "end"):
            if cur is not None:
                done_evals.append((t, ep, cur))
                cur = None
        if x[0] == "save":
            saves.append((t, x[1], len(done_evals)))
        elif x[0] == "observe":
            if batch:
                c = []
                for i in range(n):
                    L[i] += 1
                    e = x[4][i] or x[5][i]
                    if e:
                        ep += 1
                        L[i] = 0
                t += n
                opps.append(t)
            else:
                t += 1
                e = x[4] or x[5] or t == total
                if e:
                    ep += 1
                if e or during:
                    opps.append(t)
    # ---- expected schedule
    due = []
    p = prev
    for o in opps:
        if o >= p + interval:
            due.append(o)
            p = o - o % interval
    seen = [e[0] for e in done_evals]
    if failed:
        check(seen == due[:len(seen)] and len(seen) >= len(due) - 1, "wrong-eval-schedule", "evaluated at %s, due at %s (interval %d, opportunities %s)", seen, due, interval, opps)
    else:
        check(seen == due, "wrong-eval-schedule", "evaluated at %s, due at %s (interval %d, opportunities %s)", seen, due, interval, opps)
    if len(seen) >= 2 or failed:
        ctx.nontrivial = True
    # ---- expected scores of each evaluation
    eml = eval_max_len if eval_max_len is not None else max_len
    want = []
    for j, (tt, ee, part) in enumerate(done_evals):
        st = [x for x in part if x[0] == "step"]
        last = j == len(done_evals) - 1
        try:
            if batch:
                locks = len(st) // m
                per = [[x for x in st if x[1] == 100 + i] for i in range(m)]
                rows = [[(per[i][q][4], per[i][q][5], per[i][q][6]) for i in range(m)] for q in range(min(len(p_) for p_ in per))]
                r = _evalref.batch(rows, m, kw["eval_n_steps"], kw["eval_n_episodes"], eml)
                if r is None:
                    raise ValueError("incomplete")
                scores = [float(s) for s in r[0]]
            else:
                pp = [x for x in part if x[0] in ("reset", "step")]
                if same_env:
                    # resets are not attributed, rebuild them from the episode numbers
                    qq, e0 = [], None
                    for x in pp:
                        if x[0] == "step":
                            if x[3][1] != e0:
                                qq.append(("reset",))
                                e0 = x[3][1]
                            qq.append(x)
                    pp = qq
                scores = _evalref.single(pp, kw["eval_n_steps"], kw["eval_n_episodes"], eml)[0]
        except ValueError as e:
            check(failed and last, "wrong-evaluation", "evaluation at %d: %s", tt, e)
            scores = None
        want.append((tt, ee, scores))
    # ---- the score log
    path = os.path.join(outdir, "scores.txt")
    text = ""
    if os.path.exists(path):
        with open(path) as f:
            text = f.read()
    lines = text.split("\n")
    tail = lines.pop()
    header = ["steps", "episodes", "elapsed", "mean", "median", "stdev", "max", "min", "n_obs"] + (["env_stat", "cleared"] if stats_env else [])
    if not crashed and not disk_err and not (injected and plan.channel == "stats" and not lines):
        check(tail == "", "torn-row", "score log ends in a partial line %r", tail)
        check(lines and lines[0].split("\t") == header, "wrong-header", "%r, expected %s", lines[:1], header)
    rows = [ln.split("\t") for ln in lines[1:]]
    if lines:
        check(lines[0].split("\t") == header, "wrong-header", "%r", lines[0])
    full = [w for w in want if w[2] is not None]
    missing = len(full) - len(rows)
    if failed:
        check(0 <= missing <= 1, "lost-rows", "%d evaluations finished, %d rows logged", len(full), len(rows))
    else:
        check(missing == 0, "wrong-row-count", "%d evaluations, %d rows: %s", len(full), len(rows), rows)
    for q, (row, (tt, ee, sc)) in enumerate(zip(rows, full)):
        check(len(row) == len(header), "misaligned-row", "%s under %s", row, header)
        exp = [tt, ee, None, statistics.mean(sc), statistics.median(sc), statistics.stdev(sc) if len(sc) > 1 else 0.0, max(sc), min(sc)]
        for c, (a, b) in enumerate(zip(row, exp)):
            if b is not None:
                check(abs(float(a) - b) < 1e-6, "wrong-row", "%s: %s=%s, expected %s (returns %s)", row, header[c], a, b, sc)
        check(int(row[8]) * n == tt - offset, "wrong-row", "%s: agent statistic of another time", row)
        if stats_env:
            check(float(row[9]) == 7.5 and int(row[10]) == q + 1, "wrong-env-stats", "%s", row)
    check([(h[0], round(float(h[1]), 6)) for h in hooklog] == [(w[0], round(statistics.mean(w[2]), 6)) for w in full[:len(hooklog)]],
          "wrong-hook-calls", "%s, evaluations %s", hooklog, full)
    if not failed:
        check(len(hooklog) == len(full), "missing-hook-calls", "%d of %d", len(hooklog), len(full))
    # ---- best agent
    best = None
    want_best = []
    succ = None
    for q, (tt, ee, sc) in enumerate(full):
        mean = statistics.mean(sc)
        if best is None or mean > best:
            best = mean
            want_best.append(tt)
        if success is not None and best >= success and succ is None:
            succ = tt
    got_best = [s[0] for s in saves if s[1] == "best"]
    if save_best:
        if failed:
            check(got_best == want_best[:len(got_best)] and len(got_best) >= len(want_best) - 1, "wrong-best-saves", "best saved at %s, expected %s", got_best, want_best)
        else:
            check(got_best == want_best, "wrong-best-saves", "best saved at %s, expected %s of %s", got_best, want_best, [(w[0], statistics.mean(w[2])) for w in full])
    else:
        check(not got_best, "wrong-best-saves", "%s", got_best)
    ctx.states.add((interval, len(seen), tuple(want_best)))
    if not failed:
        if succ is not None:
            check(t == succ, "no-early-stop", "success at %d but trained to %d", succ, t)
            ctx.probe("early stop")
        else:
            check(t >= total and t - total < n, "stopped-early", "stopped at %d of %d", t, total)
        hist = res[1]
        check([round(h["eval_score"], 6) for h in hist] == [round(statistics.mean(w[2]), 6) for w in full], "wrong-eval-history", "%s", hist)


SCENARIOS = {
    "train": (lambda ctx: _run(ctx, False), 4000, 100000),
    "batch": (lambda ctx: _run(ctx, True), 3000, 80000),
}
