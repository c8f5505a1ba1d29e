from sim.errors import check

from . import _evalref, _meta, _train
from ._train import Episodes, Plan, ScriptEnv, ScriptVectorEnv, draw_plan

PROPERTY = "C10"
LEVEL = "exploration"
TECH = "seeded schedules of episode ends over parallel environments and injected failures; results checked against a reference"
RULE = ("One run = 1-3 consecutive evaluations of a recording agent on 1-4 scripted environments (single, or vector through a "
        "lockstep stub, pfrl's SerialVectorEnv or MultiprocessVectorEnv on simulated processes) with a random budget and "
        "episode limit, optionally with an exception injected at a random call. Non-trivial: parallel environments finished "
        "out of start order, or a failure fired. distinct_states counts (envs, budget kind, end masks) tuples.")
REAL = ["pfrl.experiments.evaluator (run/batch_run_evaluation_episodes, eval_performance)", "pfrl.agent.Agent.eval_mode",
        "pfrl.envs vector environments in part of the runs"]
STUB = ["environments and agent are recording stubs; processes simulated"]
ASSUMPTIONS = []


def _flags(log):
    return [x for x in log if x[0] in ("act", "observe")]


def _single(ctx):
    import pfrl
    from pfrl.experiments import evaluator as E

    ch = ctx.ch
    use_steps = ch.chance(0.5, "n_steps")
    budget = ch.pick([3, 1, 2, 5, 12], "budget")
    max_len = ch.pick([None, 1, 2, 4], "max_len")
    p_done = ch.pick([0.3, 0.1, 0.7, 1.0, 0.0] if use_steps else [0.3, 0.15, 0.7, 1.0], "p_done")
    p_cut = ch.pick([0.0, 0.2], "p_cut")
    log = []
    plan = draw_plan(ch, ["eval.act", "eval.observe", "env.step", "env.reset"], 0.3, 2 * budget)
    rew = ch.pick(["distinct", "random"], "reward")
    env = ScriptEnv(0, Episodes(ch, p_done, p_cut), log, plan,
                    reward=None if rew == "distinct" else (lambda e: ch.pick([0.0, 1.0, -2.5, 0.1, 1e6], "r")))
    agent = _train.make_agent_class()(log, plan)
    agent.training = not ch.chance(0.2, "already-eval")
    mode0 = agent.training
    ctx.event("single", "steps" if use_steps else "episodes", budget, "max_len", max_len, "fault", plan.channel, plan.n)
    fresh = True
    for _ in range(ch.integer(1, 3, "evals")):
        start = len(log)
        args = dict(n_steps=budget if use_steps else None, n_episodes=None if use_steps else budget, max_episode_len=max_len)
        raised = None
        try:
            if ch.chance(0.3, "perf"):
                st = E.eval_performance(env, agent, **args)
                got = None
            else:
                got = E.run_evaluation_episodes(env, agent, **args)
                st = None
        except (Exception, KeyboardInterrupt) as e:
            raised = e
        check(agent.training is mode0, "mode-not-restored", "training=%r after the evaluation, was %r", agent.training, mode0)
        if plan.fired is not None:
            check(raised is plan.fired, "exception-lost", "%r injected, caller saw %r", plan.fired, raised)
            ctx.fault("raise:" + plan.channel)
            ctx.nontrivial = True
            return
        check(raised is None, "unexpected-exception", "%r", raised)
        part = log[start:]
        try:
            scores, lens = _evalref.single([x for x in part if x[0] in ("reset", "step")], args["n_steps"], args["n_episodes"], max_len)
        except ValueError as e:
            check(False, "wrong-episode-schedule", "%s", e)
        if got is not None:
            check(([float(x) for x in got[0]], [float(x) for x in got[1]]) == (scores, lens), "wrong-scores", "%s, expected %s", got, (scores, lens))
        else:
            _check_stats(st, scores, lens)
        # what the agent saw
        obs = None
        pend = None
        L = 0
        steps = [x for x in part if x[0] == "step"]
        for x in part:
            if x[0] == "reset":
                obs, L = x[2], 0
            elif x[0] == "act":
                check(x[1] is False, "wrong-mode", "acted in training mode during an evaluation")
                check(x[2] == obs, "wrong-observation", "%s, env gave %s", x[2], obs)
                pend = x[3]
            elif x[0] == "step":
                check(x[2] == pend, "wrong-action", "%s, agent chose %s", x[2], pend)
                step = x
            elif x[0] == "observe":
                check(x[1] is False, "wrong-mode", "observed in training mode during an evaluation")
                L += 1
                d, cut = step[5], bool(step[6] or L == max_len)
                last = step is steps[-1]
                check(x[2:5] == (step[3], step[4], d), "wrong-observe", "%s, happened %s", x, step)
                check(bool(x[5]) == (cut or last) or d, "wrong-reset-flag", "reset=%s, cut=%s last=%s", x[5], cut, last)
                obs = step[3]
        check(sum(1 for x in part if x[0] == "observe") == len(steps), "missed-observe", "")
        ctx.states.add(("single", use_steps, len(scores), max_len))
        if len(scores) > 1 or use_steps:
            ctx.nontrivial = True
    for x in log:
        ctx.digest_only(repr(x))


def _check_stats(st, scores, lens):
    import statistics

    want = dict(episodes=len(scores), mean=statistics.mean(scores), median=statistics.median(scores),
                stdev=statistics.stdev(scores) if len(scores) > 1 else 0.0, max=max(scores), min=min(scores),
                length_mean=statistics.mean(lens), length_median=statistics.median(lens),
                length_stdev=statistics.stdev(lens) if len(lens) > 1 else 0.0, length_max=max(lens), length_min=min(lens))
    for k, v in want.items():
        check(abs(float(st[k]) - v) <= 1e-9 * max(1.0, abs(v)), "wrong-statistics", "%s=%r, expected %r of %s", k, st[k], v, scores)


def _batch(ctx):
    import pfrl
    from pfrl.experiments import evaluator as E

    ch = ctx.ch
    n = ch.pick([2, 3, 4, 1], "envs")
    use_steps = ch.chance(0.5, "n_steps")
    budget = ch.pick([3, 1, 2, 5, 8, 15], "budget")
    max_len = ch.pick([None, 1, 2, 4], "max_len")
    log = []
    kind = ch.weighted([("stub", 6), ("serial", 2), ("mp", 2)], "vector")
    plan = draw_plan(ch, ["eval.act", "eval.observe"] + (["env.step", "env.reset"] if kind != "mp" else []), 0.25, 2 * budget)
    envs = []
    for i in range(n):
        p_done = ch.pick([0.3, 0.1, 0.7, 1.0] + ([0.0] if use_steps else []), "p_done")
        envs.append(ScriptEnv(i, Episodes(ch, p_done, ch.pick([0.0, 0.2], "p_cut")), log, plan,
                              reward=lambda e: ch.pick([0.0, 1.0, -2.5, 0.25, 1000.0], "r")))
    agent = _train.make_agent_class(batch=True)(log, plan)
    agent.training = not ch.chance(0.2, "already-eval")
    mode0 = agent.training
    ctx.event("batch", n, kind, "steps" if use_steps else "episodes", budget, "max_len", max_len, "fault", plan.channel, plan.n)

    class Vec(ScriptVectorEnv, pfrl.env.VectorEnv):
        def seed(self, seeds):
            pass

    def main():
        if kind == "stub":
            env = Vec(envs)
        elif kind == "serial":
            env = pfrl.envs.SerialVectorEnv(envs)
        else:
            from .c08 import _Proxy

            class Box:
                def __init__(self, e):
                    self.e = e

                def __deepcopy__(self, memo):
                    return self
            env = pfrl.envs.MultiprocessVectorEnv([(lambda b: lambda: _Proxy(b.e))(Box(e)) for e in envs])
        try:
            body(env)
        finally:
            if kind == "mp":
                env.close()

    def body(env):
        for _ in range(ch.integer(1, 3, "evals")):
            start = len(log)
            args = dict(n_steps=budget if use_steps else None, n_episodes=None if use_steps else budget, max_episode_len=max_len)
            raised = None
            try:
                if ch.chance(0.3, "perf"):
                    st = E.eval_performance(env, agent, **args)
                    got = None
                else:
                    got = E.batch_run_evaluation_episodes(env, agent, **args)
            except (Exception, KeyboardInterrupt) as e:
                raised = e
            check(agent.training is mode0, "mode-not-restored", "training=%r after, was %r", agent.training, mode0)
            if plan.fired is not None:
                check(raised is plan.fired, "exception-lost", "%r injected, caller saw %r", plan.fired, raised)
                ctx.fault("raise:" + plan.channel)
                ctx.nontrivial = True
                return
            check(raised is None, "unexpected-exception", "%r", raised)
            part = log[start:]
            per = [[x for x in part if x[0] == "step" and x[1] == i] for i in range(n)]
            locks = len(per[0])
            check(all(len(p) == locks for p in per), "not-lockstep", "%s", [len(p) for p in per])
            rows = [[(per[i][j][4], per[i][j][5], per[i][j][6]) for i in range(n)] for j in range(locks)]
            want = _evalref.batch(rows, n, args["n_steps"], args["n_episodes"], max_len)
            check(want is not None, "stopped-early", "evaluation stopped after %d locksteps", locks)
            scores, lens, used = want
            check(used == locks, "ran-too-long", "%d locksteps, %d needed", locks, used)
            if got is not None:
                ok = len(got[0]) == len(scores) and all(abs(a - b) < 1e-6 for a, b in zip(got[0], scores)) and [float(x) for x in got[1]] == [float(x) for x in lens]
                check(ok, "wrong-scores", "%s, expected %s", got, (scores, lens))
            else:
                _check_stats(st, [float(s) for s in scores], [float(x) for x in lens])
            obs = [None] * n
            L = [0] * n
            ended = [True] * n
            cur = {}
            act = None
            j = 0
            order = []
            for x in part:
                if x[0] == "reset":
                    check(ended[x[1]], "bad-episode-start", "env %d reset in the middle of an episode", x[1])
                    obs[x[1]], L[x[1]], ended[x[1]] = x[2], 0, False
                elif x[0] == "act":
                    check(x[1] is False, "wrong-mode", "acted in training mode")
                    check(not any(ended), "missing-reset", "%s", ended)
                    check([tuple(o) for o in x[2]] == obs, "wrong-observation", "%s, envs gave %s", x[2], obs)
                    act = x[3]
                    cur = {}
                elif x[0] == "step":
                    check(tuple(x[2]) == act[x[1]], "wrong-action", "env %d: %s of %s", x[1], x[2], act)
                    cur[x[1]] = x
                elif x[0] == "observe":
                    j += 1
                    check(x[1] is False, "wrong-mode", "observed in training mode")
                    check(len(cur) == n, "partial-lockstep", "%s", cur)
                    L = [a + 1 for a in L]
                    o = [cur[i][3] for i in range(n)]
                    d = [cur[i][5] for i in range(n)]
                    c = [bool(cur[i][6] or L[i] == max_len) for i in range(n)]
                    check(([tuple(q) for q in x[2]], x[3], x[4]) == (o, [cur[i][4] for i in range(n)], d), "wrong-observe", "%s, happened %s", x, cur)
                    last = j == locks
                    for i in range(n):
                        check(x[5][i] == (c[i] or last) or d[i], "wrong-reset-flag", "env %d: reset=%s cut=%s last=%s", i, x[5][i], c[i], last)
                    obs = o
                    ended = [a or b for a, b in zip(d, c)]
                    for i in range(n):
                        if ended[i]:
                            order.append(i)
                    ctx.states.add((n, use_steps, tuple(ended)))
            check(j == locks, "missed-observe", "%d of %d", j, locks)
            if order != sorted(order):
                ctx.nontrivial = True
                ctx.probe("finished out of start order")

    if kind == "mp":
        k = ctx.kernel(strategy=ch.pick([("random", 1.0), ("sticky", 0.2)], "strategy"), step_cap=60000)
        try:
            k.run(main)
        finally:
            ctx.absorb(k)
    else:
        _meta.solo(ctx, main)
    for x in log:
        ctx.digest_only(repr(x))


SCENARIOS = {
    "single": (lambda ctx: _meta.solo(ctx, lambda: _single(ctx)), 4000, 80000),
    "batch": (_batch, 5000, 120000),
}
