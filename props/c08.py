from sim.errors import check

from . import _train
from ._train import Episodes, Interrupter, Plan, ScriptEnv, ScriptVectorEnv, StubEvaluator, draw_plan

PROPERTY = "C08"
LEVEL = "exploration"
TECH = "seeded per-environment episode/failure/interrupt schedules against the real batch training loop; history checked against a reference"
RULE = ("One run = train_agent_batch over 1-4 scripted environments (behind a plain lockstep stub, pfrl's SerialVectorEnv, or "
        "pfrl's MultiprocessVectorEnv on simulated processes) with a recording agent and a random configuration, optionally "
        "with one exception injected at a random collaborator call or Ctrl-C at a random source line. Non-trivial: a failure "
        "fired or two environments ended episodes at different steps. distinct_states counts end/reset masks seen.")
REAL = ["pfrl.experiments.train_agent_batch", "pfrl.envs (SerialVectorEnv, MultiprocessVectorEnv) in part of the runs"]
STUB = ["environments, agent and evaluator are recording stubs; processes and pipes simulated; line-level Ctrl-C through the trace seam"]
ASSUMPTIONS = ["Ctrl-C is delivered at source line boundaries of the loop",
               "interrupts after the last lockstep are not claimed", "evaluation uses separate environments"]


class EvalEnv:
    def __init__(self):
        self.closed = 0

    def close(self):
        self.closed += 1


def _run(ctx):
    import pfrl
    from pfrl.experiments import train_agent_batch

    ch = ctx.ch
    n = ch.pick([2, 1, 3, 4], "envs")
    steps = ch.pick([8, 1, 2, 3, 5, 13, 20, 30], "steps")
    offset = ch.pick([0, 0, 0, 1, 4, 7], "offset")
    total = steps + offset
    max_len = ch.pick([None, 1, 2, 3, 5], "max_len")
    freq = ch.pick([None, 1, 2, 3, 5, 7], "freq")
    n_hooks = ch.draw(3, "hooks")
    use_eval = ch.chance(0.4, "evaluator")
    success = ch.pick([None, 5.0, 10.0, 11.0], "success")
    logi = ch.pick([None, 1, 3], "log_interval")
    p_done = ch.pick([0.2, 0.0, 0.5, 1.0], "p_done")
    p_cut = ch.pick([0.0, 0.1, 0.4], "p_cut")
    kind = ch.weighted([("stub", 6), ("serial", 2), ("mp", 3)], "vector")
    log = []
    line_ki = ch.chance(0.3, "line-ki")
    if line_ki:
        plan = Plan()
    else:
        chans = ["act", "observe", "hook", "stats", "evaluator", "save:checkpoint", "save:finish"]
        if kind != "mp":
            chans += ["env.step", "env.reset"]
        plan = draw_plan(ch, chans, 0.5, steps)
    envs = [ScriptEnv(i, Episodes(ch, p_done, p_cut), log, plan) for i in range(n)]
    agent = _train.make_agent_class(batch=True)(log, plan)
    ee = EvalEnv()
    ev = StubEvaluator(ch, log, plan, env=ee) if use_eval else None
    hooks = []
    box = {}

    def mk(i):
        def hook(e, a, t):
            plan.hit("hook")
            log.append(("hook", i, e is box["env"] and a is agent, t))
        return hook

    for i in range(n_hooks):
        hooks.append(mk(i))
    outdir = ctx.scratch()
    k = ctx.kernel(strategy=ch.pick([("random", 1.0), ("sticky", 0.2)], "strategy") if kind == "mp" else ("random", 1.0),
                   trace_files=("experiments/train_agent_batch.py",) if line_ki else None,
                   trace_p=1.0 if line_ki else 0.0, step_cap=60000)
    inter = None
    if line_ki:
        def armed():
            return agent.n_act > 0 and agent.n_obs * n + offset < total and not (
                ev is not None and success is not None and ev.max_score >= success)
        inter = Interrupter(ch.integer(1, max(1, (16 + 3 * n) * steps // n), "line"), armed)
        k.kill_plan = inter
    ctx.event("n", n, kind, "steps", steps, "offset", offset, "max_len", max_len, "freq", freq, "success", success,
              "fault", plan.channel, plan.n, type(plan.exc).__name__)
    raised = None
    result = None

    class Closing:
        """Counts close() without changing the vector env."""

    def main():
        nonlocal raised, result
        if kind == "stub":
            env = ScriptVectorEnv(envs)
        elif kind == "serial":
            env = pfrl.envs.SerialVectorEnv(envs)
        else:
            class Shared:
                def __init__(self, e):
                    self.e = e

                def __deepcopy__(self, memo):
                    return self

            def mkenv(s):
                return lambda: _Proxy(s.e)
            env = pfrl.envs.MultiprocessVectorEnv([mkenv(Shared(e)) for e in envs])
        box["env"] = env
        closed = box["closed"] = []
        orig = env.close

        def close():
            closed.append(1)
            if kind != "mp" or len(closed) == 1:
                return orig()
        env.close = close
        try:
            result = train_agent_batch(agent, env, total, outdir, checkpoint_freq=freq, log_interval=logi, max_episode_len=max_len,
                                       step_offset=offset, evaluator=ev, successful_score=success, step_hooks=hooks)
        except (Exception, KeyboardInterrupt) as e:
            raised = e
        box["n_closed"] = len(closed)
        if kind == "mp":
            if not closed:
                env.close()
            check(all(e.closed == 1 for e in envs), "env-not-closed", "close counts %s", [e.closed for e in envs])

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
    for x in log:
        ctx.digest_only(repr(x))
    if inter is not None and inter.fired:
        ctx.fault("ctrl-c")
        check(isinstance(raised, KeyboardInterrupt), "exception-lost", "Ctrl-C was delivered but the caller saw %r", raised)
    elif plan.fired is not None:
        ctx.fault("raise:" + plan.channel)
        check(raised is plan.fired, "exception-lost", "%r injected in %s but the caller saw %r", plan.fired, plan.channel, raised)
    else:
        check(raised is None, "unexpected-exception", "%r", raised)
    failed = raised is not None
    _train.check_count(agent, offset, n)

    t = offset
    locks = 0
    L = [0] * n
    obs = [None] * n
    started = [False] * n
    ended = [False] * n
    act = None
    got = {}
    episodes = 0
    hooks_seen = {}
    evals = {}
    for x in log:
        if x[0] == "reset":
            i = x[1]
            check(not started[i] or ended[i], "bad-episode-start", "env %d reset at lockstep %d in the middle of an episode", i, locks)
            check(act is None, "bad-order", "reset in the middle of a lockstep")
            obs[i], L[i], started[i], ended[i] = x[2], 0, True, False
        elif x[0] == "act":
            check(t < total, "too-many-steps", "act after %d steps of %d", t, total)
            for i in range(n):
                check(started[i] and not ended[i], "missing-reset", "env %d stepped after its episode ended", i)
            check([tuple(o) for o in x[2]] == obs, "wrong-observation", "agent acted on %s, environments gave %s", x[2], obs)
            check(x[1], "wrong-mode", "not in training mode")
            act = x[3]
            got = {}
        elif x[0] == "step":
            i = x[1]
            check(act is not None and i not in got and tuple(x[2]) == act[i], "wrong-action", "env %d got %s, agent chose %s", i, x[2], act)
            got[i] = x
        elif x[0] == "observe":
            check(len(got) == n, "partial-lockstep", "observe with only envs %s stepped", sorted(got))
            o = [got[i][3] for i in range(n)]
            r = [got[i][4] for i in range(n)]
            d = [got[i][5] for i in range(n)]
            L = [a + 1 for a in L]
            c = [bool(got[i][6] or L[i] == max_len) for i in range(n)]
            check(([tuple(q) for q in x[2]], x[3], x[4], x[5]) == (o, r, d, c), "wrong-observe",
                  "lockstep %d: agent told %s, happened %s", locks + 1, x[2:], (o, r, d, c))
            obs = o
            act = None
            locks += 1
            t += n
            ended = [a or b for a, b in zip(d, c)]
            episodes += sum(ended)
            ctx.states.add((tuple(d), tuple(c)))
            if any(ended) and not all(ended):
                ctx.nontrivial = True
        elif x[0] == "hook":
            check(x[2], "wrong-hook-args", "%s", x)
            check(hooks_seen.get(x[1], offset) + 1 == x[3] and t - n < x[3] <= t, "hook-count", "hook %d called with %d after %d steps (last %d)",
                  x[1], x[3], t, hooks_seen.get(x[1], offset))
            hooks_seen[x[1]] = x[3]
        elif x[0] == "evaluate":
            check(x[1] == t and t not in evals, "wrong-eval-step", "evaluation told step %d at %d", x[1], t)
            check(x[2] == episodes, "wrong-eval-episodes", "evaluation told %d episodes, %d finished", x[2], episodes)
            evals[t] = x
    succ_t = None
    if ev is not None and success is not None:
        best = -1.0
        for tt in sorted(evals):
            if evals[tt][3] is not None:
                best = max(best, evals[tt][3])
            if best >= success:
                succ_t = tt
                break
        check(succ_t is None or t == succ_t, "no-early-stop", "trained to %d although success was reached at %s", t, succ_t)
    saves = agent.saves
    cps = [s for s in saves if s[0].endswith("_checkpoint")]
    if not failed:
        full = -(-steps // n)
        end = offset + n * full if succ_t is None else succ_t
        check(t == end, "wrong-step-count", "%d steps done, expected %d", t - offset, end - offset)
        due = [u for u in range(offset + 1, end + 1) if freq and u % freq == 0]
        names = [s[0] for s in cps]
        check(names == ["%d_checkpoint" % u for u in due], "wrong-checkpoints", "saved %s, due at %s", names, due)
        check(saves[-1] == ("%d_finish" % end, locks) and len(saves) == len(due) + 1, "wrong-final-save", "saves %s, end %d", saves, end)
        for i in range(n_hooks):
            check(hooks_seen.get(i, offset) == end, "hook-count", "hook %d called %d times", i, hooks_seen.get(i, offset) - offset)
        if ev is not None:
            check(len(result) == sum(1 for e in evals.values() if e[3] is not None), "wrong-eval-history", "%r", result)
            check(sorted(evals) == list(range(offset + n, end + 1, n)), "missing-eval-call", "evaluator asked at %s", sorted(evals))
    else:
        ctx.nontrivial = True
        ctx.states.add(("fault", plan.channel, bool(cps)))
        first_reset = plan.fired is not None and plan.channel == "env.reset" and agent.n_act == 0
        in_finish = plan.fired is not None and plan.channel == "save:finish"
        check(not any(s[0].endswith("_finish") for s in saves), "final-save-after-failure", "%s", saves)
        exc = [s for s in saves if s[0].endswith("_except")]
        if not (first_reset or in_finish):
            check(len(exc) == 1 and saves[-1] is exc[0], "not-saved-on-failure", "saves after %r: %s", raised, saves)
            u = int(exc[0][0].split("_")[0])
            lo, hi = (t - n if locks else t), t
            if plan.fired is not None:
                if plan.channel == "hook":
                    lo = t - n + 1  # the exact step number of the failing hook call
                    lo = hi = (plan.n - 1) // max(1, n_hooks) + 1 + offset
                elif plan.channel == "save:checkpoint":
                    lo = hi = int(freq * (offset // freq + plan.n))
                else:
                    lo = hi = t
            check(lo <= u <= hi and exc[0][1] == locks, "saved-under-wrong-step", "saved as %s, expected a step in [%d, %d]", exc[0], lo, hi)
            check(box["n_closed"] >= 1, "env-not-closed", "environments left open after %r", raised)
            check(ev is None or ee.closed >= 1, "env-not-closed", "evaluation environment left open")


class _Proxy:
    """The environment object living in the worker process."""

    spec = None

    def __init__(self, e):
        self.e = e
        self.action_space = self.observation_space = None

    def __deepcopy__(self, memo):
        return self

    def reset(self):
        return self.e.reset()

    def step(self, a):
        return self.e.step(a)

    def close(self):
        self.e.close()

    def seed(self, s):
        pass


SCENARIOS = {"train_agent_batch": (_run, 5000, 120000)}
