import numpy as np

from sim.errors import check

from . import _train
from ._train import Episodes, Interrupter, Plan, ScriptEnv, StubEvaluator, draw_plan

PROPERTY = "C07"
LEVEL = "exploration"
TECH = "seeded episode/failure/interrupt schedules against the real training loop; recorded history checked against a reference loop"
RULE = ("One run = train_agent over a scripted environment and recording agent with a random configuration (steps, offset, "
        "episode limit, checkpoint interval, hooks, evaluator), optionally with one exception injected at a random call of a "
        "random collaborator, or Ctrl-C at a random source line of the loop. Non-trivial: a failure fired, or at least two "
        "episodes ended. distinct_states counts (how the episode ended, failure channel, checkpointed) tuples.")
REAL = ["pfrl.experiments.train_agent", "pfrl.experiments.hooks", "pfrl.experiments.evaluator.save_agent"]
STUB = ["environment, agent and evaluator are recording stubs; line-level Ctrl-C through the trace seam"]
ASSUMPTIONS = ["Ctrl-C is delivered at source line boundaries", "interrupts after the last requested step or outside the loop are not claimed"]


def _run(ctx):
    import pfrl
    from pfrl.experiments import LinearInterpolationHook, train_agent

    ch = ctx.ch
    steps = ch.pick([8, 1, 2, 3, 5, 13, 20], "steps")
    offset = ch.pick([0, 0, 0, 1, 4, 7, 25], "offset")
    total = steps + offset if ch.chance(0.85, "total") else steps
    max_len = ch.pick([None, 1, 2, 3, 5], "max_len")
    freq = ch.pick([None, 1, 2, 3, 5, 7], "freq")
    n_hooks = ch.draw(3, "hooks")
    use_eval = ch.chance(0.4, "evaluator")
    success = ch.pick([None, 5.0, 10.0, 11.0], "success")
    during = ch.chance(0.4, "during")
    p_done = ch.pick([0.2, 0.0, 0.5, 1.0], "p_done")
    p_cut = ch.pick([0.0, 0.1, 0.4], "p_cut")
    log = []
    line_ki = ch.chance(0.3, "line-ki")
    if line_ki:
        plan = Plan()
    else:
        plan = draw_plan(ch, ["act", "env.step", "observe", "env.reset", "hook", "stats", "evaluator", "save:checkpoint",
                              "save:finish"], 0.5, steps)
    env = ScriptEnv(0, Episodes(ch, p_done, p_cut), log, plan)
    agent = _train.make_agent_class()(log, plan)
    if ch.chance(0.2, "no-t"):
        del agent.t
    ev = StubEvaluator(ch, log, plan) if use_eval else None
    interp = []
    hooks = []

    def mk(i):
        def hook(e, a, t):
            plan.hit("hook")
            log.append(("hook", i, e is env and a is agent, t))
        return hook

    for i in range(n_hooks):
        hooks.append(mk(i))
    lin = ch.chance(0.3, "interp")
    if lin:
        hooks.append(LinearInterpolationHook(max(2, total), 1.0, 0.25, lambda e, a, v: interp.append(v)))
    outdir = ctx.scratch()
    kw = {}
    k = ctx.kernel(strategy=("random", 1.0), trace_files=("experiments/train_agent.py",) if line_ki else None,
                   trace_p=1.0 if line_ki else 0.0, step_cap=20000)
    inter = None
    if line_ki:
        def armed():
            return agent.n_act > 0 and agent.n_obs + offset < total and not (
                ev is not None and success is not None and ev.max_score >= success)
        inter = Interrupter(ch.integer(1, 12 * steps, "line"), armed)
        k.kill_plan = inter
    ctx.event("steps", steps, "offset", offset, "total", total, "max_len", max_len, "freq", freq, "success", success,
              "fault", plan.channel, plan.n, type(plan.exc).__name__)
    raised = None
    result = None

    def main():
        nonlocal raised, result
        try:
            result = train_agent(agent, env, total, outdir, checkpoint_freq=freq, max_episode_len=max_len, step_offset=offset,
                                 evaluator=ev, successful_score=success, step_hooks=hooks, eval_during_episode=during, **kw)
        except (Exception, KeyboardInterrupt) as e:
            raised = e

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
    for x in log:
        ctx.digest_only(repr(x))
    # ---- the failure, if any, reached the caller
    if inter is not None and inter.fired:
        ctx.fault("ctrl-c")
        ctx.probe("line interrupt")
        check(isinstance(raised, KeyboardInterrupt), "exception-lost", "Ctrl-C was delivered but the caller saw %r", raised)
    elif plan.fired is not None:
        ctx.fault("raise:" + plan.channel)
        check(raised is plan.fired, "exception-lost", "%r injected in %s but the caller saw %r", plan.fired, plan.channel, raised)
    else:
        check(raised is None, "unexpected-exception", "%r", raised)
    failed = raised is not None
    _train.check_count(agent, offset)
    # ---- replay the log against the reference loop
    t = offset
    L = 0
    obs = None
    started = False
    ended = False  # previous episode ended
    pend_act = pend_step = None
    episodes = 0
    hooks_seen = {}
    evals = {}
    for x in log:
        if x[0] == "reset":
            check(not started or ended, "bad-episode-start", "reset at step %d although the episode was neither over nor cut", t)
            check(pend_act is None and pend_step is None, "bad-order", "reset in the middle of a step")
            obs, L, started, ended = x[2], 0, True, False
        elif x[0] == "act":
            check(t < total, "too-many-steps", "act after %d steps of %d", t, total)
            check(started and not ended, "missing-reset", "step %d taken after the episode ended", t + 1)
            check(x[2] == obs, "wrong-observation", "agent acted on %s, environment gave %s", x[2], obs)
            check(x[1], "wrong-mode", "not in training mode")
            pend_act = x[3]
        elif x[0] == "step":
            check(pend_act is not None and x[2] == pend_act, "wrong-action", "env got %s, agent chose %s", x[2], pend_act)
            pend_act, pend_step = None, x
        elif x[0] == "observe":
            check(pend_step is not None, "repeated-observe", "observe without an environment step")
            _, _, _, o, r, d, cut = pend_step
            L += 1
            t += 1
            want_reset = bool(cut or L == max_len)
            check((x[2], x[3], bool(x[4]), bool(x[5])) == (o, r, d, want_reset), "wrong-observe",
                  "step %d: agent told %s, happened %s", t, x[2:], (o, r, d, want_reset))
            obs = o
            pend_step = None
            ended = d or want_reset
            if ended or t == total:
                episodes += 1
                ctx.states.add((d, bool(cut), L == max_len, t == total))
        elif x[0] == "hook":
            check(x[2], "wrong-hook-args", "%s", x)
            check(hooks_seen.get(x[1], offset) + 1 == x[3] == t, "hook-count", "hook %d called with %d at step %d (last %d)",
                  x[1], x[3], t, hooks_seen.get(x[1], offset))
            hooks_seen[x[1]] = x[3]
        elif x[0] == "evaluate":
            check(x[1] == t, "wrong-eval-step", "evaluation told step %d at %d", x[1], t)
            check(x[2] == episodes, "wrong-eval-episodes", "evaluation told %d episodes, %d finished", x[2], episodes)
            check(evals.get(t) is None, "repeated-eval-call", "evaluator asked twice at %d", t)
            check(ended or t == total or during, "eval-in-episode", "evaluated inside an episode at %d", t)
            evals[t] = x
        if episodes >= 2:
            ctx.nontrivial = True
    n_obs = t - offset
    completed = t
    succ_t = None
    if ev is not None and success is not None:
        best = -1.0
        for tt in sorted(evals):
            if evals[tt][3] is not None:
                best = max(best, evals[tt][3])
            if best >= success:
                succ_t = tt
                break
        if succ_t is not None:
            check(max(completed, succ_t) == succ_t, "no-early-stop", "trained to %d although success was reached at %d", completed, succ_t)
    saves = agent.saves
    cps = [s for s in saves if s[0].endswith("_checkpoint")]
    # checkpoints are due at every multiple once the loop went past it
    if not failed:
        end = total if succ_t is None else succ_t
        if total <= offset:
            end = offset
        check(completed == end, "wrong-step-count", "%d steps done, expected %d", completed - offset, end - offset)
        due = [u for u in range(offset + 1, end) if freq and u % freq == 0]
        check([s[0] for s in cps] == ["%d_checkpoint" % u for u in due], "wrong-checkpoints", "saved %s, due at %s", cps, due)
        check(saves and saves[-1] == ("%d_finish" % end, n_obs) and len(saves) == len(due) + 1, "wrong-final-save",
              "saves %s, expected a final one at %d", saves, end)
        for i in range(n_hooks):
            check(hooks_seen.get(i, offset) == max(end, offset), "hook-count", "hook %d called %d times", i, hooks_seen.get(i, offset) - offset)
        if lin:
            want = [float(np.interp(u, [1, max(2, total)], [1.0, 0.25])) for u in range(offset + 1, end + 1)]
            check(len(want) == len(interp) and all(abs(a - b) < 1e-9 for a, b in zip(want, interp)), "wrong-interpolation",
                  "%s, expected %s", interp, want)
        if ev is not None:
            for u in evals:
                pass
            check(len(result) == sum(1 for e in evals.values() if e[3] is not None), "wrong-eval-history", "%r", result)
            # the evaluator is asked at the end of training and at each opportunity
            if end > offset:
                check(end in evals, "missing-eval-call", "no evaluation opportunity at the end (%d)", end)
    else:
        ctx.nontrivial = True
        ctx.states.add(("fault", plan.channel, bool(cps)))
        first_reset = plan.fired is not None and plan.channel == "env.reset" and agent.n_act == 0
        in_finish = plan.fired is not None and plan.channel == "save:finish"
        check(not any(s[0].endswith("_finish") for s in saves), "final-save-after-failure", "%s", saves)
        exc = [s for s in saves if s[0].endswith("_except")]
        if first_reset or in_finish:
            pass
        else:
            check(len(exc) == 1 and saves[-1] is exc[0], "not-saved-on-failure", "saves after %r: %s", raised, saves)
            lo = hi = completed
            if pend_step is not None:
                hi = completed + 1
            u = int(exc[0][0].split("_")[0])
            check(lo <= u <= hi and exc[0][1] == n_obs, "saved-under-wrong-step", "saved as %s with %d steps completed", exc[0], completed)
        due = [u for u in range(offset + 1, completed) if freq and u % freq == 0]
        names = [s[0] for s in cps]
        want = ["%d_checkpoint" % u for u in due]
        maybe = "%d_checkpoint" % completed
        check(names == want or (names == want + [maybe] and freq and completed % freq == 0), "wrong-checkpoints", "saved %s, due %s", names, due)


SCENARIOS = {"train_agent": (_run, 6000, 150000)}
