from sim.errors import Violation, check

from . import _agents as A

PROPERTY = "C19"
LEVEL = "exploration"
TECH = ("twin runs under one random stream: the same training history with and without evaluation episodes (also failing ones) "
        "at random points, compared action for action and bit for bit")
RULE = ("One run = one agent of any of the 18 kinds or an actor of the actor-learner, in a random configuration (recurrent, "
        "running statistics, dropout, stateful explorers), trained in 1-3 scripted environments twice with the same random "
        "draws; the second time pfrl's evaluation functions (single and batch, by steps or episodes, with episode length "
        "limits), hand-written and nested evaluation blocks run at random points, mostly in the middle of training episodes, "
        "and some fail at a chosen environment step. Compared: training mode, networks, optimisers, replay memory, statistics "
        "right after each evaluation, and all later actions, networks and replay contents; evaluation actions are compared "
        "with those of a new agent given the same networks. Non-trivial: an evaluation happened in the middle of an episode "
        "and the agent was updated afterwards. distinct_states counts (agent, recurrent, model extras, evaluation kind, "
        "failed) tuples.")
REAL = ["pfrl.agents.* and StateQFunctionActor", "pfrl.experiments.evaluator (run_evaluation_episodes, "
        "batch_run_evaluation_episodes)", "pfrl.agent.Agent.eval_mode", "pfrl.explorers", "pfrl.nn", "torch"]
STUB = ["environments are scripted", "the actor's pipe to the learner is a recorder"]
ASSUMPTIONS = ["the random generators are put back after an evaluation by the harness (evaluation may draw random numbers)",
               "recurrent agents are evaluated with one number of environments per run",
               "after a failed evaluation the next evaluation of a recurrent agent is not compared"]

KINDS = A.ALL + ["Actor"]


def _state(agent):
    st = A.learned(agent)
    e = A.replay_entries(agent)
    if e is not None:
        st["replay"] = A.digest(e)
    rb = getattr(agent, "replay_buffer", None)
    if rb is not None:
        st["rlen"] = len(rb)
    if isinstance(getattr(agent, "pipe", None), A.FakePipe):
        st["sent"] = len(agent.pipe.sent)
    else:
        st["stats"] = A.digest(A.stats(agent))
    return st


class _Rec:
    """Records what the agent does in evaluation."""

    def __init__(self, agent):
        self.agent, self.acts = agent, []

    def __getattr__(self, k):
        return getattr(self.agent, k)

    def act(self, obs):
        a = self.agent.act(obs)
        self.acts.append(A.np.asarray(a).tobytes())
        check(not self.agent.training, "not-evaluating", "the agent is in training mode during an evaluation")
        return a

    def batch_act(self, obs):
        a = self.agent.batch_act(obs)
        self.acts.append(A.np.asarray(a).tobytes())
        check(not self.agent.training, "not-evaluating", "the agent is in training mode during an evaluation")
        return a


def _evaluate(agent, ev, seed):
    """One evaluation of the given description; returns its actions."""
    from pfrl.experiments import evaluator

    A.seed_all(seed)
    w = A.World(ev["n"], ev["sched"], salt=9)
    rec = _Rec(agent)
    try:
        if ev["how"] == "single":
            evaluator.run_evaluation_episodes(A.WorldEnv(w, 0, ev["fail"], ev["bad"]), rec, ev["steps"], ev["episodes"], ev["maxlen"])
        elif ev["how"] == "batch":
            evaluator.batch_run_evaluation_episodes(A.WorldVec(w, ev["fail"], ev["bad"]), rec, ev["steps"], ev["episodes"], ev["maxlen"])
        else:
            with agent.eval_mode():
                env = A.WorldEnv(w, 0, ev["fail"], ev["bad"])
                for _ in range(2):
                    obs = env.reset()
                    for k in range(4):
                        if ev["how"] == "nested":
                            with agent.eval_mode():
                                a = rec.act(obs)
                            check(not agent.training, "mode-lost", "leaving an inner eval_mode ended the outer one")
                        else:
                            a = rec.act(obs)
                        obs, r, d, info = env.step(a)
                        end = k == 3 or info.get("needs_reset", False)
                        agent.observe(obs, r, d, end)
                        if d or end:
                            break
    except Violation:
        raise
    except Exception as e:  # noqa
        if isinstance(e, A.EvalBoom) or (ev["bad"] and isinstance(e, (RuntimeError, ValueError))):
            return None
        raise
    return rec.acts


def _finite(agent):
    import torch

    return all(torch.isfinite(v).all() for m in A.learned_parts(agent).values() if isinstance(m, torch.nn.Module)
               for v in m.state_dict().values())


def _draw_eval(ch, kind, o, n):
    how = ch.pick(["single", "batch", "hand", "nested"], "how")
    if kind in A.SINGLE and how == "batch":
        how = "single"
    if o.get("recurrent") and kind not in A.SINGLE:
        # one number of environments per run
        how = "batch" if n > 1 else ch.pick(["single", "batch"], "how2")
    ev = {"how": how, "n": n if how == "batch" else 1}
    ev["sched"] = A.draw_sched(ch, ev["n"], 9, label="eval")
    for s in ev["sched"]:
        s[-1] = (True, False)
    by_steps = ch.chance(0.4, "bysteps")
    ev["steps"] = ch.integer(1, 9, "steps") if by_steps else None
    ev["episodes"] = None if by_steps else ch.integer(1, 3, "episodes")
    ev["maxlen"] = ch.pick([None, 3, 1], "maxlen")
    ev["fail"] = ch.integer(1, 6, "failat") if ch.chance(0.2, "fail") else None
    ev["between"] = ch.chance(0.3, "between")
    ev["bad"] = ev["fail"] is not None and ch.chance(0.5, "badobs")
    return ev


def _run(ctx):
    ch = ctx.ch
    kind = ch.pick(KINDS, "agent")
    o = A.draw_opts(ch, kind)
    o["runstat"] = ch.chance(0.35, "runstat")
    o["dropout"] = ch.chance(0.25, "dropout")
    n = o["nenv"]
    seed = ch.draw(1 << 20, "seed")
    total = ch.integer(8, 45, "total")
    sched = A.draw_sched(ch, n, total)
    evals = {}
    for _ in range(ch.integer(1, 4, "nevals")):
        evals.setdefault(ch.integer(0, total - 1, "at"), []).append(_draw_eval(ch, kind, o, n))
    ctx.event(kind, {k: o[k] for k in sorted(o) if k != "kind"}, "steps", total,
              "evaluations", [(k, e["how"], e["fail"]) for k in sorted(evals) for e in evals[k]])

    agent = A.make(o, seed)
    A.seed_all(seed + 1)
    drv = A.Driver(agent, A.World(n, sched), kind)
    for _ in range(total):
        drv.step()
    want_log, want = drv.log, _state(agent)
    end = A.rng_state()

    agent = A.make(o, seed)
    A.seed_all(seed + 1)
    drv = A.Driver(agent, A.World(n, sched), kind)
    stale = False
    mid = False

    def interpose(k, ev):
        nonlocal mid, stale
        rng = A.rng_state()
        before = _state(agent)
        if ev["fail"] is None:
            fresh = A.make(o, seed + 5)
            A.copy_learned(agent, fresh)
        acts = _evaluate(agent, ev, seed + 23)
        after = _state(agent)
        check(agent.training, "mode-not-restored", "%s: not in training mode after an evaluation (%s)", kind,
              "which failed" if acts is None else ev["how"])
        check(after == before, "eval-changes-state", "%s: an evaluation (%s%s) changed %s", kind, ev["how"],
              ", failed" if acts is None else "", A.diff(after, before))
        if any(not (drv.w.sched[i][k][0] or drv.w.sched[i][k][1]) for i in range(n)):
            mid = True
        if acts is None:
            stale = True
            ctx.fault("unusable-observation" if ev["bad"] else "evaluation-environment-error")
        elif ev["fail"] is None and not (o.get("recurrent") and stale):
            ref = _evaluate(fresh, ev, seed + 23)
            check(ref == acts, "eval-depends-on-training", "%s: evaluation actions differ from those of a new agent with "
                  "the same networks (evaluation after training step %d)", kind, k + 1)
            if (kind in A.DQN_FAMILY + ["DDPG", "TD3", "Actor"] and kind != "IQN") or (o["det"] and kind != "IQN"):
                # no exploration: the actions do not depend on the random draws
                ref = _evaluate(fresh, ev, seed + 31)
                check(ref == acts, "eval-random", "%s: evaluation actions depend on random draws although the agent "
                      "acts deterministically in evaluation", kind)
        ctx.states.add((kind, bool(o.get("recurrent")), o["runstat"], o["dropout"], ev["how"], acts is None))
        A.set_rng(rng)

    for k in range(total):
        between = [e for e in evals.get(k, []) if e["between"]]
        drv.step((lambda: [interpose(k, e) for e in between]) if between else None)
        check(drv.log[k] == want_log[k], "training-actions",
              "%s: training action %d differs from that of the run without evaluations", kind, k + 1)
        for ev in evals.get(k, []):
            if not ev["between"]:
                interpose(k, ev)
    got = _state(agent)
    check(got == want, "training-differs", "%s: after the same training with evaluations in between, %s differ(s)", kind,
          A.diff(got, want))
    e2 = A.rng_state()
    check(A.digest([end[1][1], end[2]]) == A.digest([e2[1][1], e2[2]]), "training-draws",
          "%s: training consumed other random draws with evaluations in between", kind)
    ctx.nontrivial = mid
    ctx.probe("networks finite", int(_finite(agent)))
    ctx.probe("evaluation in the middle of an episode", int(mid))
    ctx.digest_only(A.digest([got, want_log]))


SCENARIOS = {"evaluate": (_run, 400, 12000)}
