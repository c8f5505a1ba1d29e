import os
import warnings

from sim import disk as diskmod
from sim import kernel as kn
from sim.errors import Violation, check

from . import _meta
from ._train import Boom, Episodes

PROPERTY = "C13"
LEVEL = "exploration"
TECH = "seeded schedules of simulated actor processes, poller and learner threads over real DQN code, with injected failures"
RULE = ("One run = DQN.setup_actor_learner_training with 1-3 actors driven by train_agent_async on simulated processes, the real "
        "poller and learner threads, a recording replay memory, random update/publish/target intervals, bounded or unbounded "
        "pipes, ended by update count or by steps, optionally with the learner, the replay memory or an actor failing at a random "
        "point. Non-trivial: the learner updated while actors were running, or a failure fired. distinct_states counts (actors, "
        "updates, transitions, end kind); distinct interleavings are counted by schedule hash.")
REAL = ["pfrl.agents.DQN (learner loop, poller loop, update, save)", "pfrl.agents.StateQFunctionActor", "pfrl.experiments.train_agent_async",
        "pfrl.utils.StoppableThread", "pfrl.replay_buffers"]
STUB = ["processes, threads, pipes, locks, events simulated; environments scripted; disk behind the file seam"]
ASSUMPTIONS = ["transitions still in a pipe when the poller is stopped may be dropped: the harness lets the poller idle before stopping it"]


def _state(m):
    return tuple(float(x) for p in m.parameters() for x in p.detach().reshape(-1))


def _run(ctx):
    import numpy as np
    import torch
    import pfrl
    from pfrl.experiments import train_agent_async

    ch = ctx.ch
    P = ch.pick([2, 1, 3], "actors")
    by_updates = ch.chance(0.6, "by-updates")
    n_upd = ch.integer(1, 8, "updates") if by_updates else None
    steps = ch.pick([6, 12, 25], "steps") if not by_updates else 10 ** 6
    aui = ch.pick([1, 2, 3], "actor_update_interval")
    ui = ch.pick([1, 2], "update_interval")
    tui = ui * ch.pick([1, 2, 3], "target")
    batch = ch.pick([1, 2], "batch")
    start = batch + ch.draw(4, "start")
    prio = ch.chance(0.3, "prioritised")
    cap = ch.pick([50, 5 + batch + start, 200], "cap")
    p_done = ch.pick([0.3, 0.1, 0.0, 1.0], "p_done")
    fault = ch.weighted([(None, 6), ("learner", 2), ("poller", 1), ("actor", 1)], "fault")
    fault_n = ch.integer(1, 4, "fault-n")
    line = ch.pick([0.0, 0.02, 0.1], "trace_p")
    tf = ch.pick([("pfrl/agents/dqn.py", "agents/state_q_function_actor.py"),
                  ("collections/random_access_queue.py", "collections/prioritized.py", "replay_buffers/replay_buffer.py", "replay_buffers/prioritized.py", "pfrl/agents/dqn.py")], "trace")
    k = ctx.kernel(strategy=ch.pick([("random", 1.0), ("sticky", 0.1), ("pct", 0.02)], "strategy"),
                   trace_files=tf if line else None, trace_p=line, step_cap=120000)
    k.pipe_capacity = ch.pick([None, 1, 3], "pipe")
    outdir = ctx.scratch() + "/out"
    os.makedirs(outdir)
    d = diskmod.Disk(outdir)
    sent = {i: [] for i in range(P)}
    got = {i: [] for i in range(P)}
    stops = {i: [] for i in range(P)}
    want_stops = {i: [] for i in range(P)}
    problems = []
    st = {"upd": 0, "fired": False, "published": None, "snap": [], "target": None, "appends": 0, "overlap": False, "hooks": [], "shooks": []}
    ctx.event("P", P, "updates", n_upd, "steps", steps, "aui", aui, "ui", ui, "tui", tui, "start", start, "cap", cap, "prio", prio, "fault", fault, fault_n)

    def note(fn):
        try:
            fn()
        except Violation as v:
            problems.append(v)

    class RecEnv:
        def __init__(self, idx):
            self.idx = idx
            self.n = 0
            self.script = Episodes(ch, p_done, 0.1)

        def __deepcopy__(self, memo):
            return self

        def obs(self):
            self.n += 1
            return np.array([self.idx, self.n], dtype=np.float32)

        def reset(self):
            k.point("env-reset")
            self.o = self.obs()
            return self.o

        def step(self, a):
            k.point("env-step")
            if fault == "actor" and self.idx == P - 1 and self.n > 2 * fault_n and not st["fired"]:
                st["fired"] = True
                ctx.fault("raise:actor")
                raise Boom("actor env")
            dn, cut = self.script.next()
            o = self.obs()
            r = float(self.n)
            sent[self.idx].append((tuple(self.o), int(a), r, tuple(o), dn))
            if dn or cut:
                want_stops[self.idx].append(len(sent[self.idx]))
            self.o = o
            return o, r, dn, ({"needs_reset": True} if cut else {})

        def close(self):
            pass

    base = pfrl.replay_buffers.PrioritizedReplayBuffer if prio else pfrl.replay_buffers.ReplayBuffer

    inside = []

    class RecBuf(base):
        # the memory is not thread-safe: nobody may enter while another thread is inside
        def _enter(self, what):
            if inside:
                problems.append(Violation("memory-race", "%s while another thread is in %s" % (what, inside[-1])))
            inside.append(what)
            k.point("memory")

        def _leave(self):
            inside.pop()

        def sample(self, n):
            self._enter("sample")
            try:
                return super().sample(n)
            finally:
                self._leave()

        def append(self, state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
            st["appends"] += 1
            if fault == "poller" and st["appends"] == 3 * fault_n and not st["fired"]:
                st["fired"] = True
                ctx.fault("raise:poller")
                # this one is lost with the failure
                got[env_id].append((tuple(state), int(action), float(reward), tuple(next_state), bool(is_state_terminal)))
                raise Boom("replay memory")
            self._enter("append")
            super().append(state=state, action=action, reward=reward, next_state=next_state, next_action=next_action,
                           is_state_terminal=is_state_terminal, env_id=env_id, **kw)
            self._leave()
            got[env_id].append((tuple(state), int(action), float(reward), tuple(next_state), bool(is_state_terminal)))

        def stop_current_episode(self, env_id=0):
            self._enter("stop_current_episode")
            super().stop_current_episode(env_id=env_id)
            self._leave()
            stops[env_id].append(len(got[env_id]))

    if prio:
        def update_errors(self, errors):
            self._enter("update_errors")
            base.update_errors(self, errors)
            self._leave()
        RecBuf.update_errors = update_errors

    class Expl:
        def __deepcopy__(self, memo):
            return self

        def select_action(self, t, greedy_action_func, action_value=None):
            if st["published"] is not None:
                q = tuple(float(x) for x in action_value.q_values.detach().reshape(-1))
                st.setdefault("q", []).append(q)
            return int(np.random.randint(2))

    # what the actors compute must come from the published parameters
    class QRec(torch.nn.Module):
        def __init__(self, net):
            super().__init__()
            self.net = net

        def forward(self, x):
            if k.current.proc is not k.procs[0] and st["published"] is not None:
                s = _state(self.net)
                ok = [st["published"]]
                if st["upd"] % aui == 0:
                    # the learner may be publishing right now
                    ok.append(_state(box["agent"].model))
                if not all(any(x == o[i] for o in ok) for i, x in enumerate(s)):
                    problems.append(Violation("stale-actor", "an actor acts with parameters other than the published ones (%d updates, interval %d)" % (st["upd"], aui)))
            return self.net(x)

    class RecSGD(torch.optim.SGD):
        def step(self, closure=None):
            st["upd"] += 1
            if fault == "learner" and st["upd"] == fault_n:
                st["fired"] = True
                ctx.fault("raise:learner")
                raise Boom("learner")
            return super().step(closure)

    log = _meta.LogTrap()
    done = {}
    box = {}

    def main():
        import multiprocessing as mp
        import ctypes

        diskmod.use(d)
        torch.manual_seed(ch.seed32("torch"))
        np.random.seed(ch.seed32("np"))
        q = torch.nn.Sequential(QRec(torch.nn.Linear(2, 2)), pfrl.q_functions.DiscreteActionValueHead())
        buf = RecBuf(capacity=cap)
        agent = pfrl.agents.DQN(q, RecSGD(q.parameters(), lr=1e-5), buf, 0.9, Expl(), replay_start_size=start, minibatch_size=batch,
                                update_interval=ui, target_update_interval=tui, logger=log.logger)
        box["agent"] = agent
        uc = mp.Value(ctypes.c_ulong)

        def oh(env, a, n):
            st["hooks"].append(n)
            s = _state(a.model)
            st["snap"].append(s)
            if any(t.state not in ("done", "killed") for p in k.procs[1:] for t in p.tasks):
                ctx.nontrivial = True

            def chk():
                check(n == len(st["hooks"]) == a.optim_t, "update-count", "hook told %d, %d updates so far, optim_t %d", n, len(st["hooks"]), a.optim_t)
                if n % aui == 0:
                    st["published"] = s
                    st["published_all"].add(s)
                check(_state(box["shared"]) == st["published"], "not-published", "after %d updates (interval %d) the actors' parameters are not the published ones", n, aui)
                check(uc.peek() == n // aui, "update-counter", "%d after %d updates, interval %d", uc.peek(), n, aui)
                check(_state(a.target_model) == st["target"], "target-sync", "target network wrong after %d updates (interval %d steps of %d)", n, tui, ui)
                if (n * ui) % tui == 0:
                    st["target"] = s
            note(chk)

        def sh(env, a, t):
            st["shooks"].append(t)

        make_actor, learner, poller, exc = agent.setup_actor_learner_training(
            n_actors=P, update_counter=uc, n_updates=n_upd, actor_update_interval=aui, optimizer_step_hooks=[oh], step_hooks=[sh])
        box["shared"] = make_actor(0).model
        st["published"] = _state(box["shared"])
        st["published_all"] = {st["published"]}
        st["target"] = _state(agent.target_model)
        poller.start()
        learner.start()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            train_agent_async(outdir=outdir, processes=P, make_env=kn.Opaque(lambda i, test: RecEnv(i)), steps=steps, eval_interval=None,
                              make_agent=make_actor, stop_event=learner.stop_event, exception_event=exc, logger=log.logger)
            done["warn"] = [str(x.message) for x in w if issubclass(x.category, pfrl.utils.async_.AbnormalExitWarning)]
        k.sleep(0.05)
        learner.stop()
        poller.stop()
        learner.join()
        poller.join()
        done["ok"] = True
        done["exc"] = exc.is_set()

    try:
        r = k.run(main)
    finally:
        ctx.absorb(k)
    for i in range(P):
        ctx.digest_only(repr((sent[i], got[i], stops[i])))
    if problems:
        raise problems[0]
    agent = box["agent"]
    ctx.states.add((P, st["upd"], sum(map(len, got.values())), fault if st["fired"] else None))
    killed = not done.get("ok")
    if st["fired"]:
        ctx.nontrivial = True
    # ---- per actor order, exactly once
    for i in range(P):
        check(got[i] == sent[i][:len(got[i])], "wrong-transitions", "actor %d sent %s, memory got %s", i, sent[i][-4:], got[i][-4:])
        check(stops[i] == want_stops[i][:len(stops[i])], "wrong-episode-ends", "actor %d ended episodes after %s transitions, memory was told %s", i, want_stops[i], stops[i])
    if st["fired"] and fault in ("learner", "poller"):
        # signalled: process 0 saves and kills the group, or everything had already ended
        exs = [x for x in os.listdir(outdir) if x.endswith("_except")]
        if killed:
            check(len(exs) == 1, "not-saved-on-failure", "output %s", os.listdir(outdir))
            check(os.path.exists(os.path.join(outdir, exs[0], "model.pt")), "not-saved-on-failure", "%s is empty", exs[0])
        else:
            check(done["exc"], "failure-not-signalled", "the %s failed but the exception event is not set", fault)
            check(steps < 10 ** 6 or (n_upd is not None and agent.optim_t == n_upd), "ended-without-reason", "")
        return
    check(not killed, "did-not-return", "%s", r)
    check(not log.records, "thread-failed", "%s", log.records[:1])
    if not (st["fired"] and fault == "actor"):
        for p in k.procs[1:]:
            check(p.exitcode == 0, "worker-failed", "%s: %s", p.exitcode, p.error)
    for i in range(P):
        if not (st["fired"] and i == P - 1):
            check(len(got[i]) == len(sent[i]) and len(stops[i]) == len(want_stops[i]), "lost-transitions",
                  "actor %d observed %d transitions, memory got %d", i, len(sent[i]), len(got[i]))
    tot = sum(map(len, got.values()))
    check(agent.cumulative_steps == tot, "cumulative-steps", "%d, %d recorded", agent.cumulative_steps, tot)
    if by_updates and not (st["fired"] and P == 1):
        check(agent.optim_t == n_upd, "update-count", "%d updates, %d requested", agent.optim_t, n_upd)
    check(len(st["hooks"]) == agent.optim_t, "update-count", "%d hook calls for %d updates", len(st["hooks"]), agent.optim_t)
    check(st["shooks"] == [n * ui for n in st["hooks"]], "step-hooks", "%s for updates %s", st["shooks"], st["hooks"])
    if agent.optim_t and tot < start:
        check(False, "started-early", "%d updates with %d transitions, start size %d", agent.optim_t, tot, start)
    if not by_updates and not (st["fired"] and P == 1):
        fin = os.path.join(outdir, "%d_finish" % steps, "model.pt")
        check(os.path.exists(fin), "final-save", "%s", os.listdir(outdir))
        diskmod.use(None)
        sd = torch.load(fin)
        s = tuple(float(x) for n, p in agent.model.named_parameters() for x in sd[n].reshape(-1))
        ok = {_init for _init in [box.get("init")] if _init} | set(st["snap"]) | st["published_all"]
        check(s in ok or line, "saved-other-parameters", "saved parameters are none of those the learner had")


SCENARIOS = {"actor_learner": (_run, 360, 16000)}
