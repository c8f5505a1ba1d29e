"""Scripted environments, a recording agent and fault plans for the training loops."""
import os

from sim.errors import HarnessError, check


class Boom(Exception):
    pass


EXCS = [Boom, KeyboardInterrupt, ValueError, OSError, StopIteration, AssertionError, MemoryError, KeyError]


class Plan:
    """Raises at the n-th call of one channel."""

    def __init__(self, channel=None, n=0, exc=None):
        self.channel, self.n, self.exc = channel, n, exc
        self.counts = {}
        self.fired = None

    def hit(self, channel):
        c = self.counts[channel] = self.counts.get(channel, 0) + 1
        if self.fired is None and channel == self.channel and c == self.n:
            self.fired = self.exc
            raise self.exc


def draw_plan(ch, channels, p, horizon):
    if not ch.chance(p, "fault"):
        return Plan()
    c = ch.pick(channels, "channel")
    e = ch.pick(EXCS, "exc")
    exc = e("injected") if e is not OSError else OSError(28, "injected")
    return Plan(c, ch.integer(1, max(1, horizon), "nth"), exc)


class Episodes:
    """Draws, step by step, how the episode goes on: (done, needs_reset)."""

    def __init__(self, ch, p_done, p_cut):
        self.ch, self.p_done, self.p_cut = ch, p_done, p_cut

    def next(self):
        d = self.ch.chance(self.p_done, "done")
        c = self.ch.chance(self.p_cut, "cut")
        return d, c


class ScriptEnv:
    """obs = (env id, episode, step); every reward is distinct."""

    spec = None
    action_space = observation_space = None

    def __init__(self, eid, script, log, plan, channel="env", reward=None):
        self.eid, self.script, self.log, self.plan, self.ch_name = eid, script, log, plan, channel
        self.episode = 0
        self.k = None
        self.closed = 0
        self.total = 0
        self.last = None
        self.reward_fn = reward

    def reset(self):
        self.plan.hit(self.ch_name + ".reset")
        self.episode += 1
        self.k = 0
        obs = (self.eid, self.episode, 0)
        self.last = obs
        self.log.append(("reset", self.eid, obs))
        return obs

    def step(self, action):
        self.plan.hit(self.ch_name + ".step")
        self.k += 1
        self.total += 1
        done, cut = self.script.next()
        obs = (self.eid, self.episode, self.k)
        self.last = obs
        r = self.reward_fn(self) if self.reward_fn else self.total * 1.0 + self.eid * 1000
        info = {"needs_reset": True} if cut else ({} if self.total % 2 else {"needs_reset": False})
        self.log.append(("step", self.eid, action, obs, r, done, cut))
        return obs, r, done, info

    def close(self):
        self.closed += 1
        self.log.append(("close", self.eid))


class ScriptVectorEnv:
    """Lockstep of ScriptEnvs (its own simple implementation, not pfrl's)."""

    def __init__(self, envs):
        self.envs = envs
        self.num_envs = len(envs)
        self.closed = 0

    def reset(self, mask=None):
        if mask is None:
            mask = [False] * self.num_envs
        return [e.last if m else e.reset() for e, m in zip(self.envs, mask)]

    def step(self, actions):
        rs = [e.step(a) for e, a in zip(self.envs, actions)]
        o, r, d, i = zip(*rs)
        return list(o), list(r), list(d), list(i)

    def close(self):
        self.closed += 1


def make_agent_class(batch=False):
    import pfrl

    base = pfrl.agent.BatchAgent if batch else pfrl.agent.Agent

    class RecAgent(base):
        def __init__(self, log, plan):
            self.log = log
            self.plan = plan
            self.t = -1
            self.count = None
            self.n_act = 0
            self.n_obs = 0
            self.saves = []

        def _count(self, n=0):
            """Like pfrl's agents: counts training steps in t, which the loop sets to the step offset at the start."""
            if not self.training or not hasattr(self, "t"):
                return
            if self.count is None:
                self.count = []
            self.t += n
            self.count.append(self.t)

        def act(self, obs):
            self.plan.hit("act" if self.training else "eval.act")
            self._count()
            self.n_act += 1
            a = ("a", self.n_act)
            self.log.append(("act", self.training, obs, a))
            return a

        def observe(self, obs, reward, done, reset):
            self.plan.hit("observe" if self.training else "eval.observe")
            if self.training:
                self.n_obs += 1
                self._count(1)
            self.log.append(("observe", self.training, obs, reward, done, reset))

        def batch_act(self, batch_obs):
            self.plan.hit("act" if self.training else "eval.act")
            self._count()
            out = []
            for o in batch_obs:
                self.n_act += 1
                out.append(("a", self.n_act))
            self.log.append(("act", self.training, list(batch_obs), list(out)))
            return out

        def batch_observe(self, batch_obs, batch_reward, batch_done, batch_reset):
            self.plan.hit("observe" if self.training else "eval.observe")
            if self.training:
                self.n_obs += 1
                self._count(len(batch_obs))
            self.log.append(("observe", self.training, list(batch_obs), [float(r) for r in batch_reward],
                             [bool(d) for d in batch_done], [bool(r) for r in batch_reset]))

        def save(self, dirname):
            name = os.path.basename(dirname)
            self.plan.hit("save:" + name.split("_")[-1])
            self.saves.append((name, self.n_obs))
            self.log.append(("save", name, self.n_obs))
            os.makedirs(dirname, exist_ok=True)

        def load(self, dirname):
            raise HarnessError("load")

        def get_statistics(self):
            self.plan.hit("stats")
            return [("n_obs", self.n_obs)]

    return RecAgent


def check_count(agent, offset, n=1):
    """The agent's own step count began at the offset and nobody else touched it."""
    t = offset
    for i, c in enumerate(agent.count or []):
        check(c == t, "agent-step-count", "the agent counts %d steps when %d were taken (step offset %d)", c, t, offset)
        t += n if i % 2 == 0 else 0


class StubEvaluator:
    """Stands in for pfrl's Evaluator where only the loop is under test."""

    def __init__(self, ch, log, plan, env=None):
        self.ch, self.log, self.plan, self.env = ch, log, plan, env
        self.max_score = -1.0

    def evaluate_if_necessary(self, t, episodes):
        self.plan.hit("evaluator")
        r = self.ch.pick([None, "low", "high"], "eval")
        if r is None:
            s = None
        elif r == "low":
            s = 0.0
        else:
            s = 10.0
        if s is not None:
            self.max_score = max(self.max_score, s)
        self.log.append(("evaluate", t, int(episodes), s))
        return s


class Interrupter:
    """Delivers Ctrl-C at a chosen source line of the loop while armed() holds."""

    def __init__(self, nth, armed):
        self.nth, self.armed, self.seen, self.fired = nth, armed, 0, False

    def __call__(self, task, label):
        if label.startswith("L") and not self.fired and self.armed():
            self.seen += 1
            if self.seen >= self.nth:
                self.fired = True
                task.pending = KeyboardInterrupt("ctrl-c")
