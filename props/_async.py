"""Runs the real train_agent_async on simulated worker processes."""
import os
import warnings

from sim import disk as diskmod
from sim import kernel as kn
from sim.errors import check

from ._train import Episodes


class Rec:
    """Shared by all simulated processes (it is the observer, not the system)."""

    def __init__(self):
        self.log = []
        self.envs = []
        self.mode = {}

    def __deepcopy__(self, memo):
        return self

    def add(self, *x):
        self.log.append(x)


class AEnv:
    def __init__(self, rec, idx, test, script, plan, reward):
        self.rec, self.idx, self.test, self.script, self.plan, self.reward = rec, idx, test, script, plan, reward
        self.closed = 0
        self.k = None
        rec.envs.append(self)

    def __deepcopy__(self, memo):
        return self

    def reset(self):
        kn.K.point("env-reset")
        self.plan(self.idx, "reset")
        self.k = 0
        self.rec.add("reset", self.idx, self.test)
        return (self.idx, 0)

    def step(self, a):
        kn.K.point("env-step")
        self.plan(self.idx, "step")
        self.k += 1
        d, c = self.script.next()
        r = self.reward()
        self.rec.add("step", self.idx, self.test, r, d, c)
        kn.K.point("env-stepped")
        return (self.idx, self.k), r, d, ({"needs_reset": True} if c else {})

    def close(self):
        kn.K.point("env-close")
        self.closed += 1
        self.rec.add("close", self.idx, self.test)


def agent_class():
    import pfrl
    import torch

    class AAgent(pfrl.agent.AsyncAgent):
        process_idx = None
        shared_attributes = ("model",)

        def __init__(self, rec, plan):
            self.rec = rec
            self.plan = plan
            self.model = torch.nn.Linear(1, 1)
            self.model.weight.data.zero_()
            self.t = 0

        def act(self, obs):
            if self.training:
                self.plan(self.process_idx, "act")
                self.rec.add("act", self.process_idx)
            return 0

        def observe(self, obs, reward, done, reset):
            if self.training:
                self.plan(self.process_idx, "observe")
                self.model.weight.data += 1
                self.t += 1
                self.rec.add("observe", self.process_idx, done, reset)

        def save(self, dirname):
            kn.K.point("save")
            name = os.path.basename(dirname)
            self.rec.add("save-begin", self.process_idx, name)
            os.makedirs(dirname, exist_ok=True)
            with open(os.path.join(dirname, "w"), "w") as f:
                f.write(str(int(self.model.weight.data.item())))
            kn.K.point("saving")
            self.rec.add("save", self.process_idx, name, int(self.model.weight.data.item()))

        def load(self, dirname):
            pass

        def get_statistics(self):
            return [("w", int(self.model.weight.data.item()))]

    return AAgent


class Hooked:
    """Global step hook."""

    def __init__(self, rec, plan, i):
        self.rec, self.plan, self.i = rec, plan, i

    def __deepcopy__(self, memo):
        return self

    def __call__(self, env, agent, t):
        kn.K.point("hook")
        self.plan(agent.process_idx, "hook")
        self.rec.add("hook", self.i, agent.process_idx, t, env.idx, env.test)


def read_scores(outdir):
    p = os.path.join(outdir, "scores.txt")
    if not os.path.exists(p):
        return None
    with diskmod._r["open"](p) as f:
        return f.read()


def trace_kw(ch):
    return dict(strategy=ch.pick([("random", 1.0), ("sticky", 0.05), ("sticky", 0.3), ("pct", 0.02)], "strategy"),
                trace_files=("experiments/train_agent_async.py", "experiments/evaluator.py"),
                trace_p=ch.pick([0.0, 0.05, 0.3], "trace_p"), step_cap=60000)
