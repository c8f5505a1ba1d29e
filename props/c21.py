import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np

from sim import disk as diskmod
from sim import kernel as kn
from sim.choices import Choices
from sim.errors import check

from . import _agents as A
from . import _async
from ._async import AEnv, Rec
from ._train import Episodes

PROPERTY = "C21"
LEVEL = "exploration"
TECH = ("twin simulated runs: the same seeds and schedule under different clocks, process ids, hash seeds, output paths and "
        "leftover random state must give the same execution; per-worker random streams against seeded reference generators")
RULE = ("'train': one agent of any type trained and evaluated by the real training loop twice after set_random_seed with the same "
        "seed; the second run has another wall clock (with jumps), process id, output directory and leftover generator state. "
        "'async': train_agent_async twice with the same seeds and the same scheduler decisions (real A3C workers). 'streams': "
        "1-4 workers under a random schedule draw random numbers at random points; every worker's numbers are those of its own "
        "seed. 'hash': groups of 'train' configurations in two fresh interpreters with different string hash seeds. Non-trivial: "
        "an update happened (streams: two workers drew). distinct_states counts (scenario, agent, options) tuples.")
REAL = ["pfrl.experiments", "pfrl.agents.*", "pfrl.explorers", "pfrl.replay_buffers", "pfrl.utils.random_seed", "torch"]
STUB = ["scripted environments; processes of asynchronous training simulated"]
ASSUMPTIONS = ["one machine and one build of torch, CPU, one thread", "environments are deterministic"]


def _seed_ref(seed):
    """The generators a process is to use after being given the seed."""
    import torch

    g = torch.Generator()
    g.manual_seed(int(seed))
    return random.Random(int(seed)), np.random.RandomState(int(seed)), g


def _mess(ch, n):
    """Leaves the global generators in an arbitrary state."""
    import torch

    random.seed(ch.draw(1 << 20, "mess") + n)
    np.random.seed(ch.draw(1 << 20, "mess") + n)
    torch.manual_seed(ch.draw(1 << 20, "mess") + n)
    for _ in range(n):
        random.gauss(0, 1)
        np.random.randn()
        torch.randn(1)


def draw_config(ch):
    kind = ch.pick(A.ALL, "agent")
    o = A.draw_opts(ch, kind)
    return dict(o=o, seed=ch.draw(1 << 20, "seed"), total=ch.integer(8, 30, "total"), sched=None, interval=ch.pick([7, 4, 15], "ei"),
                n_eval=ch.pick([1, 2], "ne"), noisy=ch.chance(0.4, "noisy"), eps=ch.pick([0.2, 0.1, 0.4], "pd"))


def train_once(cfg, outdir):
    """A whole run from set_random_seed on; returns everything observable."""
    import pfrl

    o, seed = cfg["o"], cfg["seed"]
    kind, n = o["kind"], o["nenv"]
    pfrl.utils.set_random_seed(seed)
    agent = A._MAKERS[kind](o)
    w = A.World(n, cfg["sched"])
    wev = A.World(n, cfg["evsched"], salt=1)
    if cfg["noisy"]:
        step = w.step

        def noisy(i, a):  # an environment that uses the process-wide generators
            ob, r, d, c = step(i, a)
            r += 0.1 * random.random() + 0.1 * np.random.rand()
            return ob, r, d, c

        w.step = noisy

    class Vec(A.WorldVec, pfrl.env.VectorEnv):
        def seed(self, seeds):
            pass

    kw = dict(eval_n_steps=None, eval_n_episodes=cfg["n_eval"], eval_interval=cfg["interval"], outdir=outdir)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind in A.SINGLE:
            pfrl.experiments.train_agent_with_evaluation(agent, A.WorldEnv(w, 0), cfg["total"], eval_env=A.WorldEnv(wev, 0),
                                                         train_max_episode_len=9, **kw)
        else:
            pfrl.experiments.train_agent_batch_with_evaluation(agent, Vec(w), cfg["total"] * n, eval_env=Vec(wev),
                                                               max_episode_len=9, **kw)
    with diskmod._r["open"](os.path.join(outdir, "scores.txt")) as f:
        rows = [ln.split("\t") for ln in f.read().split("\n")]
    rows = [r[:2] + r[3:] for r in rows]  # without the elapsed time
    out = {"parameters": A.learned(agent), "scores": A.digest(rows),
           "actions": A.digest([[np.asarray(h[1]).tobytes() for h in w.hist[i]] for i in range(n)]),
           "eval-actions": A.digest([[np.asarray(h[1]).tobytes() for h in wev.hist[i]] for i in range(n)]),
           "replay": None if getattr(agent, "replay_buffer", None) is None else A.digest(A.replay_entries(agent)),
           "files": sorted(os.listdir(outdir))}
    import torch

    out["generators"] = [random.random(), float(np.random.rand()), float(torch.rand(1))]
    return out


def _fill_sched(ch, cfg):
    n = cfg["o"]["nenv"]
    cfg["sched"] = A.draw_sched(ch, n, 12)
    cfg["evsched"] = A.draw_sched(ch, n, 12, p_done=0.4, label="ev")


def _same(a, b, what, cfg):
    for k in a:
        check(a[k] == b[k], "not-reproducible", "%s: %s differ between two runs with the same seed (%s)", what, k,
              A.diff(a[k], b[k]) if isinstance(a[k], dict) else "%s / %s" % (a[k], b[k]))


def _train(ctx):
    ch = ctx.ch
    cfg = draw_config(ch)
    _fill_sched(ch, cfg)
    ctx.event("train", cfg["o"]["kind"], {k: v for k, v in sorted(cfg["o"].items()) if k != "kind"}, cfg["total"], cfg["interval"])
    res = []
    base = ctx.scratch()
    for run in range(2):
        _mess(ch, ch.draw(5, "used") + run)
        outdir = "%s/%s" % (base, ch.pick(["out", "another/place", "x"], "dir") + str(run))
        os.makedirs(outdir)
        k = ctx.kernel(strategy=("random", 1.0), step_cap=200000)
        k.skew = 86400.0 * ch.draw(4000, "day")
        k.next_pid = 1000 + ch.draw(30000, "pid")
        jumpy = ch.chance(0.5, "jumpy")
        wall = k.wall
        if jumpy:
            jc = Choices(seed=ch.draw(1 << 20, "jumps"))

            def jump(wall=wall, jc=jc):
                ctx.fault("clock-jump")
                return wall() + (jc.draw(100000) - 50000)

            k.wall = jump
        k.now = ch.draw(1000, "up") * 1.0
        got = []
        try:
            k.run(lambda: got.append(train_once(cfg, outdir)))
        finally:
            ctx.absorb(k)
        res.append(got[0])
    _same(res[0], res[1], cfg["o"]["kind"], cfg)
    ctx.nontrivial = True
    ctx.states.add(("train", cfg["o"]["kind"], bool(cfg["o"].get("recurrent")), cfg["o"]["nenv"], cfg["o"].get("explorer"),
                    cfg["noisy"]))
    ctx.digest_only(json.dumps(res[0], sort_keys=True, default=str))


# ------------------------------------------------------------------ async
class ASEnv:
    """A scripted environment whose steps are scheduling points."""

    spec = action_space = observation_space = None

    def __init__(self, idx, test, sched, log):
        self.w = A.World(1, [sched], salt=idx + (50 if test else 0))
        self.e = A.WorldEnv(self.w, 0)
        self.idx, self.test, self.log = idx, test, log

    def __deepcopy__(self, memo):
        return self

    def reset(self):
        kn.K.point("env-reset")
        return self.e.reset()

    def step(self, a):
        kn.K.point("env-step")
        self.log.append((self.idx, self.test, np.asarray(a).tobytes()))
        r = self.e.step(a)
        kn.K.point("env-stepped")
        return r

    def close(self):
        pass


class ObsLog(list):
    def __deepcopy__(self, memo):
        return self


def _async_twin(ctx):
    from pfrl.experiments import train_agent_async

    ch = ctx.ch
    P = ch.pick([2, 1, 3], "workers")
    kind = ch.pick(["A3C", "ACER"], "agent")
    o = A.draw_opts(ch, kind)
    steps = ch.pick([12, 6, 24], "steps")
    seeds = None if ch.chance(0.4, "default-seeds") else [ch.draw(1 << 16, "seed") for _ in range(P)]
    seed0 = ch.draw(1 << 20, "seed0")
    sub = ch.draw(1 << 30, "schedule")
    tp = ch.pick([0.0, 0.1], "trace_p")
    scheds = {(i, t): A.draw_sched(ch, 1, 10, p_done=0.35)[0] for i in range(P) for t in (False, True)}
    ctx.event("async", kind, P, steps, seeds, {k: v for k, v in sorted(o.items()) if k != "kind"})
    res = []
    base = ctx.scratch()
    for run in range(2):
        import pfrl

        _mess(ch, ch.draw(5, "used") + run)
        outdir = "%s/out%d" % (base, run)
        os.makedirs(outdir)
        d = diskmod.Disk(outdir)
        k = kn.Kernel(Choices(seed=sub), strategy=("sticky", 0.3),
                      trace_files=("experiments/train_agent_async.py", "experiments/evaluator.py"), trace_p=tp, step_cap=100000)
        k.skew = 86400.0 * ch.draw(4000, "day")
        k.next_pid = 1000 + ch.draw(30000, "pid")
        log = ObsLog()
        got = []

        @kn.Opaque
        def make_env(idx, test):
            return ASEnv(idx, test, scheds[(idx, test)], log)

        def make_agent(i):
            a = A._MAKERS[kind](dict(o))
            return a

        def main():
            diskmod.use(d)
            pfrl.utils.set_random_seed(seed0)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got.append(train_agent_async(
                    outdir=outdir, processes=P, make_env=make_env, steps=steps, eval_interval=ch.pick([6], "ei"), eval_n_episodes=1,
                    max_episode_len=7, make_agent=make_agent,
                    random_seeds=None if seeds is None else list(seeds)))

        try:
            k.run(main)
        finally:
            ctx.absorb(k)
        for p in k.procs[1:]:
            check(p.exitcode == 0, "worker-failed", "%s exited with %s: %s", p.name, p.exitcode, p.error)
        rows = [ln.split("\t") for ln in _async.read_scores(outdir).split("\n")]
        res.append({"parameters": A.learned(got[0]), "scores": A.digest([r[:2] + r[3:] for r in rows]),
                    "actions": A.digest([list(x) for x in log])})
    _same(res[0], res[1], kind + " asynchronous", None)
    ctx.nontrivial = True
    ctx.states.add(("async", kind, P, bool(o.get("recurrent")), seeds is None))
    ctx.digest_only(json.dumps(res[0], sort_keys=True, default=str))


# ---------------------------------------------------------------- streams
def _streams(ctx):
    import torch

    from pfrl.experiments import train_agent_async

    ch = ctx.ch
    P = ch.pick([2, 1, 3, 4], "workers")
    steps = ch.pick([6, 1, 12, 20], "steps")
    form = ch.pick(["default", "list", "array", "tuple"], "form")
    interval = ch.pick([3, None], "interval")
    maker = ch.chance(0.5, "make_agent")
    given = [ch.draw(1 << 16, "seed") for _ in range(P)]
    rs = {"default": None, "list": list(given), "array": np.array(given), "tuple": tuple(given)}[form]
    want = list(range(P)) if form == "default" else given
    k = ctx.kernel(**_async.trace_kw(ch))
    rec = Rec()
    drawn = {}

    @kn.Opaque
    def draw(idx):
        """The worker uses one of the process-wide generators."""
        if idx is None or not ch.chance(0.6, "use"):
            return
        g = ch.draw(3, "which")
        v = [random.random, np.random.rand, lambda: float(torch.rand(1))][g]()
        drawn.setdefault(idx, []).append((g, float(v)))

    @kn.Opaque
    def plan(idx, what):
        if idx is not None and kn.K.current.proc.pid != kn.K.procs[0].pid:
            draw(idx)

    outdir = ctx.scratch() + "/out"
    os.makedirs(outdir)
    d = diskmod.Disk(outdir)
    p_done = [ch.pick([0.3, 0.1, 1.0], "p_done") for _ in range(P)]

    @kn.Opaque
    def make_env(idx, test):
        draw(idx)
        return AEnv(rec, idx, test, Episodes(ch, p_done[idx], 0.1), plan, lambda: 1.0)

    AA = _async.agent_class()

    @kn.Opaque
    def make_agent(i):
        if kn.K.current.proc.pid != kn.K.procs[0].pid:
            draw(i)
        # building a network uses torch's generator: keep it out of the count
        st = torch.get_rng_state()
        a = AA(rec, plan)
        torch.set_rng_state(st)
        return a

    ctx.event("streams", P, "steps", steps, "seeds", form, want, "interval", interval)
    _mess(ch, 1)

    def main():
        diskmod.use(d)
        agent = None if maker else AA(rec, plan)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            train_agent_async(outdir=outdir, processes=P, make_env=make_env, steps=steps, eval_interval=interval,
                              eval_n_episodes=1, max_episode_len=5, agent=agent, make_agent=make_agent if maker else None,
                              random_seeds=rs)

    try:
        k.run(main)
    finally:
        ctx.absorb(k)
    for p in k.procs[1:]:
        check(p.exitcode == 0, "worker-failed", "%s exited with %s: %s", p.name, p.exitcode, p.error)
    for i in range(P):
        py, nr, tg = _seed_ref(want[i])
        ref = [py.random, nr.rand, lambda: float(torch.rand(1, generator=tg))]
        for j, (g, v) in enumerate(drawn.get(i, [])):
            w = float(ref[g]())
            check(v == w, "worker-stream", "worker %d of %d (seed %s): random number %d, from %s, is %s, but its seed gives %s", i, P,
                  want[i], j + 1, ["random", "numpy", "torch"][g], v, w)
    n = sum(1 for x in drawn.values() if x)
    ctx.nontrivial = n >= 1
    ctx.states.add(("streams", P, form, n, interval is None, maker))
    ctx.digest_only(repr(sorted(drawn.items())))


# ------------------------------------------------------------------- hash
def child(seeds, base):
    """Runs in a fresh interpreter: digests of the configurations of the given seeds."""
    out = []
    for s in seeds:
        c = Choices(seed=s)
        cfg = draw_config(c)
        _fill_sched(c, cfg)
        d = "%s/h%d" % (base, s)
        os.makedirs(d)
        out.append([cfg["o"]["kind"], train_once(cfg, d)])
    return out


def _hash(ctx):
    ch = ctx.ch
    seeds = sorted({ch.draw(1 << 30, "cfg") for _ in range(14)})
    base = ctx.scratch()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    res = []
    for run in range(2):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str([1, 4242][run] + ch.draw(1 << 20, "hash"))
        env["HOME"] = "/nonexistent%d" % run
        d = "%s/p%d" % (base, run)
        os.makedirs(d)
        code = ("import sys, json; sys.path.insert(0, %r)\nfrom sim import runner\nrunner.bootstrap()\nfrom props import c21\n"
                "print('RESULT' + json.dumps(c21.child(%r, %r), default=str))" % (here, seeds, d))
        p = subprocess.run([sys.executable, "-B", "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=here)
        lines = [ln for ln in p.stdout.splitlines() if ln.startswith("RESULT")]
        check(lines, "run-failed", "%s", p.stderr[-1500:])
        res.append(json.loads(lines[-1][6:]))
        ctx.fault("new interpreter with another hash seed")
    for (kind, a), (_, b) in zip(*res):
        _same(a, b, kind, None)
    ctx.nontrivial = True
    ctx.states.add(("hash", tuple(sorted({x[0] for x in res[0]}))))
    ctx.digest_only(json.dumps(res[0], sort_keys=True))


SCENARIOS = {"train": (_train, 130, 5000), "async": (_async_twin, 60, 2000), "streams": (_streams, 500, 15000),
             "hash": (_hash, 4, 120)}
