import signal

from sim import kernel as kn
from sim.errors import Violation, check

from ._train import Boom

PROPERTY = "C14"
LEVEL = "exploration"
TECH = "seeded interleavings of simulated worker processes, Ctrl-C and failing environments against serially stepped environments"
RULE = ("One run = a MultiprocessVectorEnv (or SerialVectorEnv) of 1-4 scripted environments, optionally under VectorFrameStack, "
        "driven through a random history of step / reset / masked reset / seed / spec and closed, with limited pipe buffers, "
        "optionally a Ctrl-C delivered to the whole process group at a random point or an environment that raises. Non-trivial: "
        "at least three operations compared. distinct_states counts (environments, wrapper, kinds of operations, fault).")
REAL = ["pfrl.envs.MultiprocessVectorEnv incl. its worker", "pfrl.envs.SerialVectorEnv", "pfrl.wrappers.VectorFrameStack",
        "pfrl.wrappers.atari_wrappers.LazyFrames"]
STUB = ["processes, pipes and signals simulated; environments scripted"]
ASSUMPTIONS = ["environments are deterministic functions of seed and actions", "Ctrl-C arrives after the first reset; operations after it other than close are not judged",
               "how an environment failure reaches the caller is not judged (today the caller waits until interrupted)"]


def _make_env_class():
    import gym
    import numpy as np

    class E(gym.Env):
        spec = None

        def __init__(self, i, shape, tick=lambda what: None):
            self.i, self.tick = i, tick
            self.shape = shape
            self.spec = "spec-%d" % i
            self.action_space = gym.spaces.Discrete(3 + i)
            self.observation_space = gym.spaces.Box(-np.inf, np.inf, shape, dtype=np.float32)
            self.s = 0
            self.t = 0
            self.episode = 0
            self.closed = 0
            self.seeded = 7

        def __deepcopy__(self, memo):
            return self

        def _o(self):
            o = np.zeros(self.shape, dtype=np.float32)
            o.flat[: min(4, o.size)] = [self.i, self.s, self.t, self.episode][: min(4, o.size)]
            o.flat[-1] = self.i * 1000 + self.s
            return o

        def reset(self):
            self.tick("reset")
            check(not self.closed, "used-after-close", "env %d", self.i)
            self.episode += 1
            self.t = 0
            self.s = (self.s * 31 + self.seeded) % 997
            return self._o()

        def step(self, a):
            self.tick("step")
            check(not self.closed, "used-after-close", "env %d", self.i)
            self.t += 1
            self.s = (self.s * 17 + int(a) * 5 + self.seeded + self.i) % 997
            done = self.s % 7 == 0
            return self._o(), self.s * 0.5, done, {"n": self.t, **({"needs_reset": True} if self.s % 11 == 0 else {})}

        def seed(self, s=None):
            self.tick("seed")
            self.seeded = 3 if s is None else int(s)
            return [self.i, self.seeded]

        def close(self):
            self.closed += 1

    return E


def _same(a, b):
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())


def _run(ctx, multi):
    import numpy as np
    import pfrl
    from pfrl.wrappers import VectorFrameStack

    ch = ctx.ch
    n = ch.pick([2, 1, 3, 4], "envs")
    big = ch.chance(0.3, "big")
    shape = (200,) if big else ch.pick([(4,), (2, 3)], "shape")
    stack = ch.pick([0, 0, 2, 3], "stack")
    axis = ch.draw(len(shape), "axis") if stack else 0
    nops = ch.integer(1, 14, "nops")
    fault = ch.weighted([(None, 6), ("sigint", 3), ("raise", 2)], "fault") if multi else None
    k = ctx.kernel(trace_files=("envs/multiprocess_vector_env.py",) if multi and ch.chance(0.3, "lines") else None, trace_p=0.3)
    k.pipe_bytes = ch.pick([None, 700], "pipe") if multi else None
    E = _make_env_class()
    envs = {}
    st = {"started": False, "raised": None, "int": None, "ticks": 0}
    fault_at = ch.integer(1, 30, "fault-at")
    bad = ch.draw(n, "bad-env")
    ctx.event("n", n, "shape", shape, "stack", stack, "fault", fault, fault_at, "multi", multi)

    def group_sigint():
        ctx.fault("sigint")
        for p in k.procs:
            k.send_signal(p, signal.SIGINT)

    def tick(i):
        def f(what):
            k.point("env-" + what)
            if fault == "raise" and st["started"] and i == bad and what != "seed":
                st["ticks"] += 1
                if st["ticks"] == 1 + fault_at // 4 and st["raised"] is None:
                    st["raised"] = i
                    ctx.fault("raise:env")
                    raise Boom("env %d" % i)
        return f

    def maker(i):
        def f():
            k.point("make-env")
            e = E(i, shape, tick(i))
            check(i not in envs, "env-made-twice", "%d", i)
            envs[i] = e
            return e
        return kn.Opaque(f)

    ref = [E(i, shape) for i in range(n)]
    last = [None] * n
    frames = [[] for _ in range(n)]
    count = {"pts": 0}

    def plan(task, label):
        # Ctrl-C while the caller is inside the library
        if fault == "sigint" and st.get("armed") and st["int"] is None:
            count["pts"] += 1
            if count["pts"] == fault_at:
                st["int"] = True
                group_sigint()

    k.kill_plan = plan
    kinds = set()
    nd = {"ops": 0}

    def on_stuck():
        # a failed environment leaves the caller waiting: the user presses Ctrl-C
        if st["raised"] is not None and not st.get("unstuck"):
            st["unstuck"] = True
            group_sigint()
            return True
        return False

    k.on_stuck = on_stuck

    kept = []

    def expect_obs(got, what):
        # what was returned earlier must not change afterwards
        for g, w, wt in kept:
            for i in range(n):
                check(_same(np.asarray(g[i]), w[i]), "observation-changed", "observation %d returned by an earlier %s changed during %s", i, wt, what)
        del kept[:-3]
        kept.append((got, [np.concatenate(frames[i], axis=axis) if stack else last[i].copy() for i in range(n)], what))
        check(len(got) == n, "wrong-length", "%s returned %d observations for %d envs", what, len(got), n)
        for i in range(n):
            if stack:
                want = np.concatenate(frames[i], axis=axis)
                check(_same(np.asarray(got[i]), want), "wrong-observation", "%s: env %d: got %s want %s", what, i, np.asarray(got[i]).ravel()[:8], want.ravel()[:8])
            else:
                check(_same(got[i], last[i]), "wrong-observation", "%s: env %d: got %s want %s", what, i, np.asarray(got[i]).ravel()[:8], last[i].ravel()[:8])

    def op(v, name):
        if name == "step":
            acts = [ch.draw(3 + i, "a") for i in range(n)]
            form = ch.draw(3, "form")
            arg = [acts, tuple(acts), np.array(acts)][form]
            res = v.step(arg)
            check(len(res) == 4, "wrong-reply", "step returned %d things", len(res))
            obs, r, d, info = res
            for i in range(n):
                o, rr, dd, ii = ref[i].step(acts[i])
                last[i] = o
                if stack:
                    frames[i] = frames[i][1:] + [o]
                check(r[i] == rr and d[i] == dd and info[i] == ii, "wrong-step", "env %d: got %s want %s", i, (r[i], d[i], info[i]), (rr, dd, ii))
            expect_obs(obs, "step")
            ctx.event("step", acts)
        elif name in ("reset", "mask"):
            m = None if name == "reset" else [ch.chance(0.5, "m") for _ in range(n)]
            ctx.event("reset", m)
            arg = m if m is None or ch.chance(0.5, "np") else np.array(m)
            obs = v.reset() if m is None else (v.reset(mask=arg) if stack or ch.chance(0.5, "kw") else v.reset(arg))
            for i in range(n):
                if m is None or not m[i]:
                    last[i] = ref[i].reset()
                    frames[i] = [last[i]] * stack
            expect_obs(obs, "reset(%s)" % m)
        elif name == "seed":
            how = ch.draw(3, "seed-how") if multi else 0
            seeds = [ch.integer(1, 50, "seed") for _ in range(n)]
            if how == 0:
                r = v.seed(seeds)
            elif how == 1:
                seeds = [seeds[0]] * n
                r = v.seed(seeds[0])
            else:
                seeds = [None] * n
                r = v.seed()
            want = [ref[i].seed(seeds[i]) for i in range(n)]
            ctx.event("seed", seeds)
            if multi:
                check(list(r) == want, "wrong-seed", "got %s want %s", r, want)
        elif name == "badseed":
            try:
                v.seed([1] * (n + 1))
            except ValueError:
                pass
            else:
                check(False, "bad-seeds-accepted", "%d seeds for %d envs", n + 1, n)
        elif name == "spec":
            check(v.spec == ref[0].spec, "wrong-spec", "%s", v.spec)
            check(v.action_space == ref[0].action_space and v.num_envs == n, "wrong-spaces", "%s %s", v.action_space, v.num_envs)
            if not stack:
                check(v.observation_space == ref[0].observation_space, "wrong-spaces", "%s", v.observation_space)
        nd["ops"] += 1
        kinds.add(name)

    def main():
        st["main"] = k.current
        if multi:
            base = pfrl.envs.MultiprocessVectorEnv([maker(i) for i in range(n)])
        else:
            base = pfrl.envs.SerialVectorEnv([maker(i)() for i in range(n)])
        v = VectorFrameStack(base, stack, stack_axis=axis) if stack else base
        try:
            op(v, "reset")
            st["started"] = True
            st["armed"] = True
            for _ in range(nops):
                op(v, ch.weighted([("step", 6), ("mask", 3), ("reset", 1), ("seed", 1), ("spec", 1)] + ([("badseed", 1)] if multi else []), "op"))
        except KeyboardInterrupt:
            check(fault, "spurious-interrupt", "")
        except Exception as e:
            if isinstance(e, Violation) or st["raised"] is None:
                raise
        st["armed"] = False
        if k.current.pending is not None:
            k.current.pending = None
        for e in envs.values():
            if st["raised"] != e.i:
                check(not e.closed, "closed-early", "env %d was closed before close()", e.i)
        try:
            v.close()
        except OSError:
            # the pipe of a failed environment's worker may be gone
            check(st["raised"] is not None, "close-failed", "")
            raise
        for p in k.procs[1:]:
            check(not p.alive, "worker-left", "%s still runs after close()", p.name)
        for i in range(n):
            check(i in envs and envs[i].closed == 1, "not-closed-once", "env %d closed %s times", i, envs[i].closed if i in envs else None)
        if multi:
            try:
                v.step([0] * n)
            except AssertionError:
                pass
            else:
                check(False, "usable-after-close", "")
            base.closed = True

    try:
        k.run(main)
    except Violation:
        raise
    except Exception as e:
        raise Violation("unexpected-error", "%s: %s" % (type(e).__name__, e))
    finally:
        ctx.absorb(k)
    for p in k.procs[1:]:
        if st["raised"] is None:
            check(p.exitcode == 0, "worker-failed", "%s: %s", p.exitcode, p.error)
    ctx.nontrivial = nd["ops"] >= 3
    ctx.states.add((n, stack, tuple(sorted(kinds)), fault if (st["raised"] is not None or st["int"]) else None, big))


def multi(ctx):
    _run(ctx, True)


def serial(ctx):
    _run(ctx, False)


SCENARIOS = {"multiprocess": (multi, 3000, 120000), "serial": (serial, 800, 20000)}
