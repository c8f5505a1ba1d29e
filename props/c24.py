import contextlib
import io
import json
import os
import warnings

import numpy as np

from sim.errors import Violation, check

PROPERTY = "C24"
LEVEL = "exploration"
TECH = ("seeded histories of a simulated game (terminations, cut-offs, life losses and transient errors at any frame) under random stacks "
        "of the real environment wrappers; an oracle over the game's own event log predicts every outer step and reset")
RULE = ("One run = one or two simulated games, each under its own stack of real wrappers (make_atari/wrap_deepmind or a random stack), "
        "driven in turns by a caller who resets when told to (or by the real train_agent), while the simulator decides at every frame "
        "whether the game ends, asks for a reset, gains or loses a life, or fails with an error. Every outer step and reset is "
        "compared with the game's event log. 'monitor' compares the statistics Monitor wrote with the log; 'seeded' repeats a history "
        "with the same seed and a disturbed global generator. Non-trivial: an episode ended and another followed. distinct_states "
        "counts (stack, kind of end, point of the end within the frame skip, during reset or not) tuples.")
REAL = ["pfrl.wrappers.atari_wrappers", "pfrl.wrappers.ContinuingTimeLimit", "pfrl.wrappers.RandomizeAction",
        "pfrl.wrappers.ScaleReward", "pfrl.wrappers.CastObservation", "pfrl.wrappers.Render", "pfrl.wrappers.NormalizeActionSpace",
        "pfrl.wrappers.Monitor", "pfrl.utils.env_modifiers", "pfrl.experiments.train_agent", "gym.Wrapper", "cv2"]
STUB = ["the game (frames, rewards, lives, ends decided by the simulator); the agent in 'train'"]
ASSUMPTIONS = ["the observation that comes with a true termination is not used by anybody (as documented in MaxAndSkipEnv)",
               "a failing inner step leaves the game as it was; the caller resets after an error"]


class GameError(RuntimeError):
    pass


class _Ale:
    def __init__(self, g):
        self.g = g

    def lives(self):
        return self.g.lives


def _frame(shape, salt, n):
    """A frame no other moment shows (a fixed function of the moment)."""
    f = np.random.RandomState((salt * 1000003 + n * 7919 + 17) % (2 ** 31)).randint(0, 256, size=shape).astype(np.uint8)
    return f


def make_game(ctx, salt, shape, hazards, max_lives, continuous=None):
    import gym

    class Game(gym.Env):
        metadata = {"render.modes": ["human"]}
        reward_range = (-float("inf"), float("inf"))

        def __init__(self):
            self.action_space = (gym.spaces.Discrete(hazards.get("n_actions", 4)) if continuous is None
                                 else gym.spaces.Box(low=continuous[0], high=continuous[1], dtype=np.float32))
            self.observation_space = gym.spaces.Box(low=0, high=255, shape=shape, dtype=np.uint8)
            self.ale = _Ale(self)
            self.lives = 0
            self.n = 0
            self.log = []
            self.np_random = np.random.RandomState(0)
            self.seeded = None
            self.rendered = 0
            self.closed = 0

        def seed(self, seed=None):
            self.seeded = seed
            self.np_random.seed(seed)
            return [seed]

        def get_action_meanings(self):
            return ["NOOP", "FIRE", "UP", "DOWN", "LEFT", "RIGHT"][: hazards.get("n_actions", 4)]

        def render(self, mode="human", **kw):
            self.rendered += 1

        def close(self):
            self.closed += 1

        def _obs(self):
            self.n += 1
            return _frame(shape, salt, self.n)

        def reset(self):
            self.lives = max_lives
            f = self._obs()
            self.log.append(("reset", f))
            ctx.event("frame", self.n, "game reset")
            return f.copy()

        def step(self, action):
            kind = ctx.ch.weighted(
                [("go", hazards["go"]), ("done", hazards["done"]), ("cut", hazards["cut"]), ("life", hazards["life"]),
                 ("bonus", hazards["bonus"]), ("error", hazards["error"])])
            if kind == "error":
                ctx.fault("game_error")
                self.log.append(("error",))
                raise GameError("simulated environment failure")
            done = cut = False
            if kind == "life":
                if self.lives > 0:
                    self.lives -= 1
                    ctx.fault("life_lost")
                    done = self.lives == 0 and hazards["last_life_ends"]
            elif kind == "bonus":
                self.lives += 1
            elif kind == "done":
                done = True
            elif kind == "cut":
                cut = True
            if done:
                ctx.fault("terminated")
            if cut:
                ctx.fault("cut_off")
            f = self._obs()
            rw = float([0, 1, -1, 0.5, -2, 3][(self.n * 7 + salt) % 6])
            a = np.array(action).copy() if continuous is not None else int(action)
            self.log.append(("step", f, a, rw, done, cut, self.lives))
            ctx.event("frame", self.n, "action", a, "reward", rw, "done" if done else "", "needs_reset" if cut else "", "lives", self.lives)
            info = {"n": self.n}
            if cut:
                info["needs_reset"] = True
            elif self.n % 3 == 0:
                info["needs_reset"] = False
            return f.copy(), rw, done, info

    return Game()


class Layers:
    """What is in the stack, inside out."""

    def __init__(self):
        self.limit = None  # frames, beneath everything
        self.noop = None
        self.skip = 1
        self.maxskip = False
        self.life = False
        self.fire = False
        self.obs = []  # functions applied to a raw frame
        self.rew = []  # functions applied to a reward
        self.outer_limit = None
        self.stack = None
        self.axis = 2
        self.random = 0.0
        self.flicker = False
        self.render = False
        self.act = None
        self.repeat = None
        self.tlimit = None

    def key(self):
        return (self.limit is not None, self.noop is not None, self.skip if self.maxskip else 0, self.life, self.fire, self.stack or 0,
                self.outer_limit is not None, self.random > 0, self.flicker, self.repeat or 0, self.tlimit is not None)


def _warp(order):
    def f(x):
        import cv2

        g = cv2.cvtColor(x, cv2.COLOR_RGB2GRAY)
        g = cv2.resize(g, (84, 84), interpolation=cv2.INTER_AREA)
        return g[None] if order == "chw" else g[:, :, None]
    return f


def _scale(x):
    return x.astype(np.float32) / 255.0


def _cv2():
    from pfrl.wrappers import atari_wrappers as aw

    return aw._is_cv2_available


class Oracle:
    """Predicts every outer call from the game's log."""

    def __init__(self, ctx, game, lay, name):
        self.ctx, self.g, self.l, self.name = ctx, game, lay, name
        self.pos = 0
        self.ended = True  # before the first reset
        self.fresh = True  # no outer step completed since the last reset
        self.since = 0  # frames since the last real reset
        self.lives = 0
        self.outer_steps = 0
        self.frames = None
        self.over = None  # the last outer call said so
        self.episodes = 0
        self.err = False
        self.nouter = 0
        self.given = []  # observations handed out, and what they showed then

    def final(self):
        for obs, arr in self.given:
            check(np.array_equal(np.asarray(obs), arr), "obs-changed-later", "%s: an observation handed out earlier shows something else now",
                  self.name)

    def _events(self, where):
        ev = self.g.log[self.pos:]
        self.pos = len(self.g.log)
        out = []
        for e in ev:
            if e[0] == "error":
                self.err = True
                continue
            if e[0] == "reset":
                out.append(["reset", e[1], self.ended, None])
                self.ended = False
                self.since = 0
            else:
                check(not self.ended, "stepped-after-end", "%s: %s stepped the environment after its episode had ended and before a reset",
                      self.name, where)
                self.since += 1
                cut = e[5] or (self.l.limit is not None and self.since >= self.l.limit)
                end = e[4] or cut
                self.ended = end
                out.append(["step", e[1], e[2], e[3], e[4], cut, e[6]])
                if end:
                    self.ctx.states.add(self.l.key() + (("done" if e[4] else "cut"), len(out) % 4, where))
        return out

    # -- observations -------------------------------------------------------------------
    def _show(self, raw):
        for f in self.l.obs:
            raw = f(raw)
        return raw

    def _is(self, got, raws):
        for r in raws:
            want = self._show(r)
            if got.shape == want.shape and got.dtype == want.dtype and np.array_equal(got, want):
                return True
            if self.l.flicker and got.shape == want.shape and not got.any():
                return True
        return False

    def _split(self, obs, where):
        arr = np.array(obs)
        self.given.append((obs, arr))
        if self.l.stack is None:
            return [arr]
        check(arr.ndim == 3 and arr.shape[self.l.axis] % self.l.stack == 0, "obs-shape", "%s: %s returned a stack of shape %s", self.name,
              where, arr.shape)
        return np.split(arr, self.l.stack, axis=self.l.axis)

    # -- calls ---------------------------------------------------------------------------
    def after_reset(self, obs):
        before_ended, fresh = self.ended, self.fresh
        prev_err = self.err
        self.err = False
        ev = self._events("reset")
        l = self.l
        check(ev, "reset-did-nothing", "%s: reset touched nothing", self.name)
        must = before_ended or not l.life
        may = must or fresh or prev_err
        if must:
            check(ev[0][0] == "reset", "no-real-reset", "%s: reset after the end of an episode did not reset the environment", self.name)
        elif not may:
            check(ev[0][0] == "step", "life-reset", "%s: reset after a lost life (the game goes on) restarted the game", self.name)
        for i, e in enumerate(ev):
            if i and e[0] == "reset":
                check(e[2], "reset-threw-away", "%s: reset threw away a game that had not ended", self.name)
        check(not self.ended, "reset-returned-ended", "%s: reset returned with the episode of the environment already over", self.name)
        acts = [e[2] for e in ev if e[0] == "step"]
        if l.fire:
            check(1 in acts and 2 in acts and acts.index(1) < len(acts) - 1 - acts[::-1].index(2), "no-fire",
                  "%s: reset took actions %s without firing", self.name, acts)
        check(all(a in ((0, 1, 2) if l.fire else (0,)) for a in acts), "reset-acted", "%s: reset took actions %s", self.name, acts)
        if l.noop is None and not l.life and not l.fire:
            check(len(ev) == 1, "reset-acted", "%s: reset took actions %s", self.name, acts)
        if l.noop is not None and ev[0][0] == "reset":
            check(len(ev) > 1 and ev[1][0] == "step" and ev[1][2] == 0, "no-noop", "%s: no no-op after a reset", self.name)
            if not l.fire:
                check(1 <= len(acts) <= l.noop, "noops", "%s: %d no-ops on reset, at most %d allowed",
                      self.name, len(acts), l.noop)
        # what is shown is the state the environment is in
        ok = [ev[-1][1]]
        if ev[-1][0] == "step" and len(ev) > 1 and ev[-2][0] == "step" and l.maxskip and l.skip > 1:
            ok.append(np.maximum(ev[-1][1], ev[-2][1]))
        parts = self._split(obs, "reset")
        for p in parts:
            check(self._is(p, ok), "reset-obs-stale", "%s: reset returned an observation that is not of the current state "
                  "(events since: %s)", self.name, [e[0] for e in ev])
        self.frames = [(ok, False)] * len(parts)
        self.last_lives = self.g.lives
        self.fresh = True
        self.outer_steps = 0
        self.over = False
        self.episodes += 1

    def after_step(self, action, ret):
        obs, reward, done, info = ret
        l = self.l
        ev = self._events("step")
        self.nouter += 1
        n = l.skip if l.maxskip else (l.repeat or 1)
        check(ev and all(e[0] == "step" for e in ev), "step-reset", "%s: step reset the environment", self.name)
        check(len(ev) == n or (len(ev) < n and self.ended), "skip", "%s: one step took %d frames instead of %d", self.name, len(ev), n)
        want_a = action if l.act is None else l.act(action)
        for e in ev:
            if l.act is not None:
                check(np.allclose(e[2], want_a, rtol=1e-5, atol=1e-6), "action", "%s: action %s reached the environment as %s", self.name,
                      action, e[2])
            elif l.random == 0:
                check(e[2] == want_a, "action", "%s: action %s reached the environment as %s", self.name, action, e[2])
            else:
                check(0 <= e[2] < self.g.action_space.n and e[2] == ev[0][2], "action", "%s: random action %s (of %s)", self.name, e[2],
                      [x[2] for x in ev])
        rw = sum(e[3] for e in ev)
        for f in l.rew:
            rw = f(rw)
        check(abs(float(reward) - rw) < 1e-6, "reward", "%s: reward %s, the frames of this step paid %s", self.name, reward, rw)
        gone = ev[-1][4]
        self.outer_steps += 1
        cut = ev[-1][5] or (l.outer_limit is not None and self.outer_steps >= l.outer_limit)
        d = gone
        if l.life and self.g.lives < self.last_lives and self.g.lives > 0:
            d = True
        if l.tlimit is not None and self.outer_steps >= l.tlimit:
            d = True
        self.last_lives = self.g.lives
        check(bool(done) == bool(d), "done", "%s: done=%s instead of %s (game over: %s, lives %d)", self.name, done, d, gone, self.g.lives)
        check(bool(info.get("needs_reset", False)) == bool(cut), "needs-reset", "%s: needs_reset=%s instead of %s", self.name,
              info.get("needs_reset", False), cut)
        check(info.get("n") == self.g.n, "info", "%s: info of frame %s, the game is at %s", self.name, info.get("n"), self.g.n)
        ok = [ev[-1][1]]
        if l.maxskip and l.skip > 1 and len(ev) > 1:
            m = np.maximum(ev[-1][1], ev[-2][1])
            ok = [m] if len(ev) == n else [ev[-1][1], m]
        parts = self._split(obs, "step")
        fr = (self.frames + [(ok, gone)])[-len(parts):]
        for i, (p, (o, g)) in enumerate(zip(parts, fr)):
            check(g or self._is(p, o), "obs", "%s: frame %d of %d in the observation is not what this episode showed (step took %d frames)",
                  self.name, i + 1, len(parts), len(ev))
        self.frames = fr
        self.fresh = False
        self.over = bool(done) or bool(cut)
        return self.over

    def after_error(self):
        self._events("failed call")
        self.over = True
        self.err = True


def _top(env, orc):
    """What the caller talks to."""

    class Top:
        action_space = env.action_space
        observation_space = env.observation_space
        spec = None

        def reset(self):
            try:
                o = env.reset()
            except GameError:
                orc.after_error()
                raise
            orc.after_reset(o)
            return o

        def step(self, a):
            try:
                r = env.step(a)
            except GameError:
                orc.after_error()
                raise
            orc.after_step(a, r)
            return r

        def close(self):
            env.close()

    return Top()


def _hazards(ctx, errors=True):
    rate = ctx.ch.pick([4, 12, 40, 150])
    h = {"go": rate,
         "done": ctx.ch.pick([0, 1, 2, 4]), "cut": ctx.ch.pick([0, 0, 1, 3]), "life": ctx.ch.pick([0, 1, 3, 6]),
         "bonus": ctx.ch.pick([0, 0, 1]), "error": ctx.ch.pick([0, 0, 0, 1]) if errors else 0,
         "last_life_ends": ctx.ch.chance(0.7), "n_actions": ctx.ch.pick([3, 4, 6])}
    if h["done"] + h["cut"] + h["life"] == 0:
        h["done"] = 1
    return h


def build_random(ctx, game, lay):
    import pfrl
    from pfrl.wrappers import atari_wrappers as aw

    ch = ctx.ch
    env = game
    if ch.chance(0.5):
        lay.limit = ch.pick([1, 2, 3, 5, 7, 12, 30])
        env = pfrl.wrappers.ContinuingTimeLimit(env, max_episode_steps=lay.limit)
    if ch.chance(0.5):
        lay.noop = ch.pick([1, 2, 5, 30])
        env = aw.NoopResetEnv(env, noop_max=lay.noop)
    if ch.chance(0.65):
        lay.maxskip = True
        lay.skip = ch.pick([1, 2, 3, 4, 4])
        env = aw.MaxAndSkipEnv(env, skip=lay.skip)
    if ch.chance(0.6):
        lay.life = True
        env = aw.EpisodicLifeEnv(env)
    if ch.chance(0.4):
        lay.fire = True
        env = aw.FireResetEnv(env)
    order = ch.pick(["hwc", "chw"])
    if _cv2() and ch.chance(0.25):
        env = aw.WarpFrame(env, channel_order=order)
        lay.obs.append(_warp(order))
    scaled = ch.chance(0.3)
    if scaled:
        env = aw.ScaledFloatFrame(env)
        lay.obs.append(_scale)
    if ch.chance(0.3):
        dt = ch.pick([np.float32, np.float64, np.int32]) if not scaled else np.float32
        env = pfrl.wrappers.CastObservationToFloat32(env) if dt is np.float32 and ch.chance(0.5) else pfrl.wrappers.CastObservation(env, dt)
        lay.obs.append(lambda x, dt=dt: x.astype(dt))
    for _ in range(ch.weighted([(0, 2), (1, 2), (2, 1)])):
        if ch.chance(0.5):
            env = aw.ClipRewardEnv(env)
            lay.rew.append(lambda r: (r > 0) - (r < 0))
        else:
            s = ch.pick([0.1, 2.0, -1.0, 0.01])
            env = pfrl.wrappers.ScaleReward(env, s)
            lay.rew.append(lambda r, s=s: r * s)
    if ch.chance(0.15):
        env = aw.FlickerFrame(env)
        lay.flicker = True
    if ch.chance(0.2):
        lay.random = ch.pick([0.0, 0.3, 1.0])
        env = pfrl.wrappers.RandomizeAction(env, lay.random)
        env.seed(ch.integer(0, 1000))
    if ch.chance(0.2):
        lay.render = True
        env = pfrl.wrappers.Render(env)
    if ch.chance(0.5):
        lay.stack = ch.pick([1, 2, 4])
        lay.axis = {"hwc": 2, "chw": 0}[order]
        env = aw.FrameStack(env, lay.stack, channel_order=order)
    if ch.chance(0.2):
        lay.outer_limit = ch.pick([1, 2, 5])
        env = pfrl.wrappers.ContinuingTimeLimit(env, max_episode_steps=lay.outer_limit)
    return env


def build_factory(ctx, game, lay):
    """The stack of the documentation: make_atari and wrap_deepmind."""
    import gym
    from gym.envs.registration import registry
    from pfrl.wrappers import atari_wrappers as aw

    ch = ctx.ch
    env_id = "VerifSimNoFrameskip-v0"
    registry.env_specs.pop(env_id, None)
    gym.register(env_id, entry_point=lambda: game, max_episode_steps=3)
    lay.limit = ch.pick([None, 5, 17, 40, 108000])
    env = aw.make_atari(env_id, max_frames=lay.limit)
    registry.env_specs.pop(env_id, None)
    lay.noop, lay.maxskip, lay.skip = 30, True, 4
    kw = dict(episode_life=ch.chance(0.7), clip_rewards=ch.chance(0.7), frame_stack=ch.chance(0.7), scale=ch.chance(0.3),
              fire_reset=ch.chance(0.5), channel_order=ch.pick(["chw", "hwc"]), flicker=ch.chance(0.15))
    env = aw.wrap_deepmind(env, **kw)
    lay.life, lay.fire, lay.flicker = kw["episode_life"], kw["fire_reset"], kw["flicker"]
    lay.obs.append(_warp(kw["channel_order"]))
    if kw["scale"]:
        lay.obs.append(_scale)
    if kw["clip_rewards"]:
        lay.rew.append(lambda r: (r > 0) - (r < 0))
    if kw["frame_stack"]:
        lay.stack, lay.axis = 4, {"hwc": 2, "chw": 0}[kw["channel_order"]]
    return env


def _make(ctx, i, factory, errors=True):
    h = _hazards(ctx, errors)
    salt = ctx.ch.integer(0, 10 ** 6)
    shape = ctx.ch.pick([(2, 3, 3), (4, 2, 3), (1, 1, 3)]) if not factory else (4, 3, 3)
    game = make_game(ctx, salt, shape, h, ctx.ch.pick([0, 1, 3, 5]))
    game.seed(salt % 1000)
    lay = Layers()
    env = (build_factory if factory else build_random)(ctx, game, lay)
    orc = Oracle(ctx, game, lay, "env %d" % i)
    return game, lay, env, orc


class Caller:
    """Resets when told to, sometimes earlier, and after an error."""

    def __init__(self, ctx, top, orc, p_early):
        self.ctx, self.top, self.orc, self.p = ctx, top, orc, p_early
        self.need = True

    def move(self):
        ch = self.ctx.ch
        try:
            if self.need or (self.p and ch.chance(self.p)):
                self.ctx.event("reset")
                self.need = True
                self.top.reset()
                self.need = False
            else:
                n = self.orc.g.action_space.n
                a = ch.integer(0, n - 1)
                self.ctx.event("step", a)
                self.top.step(a)
                self.need = self.orc.over
        except GameError:
            self.need = True


def _limits(ctx, games, cap):
    return sum(len(g.log) for g in games) < cap


def stacks(ctx):
    _stacks(ctx, False)


def atari(ctx):
    if not _cv2():
        return
    _stacks(ctx, True)


def _stacks(ctx, factory):
    ch = ctx.ch
    n = 1 if factory else ch.pick([1, 1, 2])
    envs = [_make(ctx, i, factory) for i in range(n)]
    callers = []
    for game, lay, env, orc in envs:
        callers.append(Caller(ctx, _top(env, orc), orc, ch.pick([0, 0, 0.05, 0.3])))
    for _ in range(60 if not factory else 40):
        if not _limits(ctx, [e[0] for e in envs], 500):
            break
        callers[ch.integer(0, n - 1) if n > 1 else 0].move()
    for game, lay, env, orc in envs:
        orc.final()
        if lay.render:
            check(game.rendered >= orc.nouter + orc.episodes, "render", "rendered %d times in %d calls", game.rendered,
                  orc.nouter + orc.episodes)
        env.close()
        check(game.closed >= 1, "close", "close did not reach the environment")
        if orc.episodes > 1:
            ctx.nontrivial = True
        ctx.digest_only(repr([(e[0],) + tuple(e[2:]) for e in game.log]))


class _Agent:
    def __init__(self, ctx, n):
        self.ctx, self.n, self.training = ctx, n, True

    def act(self, obs):
        return self.ctx.ch.integer(0, self.n - 1)

    def observe(self, obs, reward, done, reset):
        pass

    def get_statistics(self):
        return []

    def save(self, d):
        os.makedirs(d, exist_ok=True)


def train(ctx):
    """The caller is the real training loop."""
    from pfrl import experiments

    ch = ctx.ch
    game, lay, env, orc = _make(ctx, 0, ch.chance(0.3) and _cv2(), errors=False)
    top = _top(env, orc)
    experiments.train_agent(_Agent(ctx, game.action_space.n), top, steps=ch.pick([5, 20, 40]), outdir=ctx.scratch(),
                            max_episode_len=ch.pick([None, 1, 3, 8]))
    orc.final()
    ctx.digest_only(repr([(e[0],) + tuple(e[2:]) for e in game.log]))
    if orc.episodes > 1:
        ctx.nontrivial = True


def modifiers(ctx):
    """Continuous actions, and the functions of env_modifiers."""
    import pfrl
    from pfrl.utils import env_modifiers as em

    ch = ctx.ch
    h = _hazards(ctx)
    salt = ch.integer(0, 10 ** 6)
    dim = ch.pick([1, 2, 3])
    cont = ch.chance(0.5)
    low = np.array([[-1.0, -3.0, 0.5, 2.0][ch.integer(0, 3)] for _ in range(dim)], dtype=np.float32)
    high = low + np.array([[0.5, 1.0, 4.0][ch.integer(0, 2)] for _ in range(dim)], dtype=np.float32)
    game = make_game(ctx, salt, (3,), h, ch.pick([0, 3]), continuous=(low, high) if cont else None)
    lay = Layers()
    env = game
    used = ["cont" if cont else "disc"]
    if ch.chance(0.4):
        lay.limit = ch.pick([1, 3, 7])
        env = pfrl.wrappers.ContinuingTimeLimit(env, lay.limit)
        used.append("limit")
    if ch.chance(0.4):
        lay.repeat = ch.pick([1, 2, 4])
        em.make_action_repeated(env, lay.repeat)
        used.append("repeat")
    if ch.chance(0.4):
        lo, hi = ch.pick([(-1, 1), (0, 2), (-0.5, 0.25)])
        em.make_reward_clipped(env, lo, hi)
        lay.rew.append(lambda r: min(max(r, lo), hi))
        used.append("clip")
    if ch.chance(0.4):
        em.make_reward_filtered(env, lambda r: 3 * r + 1)
        lay.rew.append(lambda r: 3 * r + 1)
        used.append("filter")
    if ch.chance(0.3):
        lay.tlimit = ch.pick([1, 2, 6])
        em.make_timestep_limited(env, lay.tlimit)
        used.append("tlimit")
    nrender = 0
    if ch.chance(0.2):
        em.make_rendered(env)
        nrender = 1
    if cont:
        if ch.chance(0.7):
            env = pfrl.wrappers.NormalizeActionSpace(env)
            check(np.array_equal(env.action_space.low, -np.ones(dim)) and np.array_equal(env.action_space.high, np.ones(dim)), "space",
                  "normalised action space is %s..%s", env.action_space.low, env.action_space.high)
            lay.act = lambda a: low + (a.astype(np.float64) + 1) / 2 * (high - low)
            used.append("normalise")
        else:
            em.make_action_filtered(env, lambda a: np.clip(a, low, high))
            lay.act = lambda a: np.clip(a, low, high)
            used.append("afilter")
    orc = Oracle(ctx, game, lay, "env")
    top = _top(env, orc)
    need = True
    p = ch.pick([0, 0.1])
    for _ in range(30):
        try:
            if need or (p and ch.chance(p)):
                need = True
                top.reset()
                need = False
            else:
                if cont:
                    a = np.array([ch.pick([-1.0, 1.0, 0.0, 0.37, -0.8]) for _ in range(dim)], dtype=np.float32)
                    keep = a.copy()
                else:
                    a = keep = ch.integer(0, game.action_space.n - 1)
                top.step(a)
                check(np.array_equal(a, keep), "action-mutated", "the caller's action array was changed to %s", a)
                need = orc.over
        except GameError:
            need = True
    if nrender:
        check(game.rendered >= orc.nouter, "render", "rendered %d times in %d steps", game.rendered, orc.nouter)
    if orc.episodes > 1:
        ctx.nontrivial = True
    ctx.states.add(tuple(used))


def monitor(ctx):
    """Monitor records every episode exactly once, cut ones too."""
    import pfrl
    from gym.wrappers import monitor as gm

    ch = ctx.ch
    h = _hazards(ctx)
    game = make_game(ctx, ch.integer(0, 10 ** 6), (3,), h, 3)
    lay = Layers()
    env = game
    if ch.chance(0.5):
        lay.limit = ch.pick([1, 2, 5])
        env = pfrl.wrappers.ContinuingTimeLimit(env, lay.limit)
    d = os.path.join(ctx.scratch(), "mon")
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        env = pfrl.wrappers.Monitor(env, d, video_callable=False, write_upon_reset=ch.chance(0.5), mode=ch.pick([None, "evaluation", "training"]))
        orc = Oracle(ctx, game, lay, "monitored")
        top = _top(env, orc)
        need = True
        lens, rews = [], []
        cur = None
        p = ch.pick([0, 0.15, 0.5])
        for _ in range(ch.pick([5, 30])):
            try:
                if need or (p and ch.chance(p)):
                    need = True
                    top.reset()
                    if cur is not None and cur[0]:
                        lens.append(cur[0])
                        rews.append(cur[1])
                    cur = [0, 0.0]
                    need = False
                else:
                    _, r, _, _ = top.step(ch.integer(0, 2))
                    cur[0] += 1
                    cur[1] += r
                    need = orc.over
            except GameError:
                need = True
        if cur is not None and cur[0]:
            lens.append(cur[0])
            rews.append(cur[1])
        got = (list(env.get_episode_lengths()), list(env.get_episode_rewards()))
        env.close()
        again = ch.chance(0.3)
        if again:
            env.close()
    files = [f for f in os.listdir(d) if "episode_batch" in f]
    check(len(files) == 1, "monitor-files", "%d statistics files", len(files))
    with open(os.path.join(d, files[0])) as f:
        st = json.load(f)
    check(st["episode_lengths"] == lens, "monitor-lengths", "Monitor recorded episodes of length %s, there were %s", st["episode_lengths"], lens)
    check(np.allclose(st["episode_rewards"], rews), "monitor-rewards", "Monitor recorded returns %s, they were %s", st["episode_rewards"], rews)
    check(lens[: len(got[0])] == got[0] and len(got[0]) >= len(lens) - 1, "monitor-online", "before closing: %s of %s", got[0], lens)
    if len(lens) > 1:
        ctx.nontrivial = True
    ctx.states.add((lay.limit is not None, len(lens) > 2, any(x == 1 for x in lens)))
    ctx.digest_only(repr(st["episode_lengths"]))


class _Script:
    """Choices of a history to be repeated: derived from a number, not drawn one by one."""

    def __init__(self, ctx, seed):
        self.ctx = ctx
        self.r = np.random.RandomState(seed)
        self.ch = self

    def weighted(self, opts):
        tot = sum(w for _, w in opts)
        x = self.r.randint(tot)
        for v, w in opts:
            x -= w
            if x < 0:
                return v

    def event(self, *a):
        pass

    def fault(self, kind):
        self.ctx.fault(kind)


def seeded(ctx):
    """Random wrappers depend on the environment's seed alone; what they draw covers what is documented."""
    import pfrl
    from pfrl.wrappers import atari_wrappers as aw

    ch = ctx.ch
    seed = ch.integer(0, 10 ** 6)
    noop = ch.pick([2, 3, 5])
    frac = ch.pick([0.0, 0.5, 1.0])
    flick = ch.chance(0.5)
    hz = {"go": 30, "done": ch.pick([0, 1]), "cut": 0, "life": 0, "bonus": 0, "error": 0, "last_life_ends": True, "n_actions": 3}
    reps = 60

    def run(disturb, other=0):
        game = make_game(_Script(ctx, seed), 7, (2, 2, 3), hz, 3)
        env = pfrl.wrappers.RandomizeAction(aw.NoopResetEnv(game, noop_max=noop), frac)
        if flick:
            env = aw.FlickerFrame(env)
        env.seed(seed + other)
        shown = []
        for k in range(reps):
            if disturb:
                np.random.seed((k * disturb) % 9999)
            shown.append(env.reset().tobytes())
            for j in range(2):
                o, r, d, i = env.step((k + j) % 3)
                shown.append(o.tobytes())
                if d:
                    break
        return game, shown

    import random

    st, st2 = np.random.get_state(), random.getstate()
    g1, s1 = run(0)
    g2, s2 = run(ch.integer(1, 99))
    g3, s3 = run(0, other=1 + ch.integer(0, 99))
    np.random.set_state(st)
    random.setstate(st2)
    a1 = [e[2] if e[0] == "step" else "r" for e in g1.log]
    a2 = [e[2] if e[0] == "step" else "r" for e in g2.log]
    a3 = [e[2] if e[0] == "step" else "r" for e in g3.log]
    check(a1 == a2 and s1 == s2, "seed-ignored", "the same seed gave another history when the global generator was disturbed "
          "(first difference at event %s)", next((i for i, (x, y) in enumerate(zip(a1, a2)) if x != y), None))
    check(a1 != a3, "seed-ignored", "another seed gave the same no-ops and random actions in %d episodes", reps)
    if hz["done"] == 0:
        # no-ops of each reset: 'r', then the no-ops, then exactly two steps
        segs, cur = [], None
        for x in a1:
            if x == "r":
                if cur is not None:
                    segs.append(cur)
                cur = []
            else:
                cur.append(x)
        segs.append(cur)
        counts = sorted({len(s) - 2 for s in segs})
        check(counts[0] >= 1 and counts[-1] <= noop, "noops", "numbers of no-ops %s outside 1..%d", counts, noop)
        check(counts == list(range(1, noop + 1)), "noops", "numbers of no-ops in %d resets were only %s of 1..%d", reps, counts, noop)
        changed = sum(s[-2:] != [k % 3, (k + 1) % 3] for k, s in enumerate(segs))
        check((changed == 0) == (frac == 0.0), "random-actions", "random_fraction=%s changed actions in %d of %d episodes", frac, changed, reps)
        if frac == 1.0:
            check({a for s in segs for a in s[-2:]} == {0, 1, 2}, "random-actions", "random_fraction=1 chose only %s",
                  {a for s in segs for a in s[-2:]})
    if flick:
        zero = bytes(12)
        k = sum(x == zero for x in s1)
        check(0.2 < k / len(s1) < 0.8, "flicker", "%d of %d frames flickered", k, len(s1))
    ctx.nontrivial = True
    ctx.states.add((noop, frac, flick))
    ctx.digest_only(repr(a1))


SCENARIOS = {"stacks": (stacks, 500, 20000), "atari": (atari, 120, 5000), "train": (train, 120, 5000), "modifiers": (modifiers, 200, 6000),
             "monitor": (monitor, 120, 4000), "seeded": (seeded, 30, 600)}
