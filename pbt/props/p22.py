"""P22: environment wrappers change only what they document."""
import glob
import json
import logging
import os

import gym
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation, require, require_close, require_eq, require_freq, scratch
from pbt.gens import flag, pick, seeds, sized_list, spread, tup
from pbt.props import p21

import pfrl
from pfrl import wrappers as W
from pfrl.utils import env_modifiers as EM
from pfrl.wrappers import atari_wrappers as AW

logging.getLogger("pfrl").setLevel(logging.CRITICAL)
logging.getLogger("gym").setLevel(logging.CRITICAL)
gym.logger.set_level(50)

RULE = """'stack': a random stack of wrappers and environment modifiers over a scripted game (frames, rewards, ends,
reset requests and lives are all unique to the game, episode and step) is driven by a random history next to
an independent model of each wrapper stacked over a twin of the game; results, attributes and every call that
reaches the game have to agree, and observations returned earlier must not change. 'random': wrappers that draw random
numbers: their share of replaced actions or frames, range of no-ops, reproducibility. 'warp', 'deepmind', 'atari',
'normalize': formulas and compositions over generated frames, spaces and actions. 'monitor': the recorded episodes. Non-trivial: two or more
wrappers and two or more episodes ('stack'), a value strictly inside the range elsewhere."""
ASSUMPTIONS = ["the observation that comes with done=True through a frame-skipping wrapper is "
               "unspecified, as its comment says"]


class Ale:
    def __init__(self, g):
        self.g = g

    def lives(self):
        return self.g.n_lives


class Game(gym.Env):
    """A scripted Atari-like game. script: per episode [length, kind, steps at which a life is lost, or won (plus 100)].
    Refuses to be stepped outside of an episode."""
    metadata = {"render.modes": ["human"]}

    def __init__(self, script, size=(2, 2), box=None, salt=0):
        self.script, self.size, self.salt = script, tuple(size), salt
        self.ep, self.k, self.over = -1, 0, True
        self.n_lives = 0
        self.log = []
        self.observation_space = gym.spaces.Box(0, 255, self.size + (3,), np.uint8)
        self.action_space = box or gym.spaces.Discrete(4)
        self.ale = Ale(self)
        self.np_random = np.random.RandomState(salt)
        self.base = np.arange(1, int(np.prod(self.observation_space.shape)) + 1,
                              dtype=np.uint64).reshape(self.observation_space.shape)

    def get_action_meanings(self):
        return ["NOOP", "FIRE", "UP", "DOWN"]

    def frame(self):
        h = (self.ep * 7919 + self.k * 104729 + self.salt * 31 + 12345) * 2 + 1
        return ((self.base * np.uint64(h) * np.uint64(2654435761)) >> np.uint64(13)).astype(np.uint8)

    def reset(self, **kw):
        self.ep, self.k, self.over = self.ep + 1, 0, False
        self.n_lives = 3
        self.log.append(("reset",))
        return self.frame()

    def step(self, a):
        if self.over:
            raise Violation("the game is stepped outside of an episode: %s" % self.log[-5:])
        self.k += 1
        self.log.append(("step", np.array(a).tolist()))
        length, kind, hits = self.script[self.ep % len(self.script)]
        if self.k in hits:
            self.n_lives -= 1
        if self.k + 100 in hits:
            self.n_lives += 1
        end = self.k >= length
        done = end and kind in (0, 2)
        info = {"k": self.k, "ep": self.ep}
        if end and kind in (1, 2):
            info["needs_reset"] = True
        elif self.k % 3 == 0:
            info["needs_reset"] = False
        if end:
            self.over = True
            if done:
                self.n_lives = 0
        r = ((self.ep * 37 + self.k * 101 + self.salt) % 41 - 20) / 4.0 * (1.0, 1e-5, 1.0, 1e4)[self.salt % 4]
        return self.frame(), r, done, info

    def render(self, mode="human", **k):
        self.log.append(("render", mode, tuple(sorted(k.items()))))

    def close(self):
        self.log.append(("close",))

    def seed(self, s=None):
        self.np_random = np.random.RandomState(s)
        return [s]


# ------------------------------------------------------------------ models (plain objects)
class Ref:
    def __init__(self, inner):
        self.inner = inner

    def reset(self):
        return self.inner.reset()

    def step(self, a):
        return self.inner.step(a)

    @property
    def game(self):
        return self.inner if isinstance(self.inner, Game) else self.inner.game


def ended(done, info):
    return bool(done) or bool(info.get("needs_reset", False))


class RNoop(Ref):
    def __init__(self, inner, n):
        super().__init__(inner)
        self.n = n

    def reset(self):
        obs = self.inner.reset()
        for _ in range(self.n):
            obs, _, d, i = self.inner.step(0)
            if ended(d, i):
                obs = self.inner.reset()
        return obs


class RFire(Ref):
    def reset(self):
        obs = self.inner.reset()
        for a in (1, 2):
            obs, _, d, i = self.inner.step(a)
            if ended(d, i):
                obs = self.inner.reset()
        return obs


class RLife(Ref):
    def __init__(self, inner):
        super().__init__(inner)
        self.real, self.lives = True, 0

    def step(self, a):
        obs, r, d, i = self.inner.step(a)
        self.real = ended(d, i)
        new = self.game.ale.lives()
        lost = 0 < new < self.lives
        self.lives = new
        return obs, r, bool(d or lost), i

    def reset(self):
        if self.real:
            obs = self.inner.reset()
        else:
            obs, _, d, i = self.inner.step(0)
            if ended(d, i):
                obs = self.inner.reset()
        self.lives = self.game.ale.lives()
        return obs


class RSkip(Ref):
    def __init__(self, inner, n):
        super().__init__(inner)
        self.n = n

    def step(self, a):
        seen, total = [], 0.0
        for _ in range(self.n):
            o, r, d, i = self.inner.step(a)
            seen.append(o)
            total += r
            if ended(d, i):
                break
        if d:       # what is returned at the end of an episode is not specified
            return None, total, d, i
        m = seen[-1] if len(seen) == 1 else np.maximum(seen[-1], seen[-2])
        return m, total, d, i


class RMap(Ref):
    """Applies functions to observations, rewards and actions."""
    box = None

    def __init__(self, inner, obs=None, rew=None, act=None):
        super().__init__(inner)
        self.o = obs or (lambda x: x)
        self.r = rew or (lambda x: x)
        self.a = act or (lambda x: x)

    def reset(self):
        return self.o(self.inner.reset())

    def step(self, a):
        o, r, d, i = self.inner.step(self.a(a))
        if o is None and self.box is not None:
            self.box.clear()
        return (None if o is None else self.o(o)), self.r(r), d, i


class RStack(Ref):
    def __init__(self, inner, k, axis):
        super().__init__(inner)
        self.k, self.axis = k, axis
        self.f = []

    def get(self):
        if any(x is None for x in self.f):
            return None
        return np.concatenate([np.asarray(x) for x in self.f], axis=self.axis)

    def reset(self):
        self.f = [self.inner.reset()] * self.k
        return self.get()

    def step(self, a):
        o, r, d, i = self.inner.step(a)
        self.f = self.f[1:] + [o]
        return self.get(), r, d, i


class RLimit(Ref):
    def __init__(self, inner, n, fake):
        super().__init__(inner)
        self.n, self.fake, self.t = n, fake, 0

    def reset(self):
        self.t = 0
        return self.inner.reset()

    def step(self, a):
        o, r, d, i = self.inner.step(a)
        self.t += 1
        if self.t >= self.n:
            if self.fake:
                d = True
            else:
                i = dict(i, needs_reset=True)
        return o, r, d, i


class RRepeat(Ref):
    def __init__(self, inner, n):
        super().__init__(inner)
        self.n = n

    def step(self, a):
        total = 0
        for _ in range(self.n):
            o, r, d, i = self.inner.step(a)
            total += r
            if ended(d, i):
                break
        return o, total, d, i


class RRender(Ref):
    def __init__(self, inner, on_reset, kw):
        super().__init__(inner)
        self.on_reset, self.kw = on_reset, kw

    def reset(self):
        o = self.inner.reset()
        if self.on_reset:
            self.game.render(**self.kw)
        return o

    def step(self, a):
        out = self.inner.step(a)
        self.game.render(**self.kw)
        return out


# ------------------------------------------------------------------ stacks
def patched(f):
    def go(env, *a):
        f(env, *a)
        return env
    return go


def build(spec, real, ref, attrs):
    """One more layer on the real environment and on the model."""
    kind, p = spec
    if kind == "noop":
        real = AW.NoopResetEnv(real, noop_max=30)
        real.override_num_noops = p
        return real, RNoop(ref, p)
    if kind == "fire":
        return AW.FireResetEnv(real), RFire(ref)
    if kind == "life":
        return AW.EpisodicLifeEnv(real), RLife(ref)
    if kind == "skip":
        return AW.MaxAndSkipEnv(real, skip=p), RSkip(ref, p)
    if kind == "clip":
        return AW.ClipRewardEnv(real), RMap(ref, rew=lambda r: float((r > 0) - (r < 0)))
    if kind == "stack":
        return AW.FrameStack(real, p, channel_order="hwc"), RStack(ref, p, 2)
    if kind == "stackc":
        return AW.FrameStack(real, p, channel_order="chw"), RStack(ref, p, 0)
    if kind == "scale01":
        return AW.ScaledFloatFrame(real), RMap(ref, obs=lambda o: (
            np.asarray(o).astype(np.float32) / 255.0).astype(np.float32))
    if kind == "cast":
        dt = ["float32", "float64", "int32", "float16"][p % 4]
        real = W.CastObservation(real, dt) if p % 5 else W.CastObservationToFloat32(real)
        dt = dt if p % 5 else "float32"
        box = {}

        def obs(o):
            box["v"] = np.array(o)
            return np.asarray(o).astype(dt)
        attrs.append(("original_observation", real, box))
        ref = RMap(ref, obs=obs)
        ref.box = box
        return real, ref
    if kind == "reward":
        sc = [0.5, -2.0, 0.01, 3.0, 0.0][p % 5]
        real = W.ScaleReward(real, sc)
        box = {}

        def rew(r):
            box["v"] = r
            return sc * r
        attrs.append(("original_reward", real, box))
        return real, RMap(ref, rew=rew)
    if kind == "limit":
        return W.ContinuingTimeLimit(real, max_episode_steps=p), RLimit(ref, p, False)
    if kind == "render":
        kw = {"mode": "human"} if p % 2 else {}
        return W.Render(real, **kw), RRender(ref, True, kw)
    if kind == "m_limit":
        EM.make_timestep_limited(real, p)
        return real, RLimit(ref, p, True)
    if kind == "m_act":
        EM.make_action_filtered(real, lambda a: (a + p) % 4)
        return real, RMap(ref, act=lambda a: (a + p) % 4)
    if kind == "m_rew":
        EM.make_reward_filtered(real, lambda r: r * 2 + p)
        return real, RMap(ref, rew=lambda r: r * 2 + p)
    if kind == "m_clip":
        EM.make_reward_clipped(real, -p / 4.0, p / 8.0)
        return real, RMap(ref, rew=lambda r: min(max(r, -p / 4.0), p / 8.0))
    if kind == "m_repeat":
        EM.make_action_repeated(real, p)
        return real, RRepeat(ref, p)
    if kind == "m_render":
        EM.make_rendered(real)
        return real, RRender(ref, False, {})
    raise AssertionError(kind)


KINDS = ["noop", "fire", "life", "skip", "clip", "stack", "stackc", "scale01", "cast", "reward",
         "limit", "render", "m_limit", "m_act", "m_rew", "m_clip", "m_repeat", "m_render"]


def legal(layers):
    """Frame-based layers need raw frames below them; a frame stack is not put on another."""
    out, stacked, floaty = [], False, False
    for k, p in layers:
        if k == "skip" and (stacked or floaty):
            continue
        if k in ("stack", "stackc"):
            if stacked:
                continue
            stacked = True
        if k == "cast" and stacked:
            continue
        if k in ("scale01", "cast"):
            floaty = True
            if stacked:
                continue
        out.append((k, p))
    return out


def run_stack(c):
    script = [[n, k, hits] for n, k, hits in c["script"]]
    g1, g2 = Game(script, salt=c["salt"]), Game(script, salt=c["salt"])
    real, ref, attrs = g1, g2, []
    layers = legal(c["layers"])
    for sp in layers:
        real, ref = build(sp, real, ref, attrs)
    kept = []
    episodes = 0

    def same_obs(o, w, what):
        if w is None:
            return
        g = np.asarray(o)
        w = np.asarray(w)
        require(g.shape == w.shape and g.dtype == w.dtype, "%s: observation of shape %s and type %s, "
                "expected %s, %s", what, g.shape, g.dtype, w.shape, w.dtype)
        require(np.array_equal(g, w) or np.allclose(g.astype(float), w.astype(float), rtol=1e-6),
                "%s: observation %s, expected %s", what, g.ravel()[:8], w.ravel()[:8])
        space = real.observation_space
        if not any(k == "cast" for k, _ in layers):
            require_eq(tuple(space.shape), g.shape, "%s: shape of the observation space" % what)
        kept.append((o, w.copy(), what))

    def logs(what):
        require_eq(g1.log, g2.log, "%s: calls that reach the game" % what)
        for name, env, box in attrs:
            if "v" in box:
                v = getattr(env, name)
                if name == "original_observation":
                    if box["v"].dtype != object:
                        require(np.array_equal(np.asarray(v), box["v"]), "%s: %s", what, name)
                else:
                    require(v is not None and abs(float(v) - float(box["v"])) < 1e-9, "%s: %s is %s, "
                            "expected %s", what, name, v, box["v"])

    over = True
    for t, (a, force) in enumerate(c["acts"]):
        what = "call %d through %s" % (t, [k for k, _ in layers])
        if over or force:
            o, w = real.reset(), ref.reset()
            episodes += 1
            same_obs(o, w, what + " (reset)")
            logs(what)
        o, r, d, i = real.step(a)
        w, r2, d2, i2 = ref.step(a)
        require(bool(d) == bool(d2), "%s: done is %s, expected %s", what, d, d2)
        require(abs(float(r) - float(r2)) <= 1e-9 + 1e-9 * abs(float(r2)), "%s: reward %s, expected "
                "%s", what, r, r2)
        require_eq({k: v for k, v in i.items() if v is not False},
                   {k: v for k, v in i2.items() if v is not False}, "%s: info" % what)
        same_obs(o, w, what)
        logs(what)
        over = ended(d2, i2) or g2.over
    for o, w, what in kept:
        for _ in range(2):
            require(np.allclose(np.asarray(o).astype(float), w.astype(float), rtol=1e-6),
                    "the observation returned by %s has changed since", what)
    return (["nontrivial"] if len(layers) >= 2 and episodes >= 2 else []) + sorted(
        {k for k, _ in layers})


# ------------------------------------------------------------------ random wrappers
def run_random(c):
    game = Game([[10 ** 6, 0, []]], salt=c["salt"])
    T = 1500
    if c["kind"] == "randomize":
        env = W.RandomizeAction(game, c["frac"])
        env.seed(c["salt"])
        env.reset()
        for t in range(T):
            env.step(3)
        acts = [x[1] for x in game.log if x[0] == "step"]
        p = np.full(4, c["frac"] / 4)
        p[3] += 1 - c["frac"]
        require_freq(np.bincount(acts, minlength=4), p, T, "actions that reach the game")
        g2 = Game([[10 ** 6, 0, []]], salt=c["salt"])
        env2 = W.RandomizeAction(g2, c["frac"])
        env2.seed(c["salt"])
        env2.reset()
        for t in range(50):
            env2.step(3)
        require_eq([x[1] for x in g2.log if x[0] == "step"], acts[:50],
                   "actions with the same seed")
        require(game.np_random is not None and game.np_random.rand() == np.random.RandomState(
            c["salt"]).rand(), "the wrapped game is not seeded")
        return ["nontrivial"] if 0 < c["frac"] < 1 else []
    if c["kind"] == "flicker":
        env = AW.FlickerFrame(game)
        twin = Game([[10 ** 6, 0, []]], salt=c["salt"])
        obs, ref = env.reset(), twin.reset()
        n = 0
        for t in range(T):
            z = not obs.any()
            require(z or np.array_equal(obs, ref), "a flickering frame is neither black nor the frame")
            require(obs.shape == ref.shape and obs.dtype == ref.dtype, "shape or type of a frame "
                    "changes")
            n += z
            obs, r, d, i = env.step(0)
            ref, r2, d2, i2 = twin.step(0)
            require_eq((r, d, i), (r2, d2, i2), "reward, end and info through FlickerFrame")
        require_freq(np.array([n]), np.array([0.5]), T, "black frames")
        return ["nontrivial"]
    # no-ops at reset
    m = c["noop"]
    game = Game([[10 ** 6, 0, []]], salt=c["salt"])
    env = AW.NoopResetEnv(game, noop_max=m)
    counts = np.zeros(m + 1)
    n = 800
    for t in range(n):
        k = len(game.log)
        o = env.reset()
        calls = game.log[k:]
        require_eq(calls[0], ("reset",), "first call of a reset")
        steps = calls[1:]
        require(all(x == ("step", 0) for x in steps), "other calls than no-ops: %s", steps)
        require(1 <= len(steps) <= m, "%d no-ops with a maximum of %d", len(steps), m)
        counts[len(steps)] += 1
        require(np.array_equal(o, game.frame()), "the observation is not the last frame")
    require_freq(counts[1:], np.full(m, 1.0 / m), n, "numbers of no-ops")
    return ["nontrivial"] if m > 1 else []


# ------------------------------------------------------------------ formulas
def run_warp(c):
    h, w = 84 * c["fy"], 84 * c["fx"]
    game = Game([[10 ** 6, 0, []]], size=(h, w), salt=c["salt"])
    r = np.random.RandomState(c["salt"])
    img = {"noise": r.randint(0, 256, (h, w, 3)), "flat": np.full((h, w, 3), 0) + r.randint(
        0, 256, (1, 1, 3)), "rows": np.zeros((h, w, 3), int) + r.randint(0, 256, (h, 1, 3)),
        "cols": np.zeros((h, w, 3), int) + r.randint(0, 256, (1, w, 3))}[c["img"]].astype(np.uint8)
    env = AW.WarpFrame(game, channel_order=c["order"])
    game.frame = lambda: img.copy()
    for o in (env.reset(), env.step(0)[0]):
        gray = img.astype(float) @ np.array([0.299, 0.587, 0.114])
        want = gray.reshape(84, c["fy"], 84, c["fx"]).mean((1, 3))
        require_eq(o.shape, (84, 84, 1) if c["order"] == "hwc" else (1, 84, 84), "shape")
        require_eq(o.dtype, np.dtype("uint8"), "type")
        require(env.observation_space.contains(o), "frame outside of its space")
        err = np.abs(o.reshape(84, 84).astype(float) - want).max()
        require(err <= 1.6, "warped frame is off by %.2f", err)
    return ["nontrivial"] if c["img"] != "flat" else []


def run_deepmind(c):
    """wrap_deepmind is the composition of its parts."""
    script = [[n, k, hits] for n, k, hits in c["script"]]
    g1, g2 = (Game(script, size=(84, 84), salt=c["salt"]) for _ in range(2))
    ref = g2
    env = AW.wrap_deepmind(g1, episode_life=c["life"], clip_rewards=c["clip"],
                           frame_stack=c["stack"], scale=c["scale"], fire_reset=c["fire"],
                           channel_order=c["order"], flicker=c["flicker"])
    if c["life"]:
        ref = RLife(ref)
    if c["fire"]:
        ref = RFire(ref)
    shape = (84, 84, 1) if c["order"] == "hwc" else (1, 84, 84)

    def gray(o):
        x = (o.astype(float) @ np.array([0.299, 0.587, 0.114])).reshape(shape)
        return x / 255.0 if c["scale"] else x
    ref = RMap(ref, obs=lambda o: None if o is None else gray(o),
               rew=(lambda r: float((r > 0) - (r < 0))) if c["clip"] else None)
    black = []
    if c["flicker"]:
        ref = RMap(ref, obs=lambda o: np.zeros(shape) if black[-1] else o)
    if c["stack"]:
        ref = RStack(ref, 4, 2 if c["order"] == "hwc" else 0)
    tol = 1.6 / 255 if c["scale"] else 1.6

    def same(o, w, what):
        g = np.asarray(o)
        require_eq(g.shape, w.shape, "%s: shape" % what)
        require_eq(g.dtype, np.dtype("float32" if c["scale"] else "uint8"), "%s: type" % what)
        require(env.observation_space.contains(g), "%s: frame outside of its space", what)
        require(np.abs(g.astype(float) - w).max() <= tol, "%s: wrong frame", what)

    def look(o):
        """Which frame is black is read off; the rest follows."""
        o = np.asarray(o)
        if c["stack"]:
            o = o[..., -1] if c["order"] == "hwc" else o[-1]
        black.append(not o.any())
    over, n = True, 0
    for t, a in enumerate(c["acts"]):
        if over:
            n += 1
            o = env.reset()
            look(o)
            same(o, ref.reset(), "reset at call %d" % t)
        o, r, d, i = env.step(a)
        look(o)
        w, r2, d2, i2 = ref.step(a)
        same(o, w, "call %d" % t)
        require_eq((float(r), bool(d), i), (float(r2), bool(d2), i2), "call %d" % t)
        require_eq(g1.log, g2.log, "calls that reach the game")
        over = ended(d2, i2) or g2.over
    return ["nontrivial"] if n >= 2 else []


def run_atari(c):
    """make_atari: the registered game without its own time limit, with the given one, no-ops and frame skip."""
    script = [[n, k, hits] for n, k, hits in c["script"]]
    games = []

    def entry(**kw):
        games.append(Game(script, salt=c["salt"]))
        return games[-1]
    name = "VerifGameNoFrameskip-v4"
    gym.envs.registry.env_specs.pop(name, None)
    gym.register(name, entry_point=entry, max_episode_steps=c["own"])
    kw = {} if c["frames"] == "default" else dict(max_frames=c["frames"])
    env = AW.make_atari(name, **kw)
    g1, g2 = games[-1], Game(script, salt=c["salt"])
    ref = g2
    if c["frames"] not in (None, 0, "default"):
        ref = RLimit(ref, c["frames"], False)
    noop = ref = RNoop(ref, 0)
    ref = RSkip(ref, 4)
    over, n = True, 0
    for t, (a, force) in enumerate(c["acts"]):
        if over or force:
            n += 1
            k = len(g1.log)
            o = env.reset()
            noop.n = sum(e[0] == "step" for e in g1.log[k:])
            require(1 <= noop.n <= 30, "%d no-ops at a reset", noop.n)
            require(np.array_equal(o, ref.reset()), "first frame at call %d", t)
            require_eq(g1.log, g2.log, "calls that reach the game at a reset")
        o, r, d, i = env.step(a)
        w, r2, d2, i2 = ref.step(a)
        require(w is None or np.array_equal(o, w), "frame at call %d", t)
        require_close(r, r2, "reward at call %d" % t, rtol=1e-9, atol=1e-12)
        require_eq((bool(d), i), (bool(d2), i2), "call %d" % t)
        require_eq(g1.log, g2.log, "calls that reach the game")
        over = ended(d2, i2)
    return ["nontrivial"] if n >= 2 else []


def run_normalize(c):
    n = len(c["low"])
    low = np.array(c["low"], dtype=np.float32)
    high = low + np.array(c["span"][:n] + [1.0] * n, dtype=np.float32)[:n]
    box = gym.spaces.Box(low, high, dtype=np.float32)
    game = Game([[10 ** 6, 0, []]], box=box)
    env = W.NormalizeActionSpace(game)
    require(np.all(env.action_space.low == -1) and np.all(env.action_space.high == 1)
            and env.action_space.shape == (n,), "normalized action space is not [-1, 1]^n")
    env.reset()
    inner = False
    for xs in c["acts"]:
        a = np.array((xs + [0.0] * n)[:n], dtype=c["dtype"])
        b = a.copy()
        env.step(a)
        require(np.array_equal(a, b), "the given action is modified")
        got = np.array(game.log[-1][1])
        want = low + (a.astype(float) + 1) / 2 * (high.astype(float) - low)
        require_close(got, want, "action after normalization", rtol=1e-5, atol=1e-6,
                      scale=np.abs(np.concatenate([low, high])).max())
        inner = inner or bool((np.abs(a) < 1).any())
    return ["nontrivial"] if inner else []


def run_monitor(c):
    script = [[n, k, []] for n, k in c["script"]]
    game = Game(script, salt=c["salt"])
    twin = Game(script, salt=c["salt"])
    with scratch() as d:
        env = W.Monitor(game, os.path.join(d, "m"), video_callable=lambda e: False, force=True,
                        mode=c["mode"])
        over, eps = True, []
        for t, (a, force) in enumerate(c["acts"]):
            if over or force:
                o, w = env.reset(), twin.reset()
                require(np.array_equal(o, w), "first frame through Monitor")
                eps.append([0, 0.0])
            o, r, dn, i = env.step(a)
            o2, r2, d2, i2 = twin.step(a)
            require(np.array_equal(o, o2) and r == r2 and dn == d2 and i == i2,
                    "Monitor changes the stream")
            eps[-1][0] += 1
            eps[-1][1] += r2
            over = ended(d2, i2)
        env.close()
        files = glob.glob(os.path.join(d, "m", "*.stats.json"))
        require_eq(len(files), 1, "number of statistics files")
        with open(files[0]) as f:
            stats = json.load(f)
    require_eq(stats["episode_lengths"], [e[0] for e in eps], "recorded episode lengths")
    require_close(np.array(stats["episode_rewards"]), np.array([e[1] for e in eps]),
                  "recorded returns", rtol=1e-9, atol=1e-9)
    require_eq(stats["episode_types"], [{"training": "t", "evaluation": "e", None: "t"}[c["mode"]]] *
               len(eps), "recorded episode types")
    return ["nontrivial"] if len(eps) > 1 else []


EPISODE = tup(spread(1, 12), spread(0, 2), sized_list(st.one_of(spread(1, 10), spread(1, 10), spread(101, 110)), 0, 5))
QUICK_SCALE = 3

SUBS = [
    Sub("vector", lambda: p21.cases().map(lambda c: dict(c, multi=False, k=c["k"] or 2)), p21.run,
        quick=300, shards=2),
    Sub("stack", lambda: st.fixed_dictionaries(dict(
        script=sized_list(EPISODE, 1, 4), salt=spread(0, 200),
        layers=sized_list(tup(pick(KINDS), spread(1, 5)), 1, 5),
        acts=sized_list(tup(spread(0, 3), pick([False] * 9 + [True])), 2, 30))),
        run_stack, quick=2400, shards=6),
    Sub("random", lambda: st.fixed_dictionaries(dict(
        salt=spread(0, 10 ** 6), kind=pick(["randomize", "flicker", "noop"]),
        frac=pick([0.0, 0.1, 0.5, 0.9, 1.0, 0.01]), noop=pick([1, 2, 5, 30]))),
        run_random, quick=60, shards=2),
    Sub("warp", lambda: st.fixed_dictionaries(dict(
        fy=spread(1, 3), fx=spread(1, 3), img=pick(["noise", "flat", "rows", "cols"]),
        order=pick(["hwc", "chw"]), salt=seeds)), run_warp, quick=60),
    Sub("deepmind", lambda: st.fixed_dictionaries(dict(
        script=sized_list(EPISODE, 1, 4), salt=spread(0, 200), life=flag, clip=flag, stack=flag,
        scale=flag, fire=flag, flicker=flag, order=pick(["hwc", "chw"]), acts=sized_list(spread(0, 3), 1, 15))),
        run_deepmind, quick=80, shards=2),
    Sub("atari", lambda: st.fixed_dictionaries(dict(
        script=sized_list(tup(st.one_of(spread(1, 12), spread(20, 90)), spread(0, 2), st.just([])), 1, 4),
        salt=spread(0, 200), own=spread(1, 60), frames=st.one_of(pick([None, 0, "default"]), spread(1, 60)),
        acts=sized_list(tup(spread(0, 3), pick([False] * 9 + [True])), 1, 25))), run_atari, quick=200),
    Sub("normalize", lambda: st.fixed_dictionaries(dict(
        low=st.lists(st.one_of(st.floats(-10, 10, width=32), st.floats(-2000, 2000, width=32)), min_size=1,
                     max_size=4),
        span=st.lists(st.one_of(st.floats(0, 20, width=32), st.floats(0, 3000, width=32)), min_size=1,
                      max_size=4), dtype=pick(
            ["float32", "float64"]),
        acts=st.lists(st.lists(st.floats(-1, 1, width=32), min_size=1, max_size=4), min_size=1,
                      max_size=5))), run_normalize, quick=300),
    Sub("monitor", lambda: st.fixed_dictionaries(dict(
        script=sized_list(tup(spread(1, 6), spread(0, 2)), 1, 4), salt=spread(0, 200),
        mode=pick([None, "training", "evaluation"]),
        acts=sized_list(tup(spread(0, 3), pick([False] * 9 + [True])), 1, 25))),
        run_monitor, quick=100),
]
