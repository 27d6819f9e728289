"""P21: vector environments are indistinguishable from their parts."""
import multiprocessing
import os

import gym
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, require, require_eq, scratch
from pbt.gens import flag, pick, seeds, sized_list, spread, tup

from pfrl.envs import MultiprocessVectorEnv, SerialVectorEnv
from pfrl.wrappers import VectorFrameStack
from pfrl.wrappers.vector_frame_stack import VectorEnvWrapper

RULE = """A case is a number of members, serial or in subprocesses, plain, wrapped or frame-stacked, and a
history of steps, resets with every kind of mask, and seeds. Each member's observations, rewards, ends
and infos depend on its own seed and all of its actions so far; a twin of every member is run alone,
and each returned element has to be the twin's, frames included, also when observations of earlier
steps are read again at the end. Non-trivial: two or more members, a partial reset and a step
after it."""
ASSUMPTIONS = ["a mask entry that is true means the member is not reset"]


class Member(gym.Env):
    """Everything it returns depends on its number, seed and the actions so far."""

    def __init__(self, no, shape, dtype, marker=None):
        self.no, self.shape, self.dt = no, tuple(shape), dtype
        self.h = no * 7919 + 1
        self.k = 0
        self.base = np.arange(1, int(np.prod(shape)) + 1, dtype=np.uint64).reshape(shape)
        self.closed = 0
        self.marker = marker
        hi = 255 if dtype == "uint8" else 10.0
        self.observation_space = gym.spaces.Box(low=0, high=hi, shape=self.shape,
                                                dtype=np.dtype(dtype))
        self.action_space = gym.spaces.Discrete(5)
        self.spec = "spec of %d" % no

    def obs(self):
        x = (self.base * np.uint64(self.h % 2 ** 40 * 2 + 1)) >> np.uint64(9)
        if self.dt == "uint8":
            return (x % np.uint64(256)).astype(np.uint8)
        return ((x % np.uint64(10007)) / 1001.0).astype(self.dt)

    def mix(self, x):
        self.h = (self.h * 1000003 + x + 12345) % (2 ** 61 - 1)

    def reset(self):
        self.k = 0
        self.mix(17)
        return self.obs()

    def step(self, a):
        self.k += 1
        self.mix(int(a) * 31 + self.k)
        done = self.h % 5 == 0
        info = {"who": self.no, "k": self.k}
        if self.h % 7 == 0:
            info["needs_reset"] = True
        return self.obs(), (self.h % 1001) / 8.0 - 60, done, info

    def seed(self, s=None):
        self.mix((0 if s is None else s) + 99)
        return [s, self.no]

    def close(self):
        self.closed += 1
        if self.marker:
            with open(self.marker, "a") as f:
                f.write("closed %d\n" % self.no)


def as_mask(bits, n, kind):
    m = [bool((bits >> i) & 1) for i in range(n)]
    if kind == "np":
        return np.array(m)
    if kind == "float":
        return np.array(m, dtype=float)
    if kind == "tuple":
        return tuple(m)
    return m


def run(c):
    N, k, axis = c["n"], c["k"], c["axis"]
    shape, dt = c["shape"], c["dtype"]
    axis = axis % len(shape)
    twins = [Member(i, shape, dt) for i in range(N)]
    with scratch() as d:
        marks = [os.path.join(d, "m%d" % i) for i in range(N)]
        before = set(multiprocessing.active_children())
        if c["multi"]:
            base = MultiprocessVectorEnv([
                (lambda i=i: Member(i, shape, dt, marks[i])) for i in range(N)])
        else:
            base = SerialVectorEnv([Member(i, shape, dt, marks[i]) for i in range(N)])
        env = base
        try:
            return drive(c, env, base, twins, N, k, axis, marks, before)
        finally:
            if c["multi"]:
                for p in multiprocessing.active_children():
                    if p not in before:
                        p.terminate()
                        p.join()
                base.closed = True


def drive(c, env, base, twins, N, k, axis, marks, before):
    for w in range(c["wrap"]):
        env = VectorEnvWrapper(env)
    if k:
        env = VectorFrameStack(env, k, stack_axis=axis)
    require_eq(env.num_envs, N, "number of members")
    require(env.unwrapped is base, "unwrapped is not the innermost vector environment")
    require_eq(env.spec, "spec of 0", "spec")
    space = env.observation_space
    want = list(c["shape"])
    if k:
        want[axis] *= k
    require_eq(tuple(space.shape), tuple(want), "shape of the observation space")
    require_eq(str(space.dtype), c["dtype"], "type of the observation space")
    frames = [None] * N
    last = [None] * N
    kept = []
    partial = after = False

    def arr(i):
        if not k:
            return last[i]
        return np.concatenate(frames[i], axis=axis)

    def check_obs(got, what):
        require_eq(len(got), N, "%s: number of observations" % what)
        for i in range(N):
            w = arr(i)
            g = np.asarray(got[i])
            require(g.dtype == w.dtype and g.shape == w.shape and np.array_equal(g, w),
                    "%s: the observation of member %d is not its own (of type %s, shape %s)", what, i,
                    g.dtype, g.shape)
            kept.append((got[i], w, what, i))
            require(space.contains(g), "%s: observation outside of the observation space", what)

    def do_reset(mask_arg, skip, what):
        if mask_arg is None:
            got = env.reset()
        elif c["kw"]:
            got = env.reset(mask=mask_arg)
        else:
            got = env.reset(mask_arg)
        for i in range(N):
            if not skip[i]:
                last[i] = twins[i].reset()
                frames[i] = [last[i]] * (k or 1)
        check_obs(got, what)

    do_reset(None, [False] * N, "first reset")
    for t, op in enumerate(c["ops"]):
        what = "operation %d" % t
        if op[0] == "step":
            acts = [(op[1] // 5 ** (i % 5) + i // 5 * op[1]) % 5 for i in range(N)]
            if op[2]:
                acts = np.array(acts)
            obs, rews, dones, infos = env.step(acts)
            for i in range(N):
                o, r, dn, info = twins[i].step(acts[i])
                last[i] = o
                frames[i] = (frames[i] + [o])[-(k or 1):]
                require(len(rews) == len(dones) == len(infos) == N, "%s: wrong number of results",
                        what)
                require_eq((float(rews[i]), bool(dones[i])), (float(r), bool(dn)),
                           "%s: reward and end of member %d" % (what, i))
                require_eq(dict(infos[i]), info, "%s: info of member %d" % (what, i))
            check_obs(obs, what)
            after = after or partial
        elif op[0] == "reset":
            bits = op[1] % (2 ** N)
            m = as_mask(bits, N, op[2])
            skip = [bool(x) for x in m]
            partial = partial or (any(skip) and not all(skip))
            do_reset(m, skip, what)
        elif op[0] == "all":
            do_reset(None, [False] * N, what)
        else:
            ss = [(op[1] + 13 * i) % 1000 for i in range(N)]
            form = op[2] if c["multi"] else "list"
            if form == "wrong":
                for bad in (ss + [1], ss[:-1]):
                    try:
                        env.seed(bad)
                    except ValueError:
                        continue
                    require(False, "%s: %d seeds are accepted for %d members", what, len(bad), N)
                continue
            if form == "int":
                ss = [ss[0]] * N
                got = env.seed(ss[0])
            elif form == "none":
                ss = [None] * N
                got = env.seed()
            else:
                got = env.seed(ss)
            want = [tw.seed(s) for tw, s in zip(twins, ss)]
            if c["multi"]:
                require_eq([list(x) for x in got], want, "%s: what the members return" % what)
    for got, w, what, i in kept:
        for _ in range(2):
            g = np.asarray(got)
            require(np.array_equal(g, w), "the observation of member %d returned by %s has changed "
                    "since", i, what)
    env.close()
    for i, p in enumerate(marks):
        txt = open(p).read() if os.path.exists(p) else ""
        require_eq(txt, "closed %d\n" % i, "closings of member %d" % i)
    if c["multi"]:
        require_eq(len(set(multiprocessing.active_children()) - before), 0, "workers alive after close")
    return (["nontrivial"] if N >= 2 and partial and after else []) + [
        "subprocesses" if c["multi"] else "serial"] + (["stack %d" % k] if k else [])


def cases():
    step = tup(st.just("step"), spread(0, 3124), flag)
    reset = tup(st.just("reset"), spread(0, 4095), pick(["list", "np", "float", "tuple"]))
    op = st.one_of(step, step, step, reset, reset, tup(st.just("all")),
                   tup(st.just("seed"), spread(0, 999), pick(["list", "int", "none", "wrong"])))
    return st.fixed_dictionaries(dict(
        n=pick([1, 2, 2, 3, 3, 4, 5, 6, 9, 12]), k=pick([None, 1, 2, 3, 4]), axis=spread(0, 2),
        shape=pick([[1, 2, 2], [2, 2, 1], [3], [2, 1]]), dtype=pick(["uint8", "float32"]),
        wrap=pick([0, 0, 1, 2]), kw=flag, ops=sized_list(op, 1, 25)))


QUICK_SCALE = 2

SUBS = [
    Sub("serial", lambda: cases().map(lambda c: dict(c, multi=False)), run, quick=1200, shards=4),
    Sub("multiprocess", lambda: cases().map(lambda c: dict(c, multi=True)), run, quick=240, shards=6),
]
