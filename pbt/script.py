"""Scripted environments and recording agents for the properties of training loops."""
import os

import numpy as np

import pfrl
from pbt.core import Violation, require

ENDS = ["done", "reset", "both"]


class ScriptEnv:
    """Plays a list of episodes [length, kind], cyclically. Observations name the environment,
    the episode and the step; stepping outside an episode is a violation."""

    def __init__(self, eid, episodes, limit=None, fail=None, salt=0, npbool=False):
        self.eid, self.episodes, self.limit = eid, episodes, limit
        self.ep = -1
        self.k = None  # steps taken in the current episode, None: outside
        self.over = True
        self.log = []
        self.closed = 0
        self.fail = fail or {}
        self.calls = dict(step=0, reset=0)
        self.salt = salt
        self.npbool = npbool

    def maybe_fail(self, what):
        self.calls[what] += 1
        if self.fail.get(what) == self.calls[what]:
            raise self.fail["exc"]

    def obs(self):
        return np.array([self.eid, self.ep, self.k], dtype=np.float64)

    def reward(self, ep, k):
        x = (ep * 7919 + k * 104729 + self.eid * 1299709 + self.salt * 31) % 1009
        law = self.salt % 6
        if law == 2:        # few different values, so that scores tie
            return x % 3 - 1
        if law == 3:
            return (x % 2) * 1.0 if self.salt % 4 else 0.5
        if law == 4:        # large, or large and negative
            return (x - 504) * 4096.0 if self.salt % 4 else -x * 64.0 - 65536.0
        if law == 5:        # not representable in single precision
            return (x - 504) / 7.0
        return (x - 504) / 8.0

    def plan(self, ep):
        return self.episodes[ep % len(self.episodes)]

    def reset(self):
        self.maybe_fail("reset")
        if self.closed:
            raise Violation("environment %s reset after it was closed" % self.eid)
        if not self.over and self.k == 0:
            raise Violation("environment %s reset twice in a row" % self.eid)
        if not self.over and not (self.limit is not None and self.k == self.limit):
            if not getattr(self, "lenient", False):
                raise Violation("environment %s reset in the middle of episode %d (step %d, limit "
                                "%s)" % (self.eid, self.ep, self.k, self.limit))
        self.ep += 1
        self.k = 0
        self.over = False
        self.log.append(("reset", self.ep))
        return self.obs()

    def step(self, action):
        self.maybe_fail("step")
        if self.closed:
            raise Violation("environment %s stepped after it was closed" % self.eid)
        if self.over:
            raise Violation("environment %s stepped although episode %d had ended" % (
                self.eid, self.ep))
        if self.limit is not None and self.k >= self.limit:
            raise Violation("environment %s: episode %d goes on beyond the limit of %d steps" % (
                self.eid, self.ep, self.limit))
        self.k += 1
        length, kind = self.plan(self.ep)
        end = self.k == length
        done = end and kind in ("done", "both")
        info = {}
        if end and kind in ("reset", "both"):
            info["needs_reset"] = True
        elif self.k % 2:
            info["needs_reset"] = False
        self.over = bool(end)
        r = self.reward(self.ep, self.k)
        self.log.append(("step", self.ep, self.k, action, r, done, end))
        return self.obs(), r, (np.bool_(done) if self.npbool else done), info

    def close(self):
        self.closed += 1


class ScriptVec(pfrl.env.VectorEnv):
    """Vector environment over scripted environments, in this process."""

    def __init__(self, envs):
        self.envs = envs
        self.num_envs = len(envs)
        self.last = [None] * len(envs)
        self.closed = 0

    def reset(self, mask=None):
        if mask is None:
            mask = [False] * self.num_envs
        for i, m in enumerate(mask):
            if not m:
                self.last[i] = self.envs[i].reset()
        return list(self.last)

    def step(self, actions):
        outs = [e.step(a) for e, a in zip(self.envs, actions)]
        self.last = [o[0] for o in outs]
        return (list(self.last), [o[1] for o in outs], [o[2] for o in outs], [o[3] for o in outs])

    def seed(self, seeds):
        pass

    def close(self):
        self.closed += 1


class RecAgent(pfrl.agent.BatchAgent):
    """Records what it is shown; its actions are serial numbers."""

    def __init__(self, with_t=False, fail=None):
        self.n = 0
        self.log = []  # training
        self.elog = []  # evaluation: one list per entry of eval mode
        self.saves = []  # (dirname, number of training observes so far)
        self.observed = 0
        self.rounds = 0
        self.fail = fail or {}
        self.calls = dict(act=0, observe=0, save=0)
        if with_t:
            self.t = -1

    def maybe_fail(self, what):
        if not self.training:
            what = "eval_" + what
        self.calls[what] = self.calls.get(what, 0) + 1
        if self.fail.get(what) == self.calls[what]:
            raise self.fail["exc"]

    def _log(self, *x):
        (self.log if self.training else self.elog).append(x)

    def act(self, obs):
        self.maybe_fail("act")
        self.n += 1
        self._log("act", tuple(obs), self.n)
        return self.n

    def observe(self, obs, reward, done, reset):
        self.maybe_fail("observe")
        self._log("observe", tuple(obs), float(reward), bool(done), bool(reset))
        if self.training:
            self.observed += 1
            self.rounds += 1

    def batch_act(self, batch_obs):
        self.maybe_fail("act")
        out = []
        for o in batch_obs:
            self.n += 1
            out.append(self.n)
        self._log("act", [tuple(o) for o in batch_obs], list(out))
        return out

    def batch_observe(self, batch_obs, batch_reward, batch_done, batch_reset):
        self.maybe_fail("observe")
        self._log("observe", [tuple(o) for o in batch_obs], [float(r) for r in batch_reward],
                  [bool(d) for d in batch_done], [bool(r) for r in batch_reset])
        if self.training:
            self.observed += len(batch_obs)
            self.rounds += 1

    def save(self, dirname):
        require(self.training, "the agent is saved in evaluation mode")
        os.makedirs(dirname, exist_ok=True)
        with open(os.path.join(dirname, "n.txt"), "w") as f:
            f.write(str(self.observed))
        self.saves.append((dirname, self.observed))

    def load(self, dirname):
        raise AssertionError

    def get_statistics(self):
        return [("observed", self.observed), ("saves", len(self.saves))]


def simulate(env, n_steps, limit):
    """What one environment and the agent have to experience over n_steps training steps:
    a list of (obs_before, reward, obs_after, done, reset)."""
    out, ep, k = [], 0, 0
    for _ in range(n_steps):
        before = (float(env.eid), float(ep), float(k))
        k += 1
        length, kind = env.plan(ep)
        end = k == length
        done = end and kind in ("done", "both")
        reset = (end and kind in ("reset", "both")) or (limit is not None and k == limit)
        out.append((before, env.reward(ep, k), (float(env.eid), float(ep), float(k)), done, reset))
        if done or reset:
            ep, k = ep + 1, 0
    return out


def episodes_of(env, n, limit, first=0):
    """(return, length) of n consecutive episodes, starting with number `first`."""
    out = []
    for ep in range(first, first + n):
        length, _ = env.plan(ep)
        length = min(length, limit) if limit is not None else length
        out.append((sum(env.reward(ep, k) for k in range(1, length + 1)), length))
    return out
