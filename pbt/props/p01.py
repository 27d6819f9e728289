"""P01: transition replay buffers hold exactly the n-step windows of the history."""
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt.gens import pick, sized_list, spread
from pbt.core import Sub, require, require_eq, seed_all

from pfrl.replay_buffers import (
    PersistentReplayBuffer,
    PrioritizedReplayBuffer,
    ReplayBuffer,
)

RULE = """Cases are histories of append(env, terminal) / stop(env) / sample(k) over 1-24
interleaved envs with a generated capacity and number of steps; non-trivial: at least
one multi-transition episode ended (by termination or interruption) and the history
contains n-step windows cut by an episode end, an eviction, or an interleaving of
two envs inside an episode. The uniformity sub-check is non-trivial when 0 < k < n."""
ASSUMPTIONS = [
    "environment ids are hashable objects; fields are arbitrary Python objects",
    "sampling uniformity is judged at 6.5 standard deviations per element",
]


class Model:
    def __init__(self, capacity, n):
        self.capacity, self.n = capacity, n
        self.cur = {}
        self.out = []  # all windows ever, in order
        self.cut = 0
        self.evicted = 0

    def _push(self, w):
        self.out.append(w)

    def content(self):
        if self.capacity is None:
            return list(self.out)
        return self.out[len(self.out) - min(self.capacity, len(self.out)):]

    def append(self, env, t):
        ep = self.cur.setdefault(env, [[], 0])
        ep[0].append(t)
        if t["is_state_terminal"]:
            self.stop(env)
        elif len(ep[0]) - ep[1] == self.n:
            self._push(ep[0][ep[1]:])
            ep[1] += 1

    def stop(self, env):
        ts, start = self.cur.pop(env, [[], 0])
        for s in range(start, len(ts)):
            w = ts[s:s + self.n]
            self.cut += len(w) < self.n
            self._push(w)


def window_key(w):
    return tuple(t["extra"]["uid"] for t in w)


FIELDS = ["state", "action", "reward", "next_state", "next_action",
          "is_state_terminal", "extra"]


def compare_windows(sampled, content):
    """sampled: list of windows from the buffer, all distinct and all in content."""
    by_key = {window_key(w): w for w in content}
    require(len(by_key) == len(content), "model bug")
    seen = set()
    for w in sampled:
        require(isinstance(w, (list, tuple)) and len(w) > 0,
                "a sampled element is not a non-empty list: %r" % (w,))
        k = window_key(w)
        require(k not in seen, "window %s sampled twice in one batch" % (k,))
        seen.add(k)
        require(k in by_key, "sampled window %s is not one of the stored windows %s"
                % (k, sorted(by_key)))
        for got, want in zip(w, by_key[k]):
            for f in FIELDS:
                require(f in got, "field %s missing" % f)
                same = got[f] is want[f] or np.array_equal(got[f], want[f])
                require(same and type(got[f]) is type(want[f]),
                        "field %s of transition %s: %r, recorded %r",
                        f, want["extra"]["uid"], got[f], want[f])
    return seen


def make(case):
    cls = case["cls"]
    cap, n = case["capacity"], case["n"]
    if cls == "plain":
        return ReplayBuffer(cap, num_steps=n), None
    if cls == "prioritized":
        return PrioritizedReplayBuffer(cap, num_steps=n), None
    d = tempfile.mkdtemp()
    return PersistentReplayBuffer(d, cap), d


ENV_IDS = [0, 1, "env-b", 7] + [100 + i for i in range(10)] + ["e%d" % i for i in range(10)]


def run_history(case):
    seed_all(case["seed"])
    buf, d = make(case)
    try:
        return _run_history(case, buf)
    finally:
        del buf
        if d:
            shutil.rmtree(d, ignore_errors=True)


def _run_history(case, buf):
    cap, n = case["capacity"], case["n"]
    model = Model(cap, n)
    uid = 0
    interleaved = False
    last_env = None
    last_uid = {}

    def check_all():
        content = model.content()
        require_eq(len(buf), len(content), "len(buffer)")
        if not content:
            return
        seen = compare_windows(buf.sample(len(content)), content)
        require_eq(len(seen), len(content), "number of windows in a full sample")
        if case["cls"] == "prioritized":
            buf.update_errors([0.5] * len(content))

    def expand(ops):
        for op in ops:
            if op[0] == "A":  # a stretch of steps, moving through the envs
                _, e, count, every, stride = op
                for j in range(count):
                    yield ["a", (e + j * stride) % case["envs"],
                           bool(every and j % every == every - 1), j - 1.5]
            else:
                yield op

    for op in expand(case["ops"]):
        kind = op[0]
        if kind == "a":
            _, e, term, r = op
            env = ENV_IDS[e]
            t = dict(
                state=np.array([uid, e], dtype=np.float32),
                action=[uid, str(uid), np.int64(uid)][uid % 3],
                reward=r,
                next_state=None if (term and r < 0) else np.array([uid + 0.5, e]),
                next_action=None if uid % 2 else uid + 1,
                is_state_terminal=term,
                extra={"uid": uid},
            )
            if last_env not in (None, env) and model.cur.get(env):
                interleaved = True
            last_env = env
            args = dict(t)
            if e == 0 and uid % 2 == 0:
                buf.append(**args)  # default env id
            else:
                buf.append(env_id=env, **args)
            model.append(env, t)
            uid += 1
        elif kind == "s":
            env = ENV_IDS[op[1]]
            if op[1] == 0 and uid % 2 == 0:
                buf.stop_current_episode()
            else:
                buf.stop_current_episode(env_id=env)
            model.stop(env)
        elif kind == "q":
            content = model.content()
            require_eq(len(buf), len(content), "len(buffer)")
            k = min(op[1], len(content))
            if k > 0:
                got = buf.sample(k)
                require_eq(len(got), k, "sample size")
                compare_windows(got, content)
                if case["cls"] == "prioritized":
                    buf.update_errors([abs(x) for x in np.linspace(0, 1, k)])
        elif kind == "c":
            check_all()
    check_all()
    for env in ENV_IDS[:case["envs"]]:
        buf.stop_current_episode(env_id=env)
        model.stop(env)
    check_all()
    require_eq(getattr(buf, "capacity"), cap, "capacity")
    labels = [case["cls"]]
    ended = len(model.out)
    if model.cut:
        labels.append("cut")
    if cap is not None and ended > cap:
        labels.append("evicted")
    if interleaved:
        labels.append("interleaved")
    if len(labels) > 1 and uid > 1:
        labels.append("nontrivial")
    return labels


def history_strategy():
    @st.composite
    def s(draw):
        big = draw(pick([False, False, False, True]))
        envs = draw(st.one_of(st.integers(1, 4), spread(5, len(ENV_IDS)))
                    if big else st.integers(1, 4))
        env = st.integers(0, envs - 1)
        # episodes tend to be longer than the window: terminals are rarer
        append = st.tuples(st.just("a"), env, pick([False] * 4 + [True]),
                           pick([-1.5, 0.0, 1.0, 2.0, 3]))
        stop = st.tuples(st.just("s"), env)
        query = st.tuples(st.just("q"), st.integers(1, 12))
        check = st.just(("c",))
        op = st.one_of(append, append, append, append, append, stop, query, check)
        if big:
            bulk = st.tuples(st.just("A"), env, spread(1, 120), pick([0, 0, 1, 7, 30]),
                             st.integers(0, 5))
            query = st.tuples(st.just("q"), spread(1, 200))
            op = st.one_of(append, bulk, bulk, stop, query)
        return dict(
            cls=draw(pick(["plain", "plain", "prioritized", "prioritized",
                                      "persistent"])),
            capacity=draw(st.one_of(st.none(), st.integers(1, 6), st.integers(1, 30))
                          if not big else st.one_of(st.none(), spread(1, 400))),
            n=draw(st.one_of(st.integers(1, 6), spread(1, 24)) if big
                   else st.integers(1, 6)),
            envs=envs,
            seed=draw(st.integers(0, 2**31)),
            ops=[list(o) for o in draw(sized_list(op, 0, 12 if big else 60))],
        )

    return s().map(fix_persistent)


def fix_persistent(c):
    # the persistent buffer has no n-step option
    return dict(c, n=1) if c["cls"] == "persistent" else c


def run_uniform(case):
    n, k, trials = case["n"], case["k"], case["trials"]
    seed_all(case["seed"])
    cap = case["cap"]
    buf = ReplayBuffer(cap)
    for i in range(n + case["extra"]):
        buf.append(state=i, action=0, reward=0.0, next_state=i + 1)
    total = n + case["extra"]
    lo = 0 if cap is None else max(0, total - cap)
    m = total - lo
    k = min(k, m)
    trials = max(300, int(trials * min(1, 40 / max(k, 1))))
    counts = np.zeros(m)
    first = np.zeros(m)
    for _ in range(trials):
        idx = [w[0]["state"] - lo for w in buf.sample(k)]
        require(len(set(idx)) == k and all(0 <= i < m for i in idx),
                "sample returned %s from %d elements", idx, m)
        for i in idx:
            counts[i] += 1
        if k:
            first[idx[0]] += 1
    if k:
        for c, p, what in [(counts, k / m, "inclusion"), (first, 1 / m, "first place")]:
            sd = np.sqrt(trials * p * (1 - p)) + 1e-9
            z = np.abs(c - trials * p)
            # binomial tail: normal bound plus a Poisson-like allowance
            require(np.all(z <= 6.5 * sd + 12), "%s counts %s are not uniform (p=%.3f)",
                    what, c.tolist(), p)
    return ["nontrivial"] if 0 < k < m else []


def uniform_strategy():
    return st.fixed_dictionaries(dict(
        n=st.one_of(spread(1, 40), spread(41, 700)),
        k=st.one_of(spread(0, 20), spread(21, 400)), extra=spread(0, 10),
        cap=st.one_of(st.none(), st.integers(5, 40), spread(41, 500)),
        trials=st.just(1500), seed=st.integers(0, 2**31)))


SUBS = [
    Sub("history", history_strategy, run_history, quick=3000, thorough=150000, shards=7),
    Sub("uniform", uniform_strategy, run_uniform, quick=40, thorough=1500, shards=2),
]
