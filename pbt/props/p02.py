"""P02: episodic replay buffers hold whole episodes."""
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, require, require_eq, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread, tup

from pfrl.replay_buffers import (
    EpisodicReplayBuffer,
    PersistentEpisodicReplayBuffer,
    PrioritizedEpisodicReplayBuffer,
)

RULE = """Cases are histories of append(env, terminal) / stop(env) / sample(k) /
sample_episodes(k, max_len) / full check (and, for the persistent kind, reopening) over
1-4 interleaved envs; non-trivial: at least two finished episodes, and one of: an
eviction, an interruption of a non-empty episode, or a sub-episode shorter than its
episode was sampled. The sub-sequence sub-check is non-trivial when max_len < length."""
ASSUMPTIONS = ["start offsets of sub-episodes are judged uniform at 6.5 standard deviations"]

ENV_IDS = [0, 1, "env-b", 7]
FIELDS = ["state", "action", "reward", "next_state", "next_action",
          "is_state_terminal", "uid"]


def same(a, b):
    return type(a) is type(b) and (a is b or np.array_equal(a, b))


def check_transition(got, want):
    for f in FIELDS:
        require(f in got, "field %s missing", f)
        require(same(got[f], want[f]), "field %s of transition %s: %r, recorded %r",
                f, want["uid"], got[f], want[f])


class Model:
    def __init__(self, capacity):
        self.capacity = capacity
        self.cur = {}
        self.episodes = []
        self.evicted = 0
        self.interrupted = 0

    def append(self, env, t):
        self.cur.setdefault(env, []).append(t)
        if t["is_state_terminal"]:
            self._finish(env)

    def stop(self, env):
        if self.cur.get(env):
            self.interrupted += 1
        self._finish(env)

    def _finish(self, env):
        ep = self.cur.pop(env, [])
        if ep:
            self.episodes.append(ep)
            self.evict()

    def evict(self):
        while self.capacity is not None and self.n() > self.capacity:
            self.episodes.pop(0)
            self.evicted += 1

    def n(self):
        return sum(len(e) for e in self.episodes)


def run_history(case):
    seed_all(case["seed"])
    cap = case["capacity"]
    d = tempfile.mkdtemp() if case["cls"] == "persistent" else None

    def make():
        if case["cls"] == "plain":
            return EpisodicReplayBuffer(cap)
        if case["cls"] == "prioritized":
            o = case["opts"]
            return PrioritizedEpisodicReplayBuffer(
                capacity=cap,
                uniform_ratio=o["uniform"],
                wait_priority_after_sampling=o["wait"],
                return_sample_weights=o["weights"],
                default_priority_func=(lambda ep: float(len(ep))) if o["func"] else None,
            )
        return PersistentEpisodicReplayBuffer(d, cap)

    pri = case["cls"] == "prioritized"
    # draws of one batch may repeat when sampling neither waits for priorities nor
    # removes, i.e. the mix of uniform and prioritized draws
    distinct = not (pri and case["opts"]["uniform"] > 0 and not case["opts"]["wait"])
    buf = make()
    m = Model(cap)
    uid = 0
    sub_sampled = 0

    def episodes_of(k, max_len):
        nonlocal buf
        if max_len is None and uid % 2:
            ret = buf.sample_episodes(k)
        else:
            ret = buf.sample_episodes(k, max_len)
        if pri and case["opts"]["weights"]:
            ret, w = ret
            require_eq(len(w), k, "number of weights")
        if pri:
            buf.update_errors([0.1 + 0.2 * i for i in range(k)])
        require_eq(len(ret), k, "number of sampled episodes")
        return ret

    def check_episodes(k, max_len):
        nonlocal sub_sampled
        eps = episodes_of(k, max_len)
        by_uid = {t["uid"]: (i, j) for i, e in enumerate(m.episodes) for j, t in enumerate(e)}
        seen = set()
        for ep in eps:
            require(len(ep) > 0, "empty episode sampled")
            u = ep[0]["uid"]
            require(u in by_uid, "transition %s is not in a stored episode", u)
            i, j = by_uid[u]
            full = m.episodes[i]
            want_len = len(full) if max_len is None else min(max_len, len(full))
            require_eq(len(ep), want_len, "length of sampled (sub)episode")
            sub_sampled += want_len < len(full)
            require(j + want_len <= len(full), "sub-episode runs over the end")
            for a, b in zip(ep, full[j:j + want_len]):
                check_transition(a, b)
            if distinct:
                require(i not in seen, "episode sampled twice in one batch")
            seen.add(i)

    def check_transitions(k):
        got = buf.sample(k)
        require_eq(len(got), k, "number of sampled transitions")
        by_uid = {t["uid"]: t for e in m.episodes for t in e}
        seen = set()
        for w in got:
            require(isinstance(w, (list, tuple)) and len(w) == 1,
                    "a sampled transition is not a one-element window: %r", w)
            u = w[0]["uid"]
            require(u in by_uid, "sampled transition %s is in no stored episode", u)
            require(u not in seen, "transition %s sampled twice in one batch", u)
            seen.add(u)
            check_transition(w[0], by_uid[u])

    def sizes():
        require_eq(len(buf), m.n(), "len(buffer)")
        require_eq(buf.n_episodes, len(m.episodes), "n_episodes")

    try:
        for op in case["ops"]:
            kind = op[0]
            if kind == "a":
                _, e, term, r = op
                t = dict(
                    state=np.array([uid, e], dtype=np.float32), action=uid, reward=r,
                    next_state=None if (term and r < 0) else np.array([uid + 0.5, e]),
                    next_action=None if uid % 2 else uid + 1,
                    is_state_terminal=term, uid=uid)
                if e == 0 and uid % 2:
                    buf.append(**t)
                else:
                    buf.append(env_id=ENV_IDS[e], **t)
                m.append(ENV_IDS[e], t)
                uid += 1
                sizes()
            elif kind == "s":
                if op[1] == 0 and uid % 2:
                    buf.stop_current_episode()
                else:
                    buf.stop_current_episode(env_id=ENV_IDS[op[1]])
                m.stop(ENV_IDS[op[1]])
                sizes()
            elif kind == "t":
                k = min(op[1], m.n())
                if k:
                    check_transitions(k)
            elif kind == "e":
                k = min(op[1], len(m.episodes))
                if k:
                    check_episodes(k, op[2])
            elif kind == "c":
                if m.episodes:
                    check_episodes(len(m.episodes), None)
                    check_transitions(m.n())
            elif kind == "r" and d:
                # restart: unfinished episodes are lost with the process
                del buf
                m.cur = {}
                buf = make()
                sizes()
        for e in ENV_IDS[:case["envs"]]:
            buf.stop_current_episode(env_id=e)
            m.stop(e)
        sizes()
        if m.episodes:
            check_episodes(len(m.episodes), None)
            check_transitions(m.n())
        require_eq(buf.capacity, cap, "capacity")
    finally:
        buf = None
        if d:
            shutil.rmtree(d, ignore_errors=True)
    labels = [case["cls"]]
    if m.evicted:
        labels.append("evicted")
    if m.interrupted:
        labels.append("interrupted")
    if sub_sampled:
        labels.append("subseq")
    if len(labels) > 1 and len(m.episodes) + m.evicted >= 2:
        labels.append("nontrivial")
    return labels


def history_strategy():
    @st.composite
    def s(draw):
        envs = draw(st.integers(1, 4))
        env = st.integers(0, envs - 1)
        # short, longer and long episodes
        append = tup(st.just("a"), env, pick([False] * draw(pick([4, 4, 12, 60])) + [True]),
                     pick([-1.5, 0.0, 1.0]))
        op = st.one_of(
            append, append, append, append, append,
            tup(st.just("s"), env),
            tup(st.just("t"), st.integers(1, 10)),
            tup(st.just("e"), st.integers(1, 5), st.one_of(st.none(), st.integers(1, 5), spread(4, 30))),
            st.just(["c"]),
            st.just(["r"]),
        )
        return dict(
            cls=draw(pick(["plain", "plain", "prioritized", "prioritized",
                                      "persistent"])),
            capacity=draw(st.one_of(st.none(), st.integers(1, 6), spread(1, 30))),
            envs=envs,
            seed=draw(seeds),
            opts=dict(uniform=draw(pick([0, 0.3, 1.0])), wait=draw(flag),
                      weights=draw(flag), func=draw(flag)),
            ops=draw(sized_list(op, 0, 70)),
        )

    return s()


def run_offsets(case):
    """Sub-episodes start at every possible offset with equal chance."""
    seed_all(case["seed"])
    n, ml, trials = case["n"], case["max_len"], 600
    buf = EpisodicReplayBuffer()
    for i in range(n):
        buf.append(state=i, action=0, reward=0.0, next_state=i + 1,
                   is_state_terminal=i == n - 1)
    m = max(1, n - ml + 1)
    counts = np.zeros(m)
    for _ in range(trials):
        (ep,) = buf.sample_episodes(1, ml)
        st_ = [t["state"] for t in ep]
        require_eq(st_, list(range(st_[0], st_[0] + min(n, ml))), "sub-episode")
        counts[st_[0]] += 1
    p = 1 / m
    sd = np.sqrt(trials * p * (1 - p))
    require(np.all(np.abs(counts - trials * p) <= 6.5 * sd + 10),
            "start offsets %s are not uniform", counts.tolist())
    return ["nontrivial"] if ml < n else []


QUICK_SCALE = 2

SUBS = [
    Sub("history", history_strategy, run_history, quick=4000, thorough=150000, shards=7),
    Sub("offsets", st.fixed_dictionaries(dict(
        n=st.one_of(spread(1, 15), spread(20, 45)), max_len=st.one_of(spread(1, 12), spread(15, 44)), seed=seeds)),
        run_offsets, quick=60, thorough=1000),
]
