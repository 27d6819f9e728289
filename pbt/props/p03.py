"""P03: prioritized sampling follows the priorities; weights correct for it."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, require, require_close, require_eq, require_freq, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread, tup

from pfrl.collections.prioritized import PrioritizedBuffer
from pfrl.replay_buffers import PrioritizedEpisodicReplayBuffer, PrioritizedReplayBuffer

RULE = """Cases are histories of append / evict / pop / sample+update with generated
priorities (six orders of magnitude), capacities and hyper-parameters. Non-trivial: the
buffer held at least two different priorities when sampled and at least one element had
been evicted or re-prioritised before. Frequency cases: at least 3 elements with two
different priorities."""
ASSUMPTIONS = [
    "frequencies are judged with Bernstein bounds at 1e-11 per element",
    "a batch is always followed by its priority update when the buffer demands it",
]


class Model:
    def __init__(self, capacity):
        self.capacity = capacity
        self.items = []
        self.maxp = 1.0

    def append(self, v, p=None):
        if self.capacity is not None and len(self.items) == self.capacity:
            self.items.pop(0)
        self.items.append([v, self.maxp if p is None else p])

    def pri(self):
        return {v: p for v, p in self.items}

    def set(self, vals, ps):
        ix = {it[0]: it for it in self.items}
        for v, p in zip(vals, ps):
            ix[v][1] = p
            self.maxp = max(self.maxp, p)

    def probs(self, u=0.0):
        n = len(self.items)
        tot = sum(p for _, p in self.items)
        return {v: u / n + (1 - u) * p / tot for v, p in self.items}


priority = st.one_of(
    pick([1.0, 0.5, 2.0, 3.0]),
    st.tuples(spread(1, 99), st.integers(-4, 2)).map(lambda t: t[0] * 10.0 ** t[1]),
)


def apply_history(case, buf, m, check=True):
    uid = 0
    stats = dict(evicted=0, updated=0, differing=0)
    for op in case["ops"]:
        k = op[0]
        if k == "a":
            for p in op[1]:
                if m.capacity is not None and len(m.items) == m.capacity:
                    stats["evicted"] += 1
                if p is None:
                    buf.append(uid)
                else:
                    buf.append(uid, priority=p)
                m.append(uid, p)
                uid += 1
                require_eq(len(buf), len(m.items), "len")
        elif k == "p":
            for _ in range(min(op[1], len(m.items))):
                require_eq(buf.popleft(), m.items.pop(0)[0], "popleft")
                stats["evicted"] += 1
        elif k == "s":
            n = min(op[1], len(m.items))
            if n == 0:
                continue
            u = op[2]
            sampled, probs, min_prob = buf.sample(n, uniform_ratio=u)
            require_eq(len(sampled), n, "sample size")
            model = m.probs(u)
            require(all(v in model for v in sampled), "sampled %s, stored %s",
                    sampled, sorted(model))
            if case["wait"] or u == 0:
                require(len(set(sampled)) == n, "duplicates in one batch: %s", sampled)
            for v, p in zip(sampled, probs):
                require_close(p, model[v], "probability of element %d" % v,
                              rtol=1e-9, atol=0)
            require_close(min_prob, min(model.values()), "minimum probability",
                          rtol=1e-9, atol=0)
            if len(set(model.values())) > 1:
                stats["differing"] += 1
            if case["wait"] or op[3]:
                new = [op[3][i % len(op[3])] if op[3] else m.pri()[v]
                       for i, v in enumerate(sampled)]
                if len(set(sampled)) == n:
                    buf.set_last_priority(new)
                    m.set(sampled, new)
                    stats["updated"] += 1
    return stats


def run_history(case):
    seed_all(case["seed"])
    buf = PrioritizedBuffer(capacity=case["cap"], wait_priority_after_sampling=case["wait"])
    m = Model(case["cap"])
    stats = apply_history(case, buf, m)
    # final: the whole content with all probabilities
    n = len(m.items)
    if n:
        sampled, probs, _ = buf.sample(n)
        require_eq(sorted(sampled), sorted(v for v, _ in m.items), "content")
        mp = m.probs()
        for v, p in zip(sampled, probs):
            require_close(p, mp[v], "probability of %d" % v, rtol=1e-9, atol=0)
    labels = [k for k, v in stats.items() if v]
    if stats["differing"] and (stats["evicted"] or stats["updated"]):
        labels.append("nontrivial")
    return labels


def ops():
    return st.one_of(
        tup(st.just("a"), st.lists(st.one_of(st.none(), priority), min_size=1, max_size=8)),
        tup(st.just("a"), st.lists(st.none(), min_size=1, max_size=8)),
        tup(st.just("p"), st.integers(1, 4)),
        tup(st.just("s"), st.integers(1, 12), pick([0, 0, 0, 0.25, 0.9]),
            st.lists(priority, min_size=1, max_size=6)),
        tup(st.just("s"), st.integers(1, 12), st.just(0),
            st.lists(priority, min_size=1, max_size=6)),
    )


def bulk_ops():
    many = st.tuples(spread(1, 150), st.lists(st.one_of(st.none(), priority), min_size=1,
                                              max_size=7)).map(
        lambda t: [t[1][i % len(t[1])] for i in range(t[0])])
    return st.one_of(
        tup(st.just("a"), many), tup(st.just("a"), many), tup(st.just("p"), spread(1, 120)),
        tup(st.just("s"), spread(1, 130), pick([0, 0, 0, 0.25, 0.9]),
            st.lists(priority, min_size=1, max_size=6)), ops())


def history_strategy():
    small = st.fixed_dictionaries(dict(
        cap=st.one_of(st.none(), spread(1, 20)), wait=flag, seed=seeds,
        ops=sized_list(ops(), 1, 25)))
    large = st.fixed_dictionaries(dict(
        cap=st.one_of(st.none(), spread(21, 300)), wait=flag, seed=seeds,
        ops=sized_list(bulk_ops(), 1, 10)))
    return st.one_of(small, small, small, small, large)


# --- frequencies -----------------------------------------------------------


def run_freq(case):
    seed_all(case["seed"])
    buf = PrioritizedBuffer(capacity=case["cap"], wait_priority_after_sampling=case["wait"])
    m = Model(case["cap"])
    apply_history(case, buf, m, check=False)
    # make the priorities moderate so that frequencies are informative
    top = max([v for v, _ in m.items], default=-1)
    for v in range(top + 1, top + 1 + case["tail"]):
        buf.append(v + 10**6)
        m.append(v + 10**6)
    n = len(m.items)
    if n < 2:
        return []
    sampled, _, _ = buf.sample(n)
    pr = case["final"]
    new = [pr[v % len(pr)] for v in sampled]
    buf.set_last_priority(new)
    m.set(sampled, new)
    u = case["uniform"]
    T = case["trials"]
    vals = [v for v, _ in m.items]
    ix = {v: i for i, v in enumerate(vals)}
    p = np.array([q for _, q in m.items])
    p = p / p.sum()
    first = np.zeros(n)
    second = np.zeros(n)
    for _ in range(T):
        s, _, _ = buf.sample(min(2, n), uniform_ratio=u)
        first[ix[s[0]]] += 1
        second[ix[s[1]]] += 1
        if case["wait"]:
            pri = m.pri()
            buf.set_last_priority([pri[v] for v in s])
    if u == 0:
        require_freq(first, p, T, "first draw")
        joint = np.zeros(n)
        for i in range(n):
            for j in range(n):
                if i != j and p[i] < 1:
                    joint[j] += p[i] * p[j] / (1 - p[i])
        require_freq(second, joint, T, "second draw")
    else:
        # with B ~ Binomial(2, u) uniform draws first
        un = np.full(n, 1 / n)
        p0, p1, p2 = (1 - u) ** 2, 2 * u * (1 - u), u * u
        require_freq(first, p0 * p + (p1 + p2) * un, T, "first draw of a mixed batch")
    labels = ["wait" if case["wait"] else "nowait", "mixed" if u else "pure"]
    if n >= 3 and len(set(np.round(p, 9))) > 1:
        labels.append("nontrivial")
    return labels


def freq_strategy():
    return st.fixed_dictionaries(dict(
        cap=st.one_of(st.none(), spread(2, 12)), wait=flag, seed=seeds,
        ops=sized_list(ops(), 1, 10), tail=spread(2, 9),
        final=st.lists(pick([0.2, 0.5, 1.0, 2.0, 4.0]), min_size=2, max_size=8),
        uniform=pick([0, 0, 0, 0.5]), trials=st.just(3000)))


# --- replay buffers --------------------------------------------------------


def ref_priority(errors, c):
    out = []
    for e in errors:
        if c["emin"] is not None:
            e = max(c["emin"], e)
        if c["emax"] is not None:
            e = min(c["emax"], e)
        out.append((e + c["eps"]) ** c["alpha"])
    return out


def ref_weights(probs, allprobs, n, c, beta):
    if c["norm"] in (True, "batch"):
        lo = min(probs)
        return [(p / lo) ** -beta for p in probs]
    if c["norm"] == "memory":
        lo = min(allprobs)
        return [(p / lo) ** -beta for p in probs]
    return [(n * p) ** -beta for p in probs]


def run_buffer(case):
    c = case["cfg"]
    seed_all(case["seed"])
    kw = dict(alpha=c["alpha"], beta0=c["beta0"], betasteps=c["betasteps"], eps=c["eps"],
              normalize_by_max=c["norm"], error_min=c["emin"], error_max=c["emax"])
    epi = case["kind"] == "episodic"
    u = c["uniform"] if epi else 0.0
    if epi:
        buf = PrioritizedEpisodicReplayBuffer(
            capacity=None, uniform_ratio=u,
            default_priority_func=(lambda ep: 0.25 * len(ep)) if c["func"] else None, **kw)
        m = Model(None)
    else:
        buf = PrioritizedReplayBuffer(capacity=c["cap"], num_steps=c["n"], **kw)
        m = Model(c["cap"])
    beta = c["beta0"]
    uid = 0
    evicted = updated = differing = 0
    for op in case["ops"]:
        if op[0] == "a":
            for _ in range(op[1]):
                if epi:
                    ln = 1 + uid % 3
                    for j in range(ln):
                        buf.append(state=(uid, j), action=0, reward=0.0, next_state=(uid, j + 1),
                                   is_state_terminal=j == ln - 1)
                    m.append(uid, 0.25 * ln if c["func"] else None)
                else:
                    if m.capacity is not None and len(m.items) == m.capacity:
                        evicted += 1
                    # every transition ends an episode: one window each
                    buf.append(state=(uid, 0), action=0, reward=0.0, next_state=(uid, 1),
                               is_state_terminal=True)
                    m.append(uid)
                uid += 1
        else:
            n = min(op[1], len(m.items))
            if not n:
                continue
            if epi:
                got, weights = buf.sample_episodes(n)
                ids = [e[0]["state"][0] for e in got]
            else:
                got = buf.sample(n)
                ids = [e[0]["state"][0] for e in got]
                weights = [e[0]["weight"] for e in got]
            require(len(set(ids)) == n, "duplicates in one batch")
            mp = m.probs(u)
            require(all(i in mp for i in ids), "unknown element sampled")
            want = ref_weights([mp[i] for i in ids], list(mp.values()), len(m.items), c, beta)
            for g, w in zip(weights, want):
                require_close(g, w, "importance weight (beta=%.4f)" % beta, rtol=1e-6, atol=0)
            if c["betasteps"] is not None:
                beta = min(1.0, beta + (1.0 - c["beta0"]) / c["betasteps"])
            if len(set(mp.values())) > 1:
                differing += 1
            errs = [op[2][i % len(op[2])] for i in range(n)]
            if c["emin"] is None:  # only a lower bound makes negative errors meaningful
                errs = [abs(e) for e in errs]
            buf.update_errors(errs)
            m.set(ids, ref_priority(errs, c))
            updated += 1
    labels = [case["kind"]]
    if differing and updated:
        labels.append("nontrivial")
    if evicted:
        labels.append("evicted")
    return labels


def buffer_strategy():
    err = st.one_of(pick([0.0, 0.5, 1.0, 3.0, -0.5, -2.0]),
                    st.floats(0, 10, allow_nan=False).map(lambda x: round(x, 4)))
    cfg = st.fixed_dictionaries(dict(
        alpha=pick([0.0, 0.5, 0.6, 1.0]),
        beta0=pick([0.0, 0.4, 0.9, 1.0]),
        betasteps=pick([None, 1, 3, 10, 2e5]),
        eps=pick([0.01, 1e-4, 0.5]),
        norm=pick([True, "batch", "memory", False]),
        emin=pick([None, 0, 0.2]), emax=pick([None, 1, 2.5]),
        cap=st.one_of(st.none(), spread(1, 15), spread(16, 120)), n=st.integers(1, 3),
        uniform=pick([0, 0, 0.3]), func=flag))
    op = st.one_of(tup(st.just("a"), st.one_of(st.integers(1, 6), st.integers(1, 6),
                                               st.integers(1, 6), spread(7, 60))),
                   tup(st.just("s"), st.one_of(st.integers(1, 10), spread(1, 40)), st.lists(err, min_size=1, max_size=6)))
    return st.fixed_dictionaries(dict(
        kind=pick(["transition", "transition", "episodic"]), cfg=cfg, seed=seeds,
        ops=sized_list(op, 2, 25)))


QUICK_SCALE = 2

SUBS = [
    Sub("history", history_strategy, run_history, quick=3500, thorough=200000, shards=5),
    Sub("freq", freq_strategy, run_freq, quick=300, thorough=5000, shards=4),
    Sub("buffer", buffer_strategy, run_buffer, quick=3000, thorough=150000, shards=4),
]
