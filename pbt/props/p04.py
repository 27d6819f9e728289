"""P04: queues behave like a bounded list under every operation sequence."""
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, require, require_close, require_eq, require_freq, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread, tup

from pfrl.collections.persistent_collections import PersistentRandomAccessQueue
from pfrl.collections.prioritized import MinTreeQueue, SumTreeQueue
from pfrl.collections.random_access_queue import RandomAccessQueue
from pfrl.utils.random import sample_n_k

RULE = """Cases are sequences of append / extend / popleft / get / set / iterate / sample /
pickle on a queue with generated maximum length and initial content; non-trivial: at least
one element left the queue (pop or overflow) and at least one indexed access or sample
came after it. Tree queues: a pop followed by a write. sample_n_k: 0 < k < n."""
ASSUMPTIONS = ["indices are integers; uniformity is judged with Bernstein bounds"]


def expect_index_error(f, what):
    try:
        f()
    except IndexError:
        return
    require(False, "%s did not raise IndexError", what)


def run_queue(case):
    seed_all(case["seed"])
    maxlen = case["maxlen"]
    d = None
    if case["kind"] == "memory":
        q = (RandomAccessQueue(case["init"], maxlen=maxlen) if case["init"] is not None
             else RandomAccessQueue(maxlen=maxlen))
        model = list(case["init"] or [])
    else:
        d = tempfile.mkdtemp()
        maxlen = None if maxlen is None else max(1, maxlen)
        q = PersistentRandomAccessQueue(d, maxlen)
        model = []
        for x in case["init"] or []:
            q.append(x)
            model.append(x)

    def trim():
        if maxlen is not None and len(model) > maxlen:
            del model[:len(model) - maxlen]
            return True
        return False

    left = trim()
    accessed = False
    uid = 1000
    try:
        for op in case["ops"]:
            k = op[0]
            if k == "a":
                q.append(uid)
                model.append(uid)
                uid += 1
                left |= trim()
            elif k == "x":
                xs = list(range(uid, uid + op[1]))
                uid += op[1]
                how = op[2]
                q.extend(xs if how == 0 else tuple(xs) if how == 1 else iter(xs)
                         if how == 2 else (x for x in xs))
                model.extend(xs)
                left |= trim()
            elif k == "p":
                for _ in range(op[1]):
                    if model:
                        require_eq(q.popleft(), model.pop(0), "popleft")
                        left = True
                    else:
                        expect_index_error(q.popleft, "popleft of an empty queue")
            elif k == "g":
                i = op[1]
                n = len(model)
                if -n <= i < n:
                    require_eq(q[i], model[i], "q[%d] of %d" % (i, n))
                    accessed |= left
                else:
                    expect_index_error(lambda: q[i], "q[%d] of %d elements" % (i, n))
            elif k == "w" and case["kind"] == "memory":
                i = op[1]
                n = len(model)
                if -n <= i < n:
                    q[i] = uid
                    model[i] = uid
                    accessed |= left
                else:
                    def put(i=i):
                        q[i] = -1
                    expect_index_error(put, "q[%d]=x of %d elements" % (i, n))
                uid += 1
            elif k == "s":
                n = min(op[1], len(model))
                got = q.sample(n)
                require_eq(len(got), n, "sample size")
                require(len(set(got)) == n and set(got) <= set(model),
                        "sample(%d) of %s gave %s", n, model, got)
                accessed |= left and n > 0
                if n == 0 and op[1] > 5:
                    try:
                        q.sample(len(model) + 1)
                        require(False, "sampling more than the population was accepted")
                    except ValueError:
                        pass
            elif k == "d" and case["kind"] == "memory":
                q = pickle.loads(pickle.dumps(q))
                require_eq(q.maxlen, maxlen, "maxlen after pickling")
            require_eq(len(q), len(model), "len")
            require_eq(list(q), model, "iteration")
        for i in range(-len(model), len(model)):
            require_eq(q[i], model[i], "q[%d]" % i)
        expect_index_error(lambda: q[len(model)], "q[len]")
        expect_index_error(lambda: q[-len(model) - 1], "q[-len-1]")
        require_eq(q.maxlen, maxlen, "maxlen")
    finally:
        if d:
            q.close()
            shutil.rmtree(d, ignore_errors=True)
    labels = [case["kind"]]
    if left:
        labels.append("left")
    if left and accessed:
        labels.append("nontrivial")
    return labels


def queue_strategy():
    small = dict(
        kind=pick(["memory", "memory", "memory", "persistent"]),
        maxlen=st.one_of(st.none(), st.integers(0, 3), st.integers(1, 12)),
        init=st.one_of(st.none(), st.lists(st.integers(0, 99), max_size=8, unique=True)),
        seed=seeds, ops=sized_list(queue_op(), 0, 60))
    ix = st.one_of(st.integers(-3, 3), spread(-400, 400))
    bulk = tup(st.just("x"), spread(0, 200), st.integers(0, 3))
    large = dict(
        kind=pick(["memory", "memory", "memory", "persistent"]),
        maxlen=st.one_of(st.none(), spread(13, 400)),
        init=st.one_of(st.none(), spread(0, 300).map(lambda n: list(range(n)))),
        seed=seeds, ops=sized_list(st.one_of(
            bulk, bulk, tup(st.just("p"), spread(1, 150)), tup(st.just("g"), ix),
            tup(st.just("w"), ix), tup(st.just("s"), spread(0, 200)), st.just(["d"]),
            queue_op()), 0, 14))
    small, large = st.fixed_dictionaries(small), st.fixed_dictionaries(large)
    return st.one_of(small, small, small, large)


def queue_op():
    return st.one_of(
        st.just(["a"]), st.just(["a"]),
        tup(st.just("x"), st.integers(0, 6), st.integers(0, 3)),
        tup(st.just("p"), st.integers(1, 3)),
        tup(st.just("g"), st.integers(-12, 12)),
        tup(st.just("w"), st.integers(-12, 12)),
        tup(st.just("s"), st.integers(0, 10)),
        st.just(["d"]),
    )


def run_tree(case):
    seed_all(case["seed"])
    s, mi = SumTreeQueue(), MinTreeQueue()
    model = []
    popped = wrote = False
    for op in case["ops"]:
        k = op[0]
        if k == "a":
            for v in op[1]:
                s.append(v)
                mi.append(v)
                model.append(v)
        elif k == "p":
            for _ in range(min(op[1], len(model))):
                want = model.pop(0)
                require_close(s.popleft(), want, "sum tree popleft", rtol=0, atol=0)
                require_close(mi.popleft(), want, "min tree popleft", rtol=0, atol=0)
                popped = True
        elif k == "w" and model:
            i = op[1] % len(model)
            s[i] = op[2]
            mi[i] = op[2]
            model[i] = op[2]
            wrote |= popped
        elif k == "u" and model:
            n = min(op[1], len(model))
            f = s.uniform_sample if op[2] else s.prioritized_sample
            if not op[2]:
                n = min(n, sum(v > 0 for v in model))
            ix, vals = f(n, remove=op[3])
            require(len(set(ix)) == n and all(0 <= i < len(model) for i in ix),
                    "sample(%d) of %d gave indices %s", n, len(model), ix)
            for i, v in zip(ix, vals):
                require_close(v, model[i], "value at sampled index", rtol=0, atol=0)
            if op[3]:
                for i in ix:
                    s[i] = model[i]
        require_close(s.sum(), float(sum(model)), "sum", rtol=1e-12, atol=1e-300)
        require_close(mi.min(), min(model) if model else np.inf, "min", rtol=0, atol=0)
    return ["nontrivial"] if popped and wrote else []


def tree_strategy():
    val = st.one_of(pick([1.0, 0.5, 2.0]),
                    st.tuples(spread(1, 999), st.integers(-6, 3)).map(lambda t: t[0] * 10.0 ** t[1]))
    op = st.one_of(
        tup(st.just("a"), st.lists(val, min_size=1, max_size=10)),
        tup(st.just("p"), st.integers(1, 8)),
        tup(st.just("w"), spread(0, 40), val),
        tup(st.just("u"), st.integers(1, 8), flag, flag))
    vals = st.tuples(spread(1, 200), val, val).map(
        lambda t: [t[1] + (i % 17) * t[2] for i in range(t[0])])
    bulk = st.one_of(
        tup(st.just("a"), vals), tup(st.just("a"), vals), tup(st.just("p"), spread(1, 150)),
        tup(st.just("w"), spread(0, 400), val),
        tup(st.just("u"), spread(1, 100), flag, flag), op)
    small = st.fixed_dictionaries(dict(seed=seeds, ops=sized_list(op, 1, 30)))
    large = st.fixed_dictionaries(dict(seed=seeds, ops=sized_list(bulk, 1, 14)))
    return st.one_of(small, small, small, large)


def run_nk(case):
    n, k = case["n"], case["k"]
    k = min(k, n)
    seed_all(case["seed"])
    got = sample_n_k(n, k)
    require_eq(len(got), k, "number of indices")
    require(len(set(int(i) for i in got)) == k and all(0 <= i < n for i in got),
            "sample_n_k(%d, %d) gave %s", n, k, list(got))
    for bad in [(n, n + 1), (n, -1)]:
        try:
            sample_n_k(*bad)
            require(False, "sample_n_k%s was accepted", (bad,))
        except ValueError:
            pass
    return ["nontrivial"] if 0 < k < n else []


def run_nk_freq(case):
    n = case["n"]
    k = max(1, min(n, int(case["frac"] * n)))
    seed_all(case["seed"])
    # every index is expected at least ~80 times
    T = max(3000 if n <= 40 else 200, int(80 * n / k))
    inc = np.zeros(n)
    pos = np.zeros((2, n))
    adj = 0
    for _ in range(T):
        g = sample_n_k(n, k)
        inc[g] += 1
        pos[0, g[0]] += 1
        pos[1, g[-1]] += 1
        adj += (0 in g) and (n - 1 in g)
    require_freq(inc, np.full(n, k / n), T, "inclusion")
    bins = min(n, 20)  # a large population is binned
    b = np.arange(n) * bins // n
    size = np.bincount(b, minlength=bins)
    for row, what in zip(pos, ["first index", "last index"]):
        require_freq(np.bincount(b, weights=row, minlength=bins), size / n, T, what)
    if n > 1:
        require_freq([adj], [k * (k - 1) / (n * (n - 1))], T, "pair inclusion")
    return ["nontrivial"] if k < n else []


QUICK_SCALE = 2

SUBS = [
    Sub("queue", queue_strategy, run_queue, quick=5000, thorough=300000, shards=5),
    Sub("tree", tree_strategy, run_tree, quick=3000, thorough=200000, shards=3),
    Sub("sample_n_k", st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(0, 12), spread(0, 400)),
        k=st.one_of(st.integers(0, 12), spread(0, 140)), seed=seeds)),
        run_nk, quick=6000, thorough=300000, shards=2),
    Sub("sample_n_k_freq", st.fixed_dictionaries(dict(
        n=st.one_of(spread(1, 40), spread(41, 2000)), frac=pick([0.05, 0.1, 0.2, 0.3, 0.34, 0.5, 0.9, 1.0]),
        seed=seeds)), run_nk_freq, quick=60, thorough=2000, shards=2),
]
