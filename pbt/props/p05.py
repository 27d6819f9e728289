"""P05: persistent queues across restarts, ancestors and crashes."""
import builtins
import hashlib
import io
import os
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation, require, require_eq, seed_all
from pbt.gens import pick, flag, seeds, sized_list, spread, tup

from pfrl.collections.persistent_collections import PersistentRandomAccessQueue
from pfrl.replay_buffers import PersistentEpisodicReplayBuffer, PersistentReplayBuffer

LEVEL = "fault_enumeration"
RULE = """'sessions' cases are histories over several directories: open (with generated
maximum length, chunk size and ancestor), append, extend, pop, close or abandon without
closing, reopen; non-trivial: some directory was reopened after appends or opened on an
ancestor with data. 'crash' cases enumerate every byte at which a session's writes can be
cut off (all of them; for sessions of more than 1500 bytes those within 12 bytes of the end
of a write and 60 more) after a generated clean prefix, reopen and compare;
non-trivial: at least one crash point lies inside an element's write. Every crash point is
one reopen; the label counts are per case."""
ASSUMPTIONS = [
    "a crash is the death of the process: bytes handed to the OS survive in order, "
    "bytes in user-space buffers are lost (no power failure)",
    "one process uses a directory at a time",
    "reopening a directory that had an ancestor names the ancestor again, as the API requires",
]


def chunked(size):
    if size is None:
        return PersistentRandomAccessQueue

    class Small(PersistentRandomAccessQueue):
        # rotate data files early; has no effect if rotation is done otherwise
        chunk_size = property(lambda self: size)

    return Small


def payload(i, kind):
    if kind == 0:
        return i
    if kind == 1:
        return {"uid": i, "obs": np.arange(i % 5) + i, "s": "x" * (i % 7)}
    if kind == 2:
        return [i, (i, None), b"\x80\x04" * (i % 4)]
    if kind == 4:  # larger than any write buffer
        return ("big", i, bytes([i % 251]) * (5000 + 997 * (i % 9)))
    return ("k", i, [float(i)] * (i % 9))


def pid(x):
    if isinstance(x, dict):
        i = x["uid"]
        k = 1
    elif isinstance(x, list):
        i, k = x[0], 2
    elif isinstance(x, tuple):
        i, k = x[1], 4 if x[0] == "big" else 3
    else:
        return x
    want = payload(i, k)
    if k == 1:
        require(set(x) == set(want) and x["s"] == want["s"]
                and np.array_equal(x["obs"], want["obs"]), "element %d was altered: %r", i, x)
    else:
        require_eq(x, want, "element %d" % i)
    return i


def content(q):
    return [pid(x) for x in q]


def digest(d):
    h = hashlib.md5()
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode())
            with open(p, "rb") as fp:
                h.update(fp.read())
    return h.hexdigest()


def newest(xs, maxlen):
    return list(xs) if maxlen is None else list(xs)[max(0, len(xs) - maxlen):]


def run_sessions(case):
    seed_all(case["seed"])
    base = tempfile.mkdtemp()
    labels = set()
    cls = chunked(case["chunk"])
    own = {}      # dir -> uids appended in all its sessions
    anc = {}      # dir -> ancestor at creation
    q = None
    cur = None
    uid = 0
    try:
        def lineage(d):
            return (lineage(anc[d]) if anc[d] is not None else []) + own[d]

        def leave(clean):
            nonlocal q
            if q is not None:
                if clean:
                    q.close()
                q = None

        mem = []
        ml = None
        for op in case["ops"]:
            k = op[0]
            if k == "o":
                _, di, maxlen, ai, clean = op
                leave(clean)
                d = os.path.join(base, "q%d" % di)
                new = d not in own
                # an ancestor must exist and lie before, so that lineages are acyclic
                a = os.path.join(base, "q%d" % ai) if ai is not None else None
                if a is not None and (a not in own or ai >= di):
                    a = None
                if not new:
                    a = anc[d]
                if a is not None:
                    before = digest(a)
                if a is None:
                    q = cls(d, maxlen)
                else:
                    q = cls(d, maxlen, ancestor=a)
                if new:
                    own[d] = []
                    anc[d] = a
                want = (lineage(a) if a is not None else []) + own[d]
                mem = newest(want, maxlen)
                ml = maxlen
                require_eq(content(q), mem, "content after opening %s (maxlen %s)"
                           % (os.path.basename(d), maxlen))
                if a is not None:
                    require_eq(digest(a), before, "files of the ancestor")
                    labels.add("ancestor" if lineage(a) else "empty-ancestor")
                    if anc[a] is not None:
                        labels.add("grandparent")
                if not new and own[d]:
                    labels.add("reopened")
                cur = d
                cur_a, cur_a_digest = a, (digest(a) if a else None)
            elif q is None:
                continue
            elif k == "a":
                for _ in range(op[1]):
                    q.append(payload(uid, op[2]))
                    own[cur].append(uid)
                    mem.append(uid)
                    uid += 1
                mem = newest(mem, ml)
            elif k == "x":
                xs = [payload(uid + i, op[2]) for i in range(op[1])]
                q.extend(xs if op[3] else iter(xs))
                ids = list(range(uid, uid + op[1]))
                own[cur] += ids
                mem = newest(mem + ids, ml)
                uid += op[1]
            elif k == "p" and mem:
                # popping only concerns memory; the storage keeps the element
                require_eq(pid(q.popleft()), mem.pop(0), "popleft")
            if q is not None:
                require_eq(content(q), mem, "content")
                if cur_a:
                    require_eq(digest(cur_a), cur_a_digest, "files of the ancestor")
        leave(True)
        for d in sorted(own):
            q = cls(d, None, ancestor=anc[d]) if anc[d] else cls(d, None)
            require_eq(content(q), lineage(d), "everything ever appended to "
                       + os.path.basename(d))
            leave(True)
    finally:
        if q is not None:
            q = None
        shutil.rmtree(base, ignore_errors=True)
    if labels & {"ancestor", "reopened"}:
        labels.add("nontrivial")
    return sorted(labels)


def sessions_strategy():
    op = st.one_of(
        tup(st.just("o"), st.integers(0, 3),
            st.one_of(st.none(), st.integers(1, 6), spread(1, 40)),
            st.one_of(st.none(), st.integers(0, 2), st.integers(0, 2)), flag),
        tup(st.just("a"), st.integers(1, 7), st.integers(0, 4)),
        tup(st.just("a"), st.one_of(st.integers(1, 7), spread(8, 60)), st.integers(0, 3)),
        tup(st.just("x"), st.integers(0, 7), st.integers(0, 3), flag),
        tup(st.just("p")),
    )
    return st.fixed_dictionaries(dict(
        seed=seeds, chunk=pick([None, None, 1, 30, 200]),
        ops=sized_list(op, 2, 30)))


def run_lineage(case):
    cls = chunked(case["chunk"])
    base = tempfile.mkdtemp()
    uid = 0
    deep = False
    try:
        dirs, data = [], []
        for lv, (sessions, maxlen) in enumerate(case["levels"]):
            d = os.path.join(base, "g%d" % lv)
            anc = dirs[-1] if dirs else None
            before = [digest(x) for x in dirs]
            own = []
            inherited = [u for xs in data for u in xs]
            for n in sessions:
                q = cls(d, maxlen, ancestor=anc) if anc else cls(d, maxlen)
                require_eq(content(q), newest(inherited + own, maxlen),
                           "content on opening level %d with maxlen %s" % (lv, maxlen))
                deep |= lv >= 2 and len(inherited) > 0
                for _ in range(n):
                    q.append(payload(uid, uid % 4))
                    own.append(uid)
                    uid += 1
                require_eq(content(q), newest(inherited + own, maxlen), "content")
                q.close()
                q = None
            require_eq([digest(x) for x in dirs], before, "files of the ancestors")
            dirs.append(d)
            data.append(own)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return ["nontrivial", "deep"] if deep else []


def lineage_strategy():
    level = tup(st.lists(spread(0, 9), min_size=1, max_size=3),
                st.one_of(st.none(), spread(1, 6), spread(1, 40)))
    return st.fixed_dictionaries(dict(
        chunk=pick([None, None, 1, 30, 200]),
        levels=st.lists(level, min_size=2, max_size=4)))


# --- crashes ---------------------------------------------------------------


class SimCrash(BaseException):
    pass


class Disk:
    """Every byte that reaches the OS is counted; at `budget` the process 'dies'."""

    def __init__(self, root, budget):
        self.root, self.budget, self.dead, self.written = root, budget, False, 0
        self.ends = [0]
        self.real_open = builtins.open

    def open(self, file, mode="r", *a, **kw):
        if not (isinstance(file, (str, os.PathLike)) and str(file).startswith(self.root)
                and any(c in mode for c in "wax+") and "b" in mode):
            return self.real_open(file, mode, *a, **kw)
        if self.dead:
            raise SimCrash()
        return io.BufferedWriter(Raw(self, file, mode.replace("b", "")))

    def __enter__(self):
        builtins.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = self.real_open


class Raw(io.FileIO):
    def __init__(self, disk, file, mode):
        self.disk = disk
        super().__init__(file, mode)

    def write(self, b):
        d = self.disk
        b = bytes(b)
        if d.dead:
            return len(b)  # nobody sees this
        if d.budget is not None and d.written + len(b) > d.budget:
            super().write(b[:d.budget - d.written])
            d.written = d.budget
            d.dead = True
            raise SimCrash()
        d.written += len(b)
        d.ends.append(d.written)
        return super().write(b)


def session(cls, d, maxlen, anc, ops, start, disk=None):
    """Runs ops; returns (acked uids, uids in flight at a crash, crashed)."""
    acked, flight, crashed = [], [], False
    q = None
    uid = start
    try:
        q = cls(d, maxlen, ancestor=anc) if anc else cls(d, maxlen)
        for op in ops:
            if op[0] == "a":
                flight = [uid]
                q.append(payload(uid, op[2]))
            else:
                flight = list(range(uid, uid + op[1]))
                q.extend([payload(i, op[2]) for i in flight])
            acked += flight
            uid += len(flight)
            flight = []
        q.close()
    except SimCrash:
        crashed = True
    finally:
        q = None
        pass
    return acked, flight, crashed


def run_crash(case):
    cls = chunked(case["chunk"])
    base = tempfile.mkdtemp()
    try:
        pre = os.path.join(base, "pre")
        anc = None
        prior = []
        if case["anc"]:
            anc = os.path.join(base, "anc")
            a, _, _ = session(cls, anc, None, None, [["a", 1, 0]] * case["anc"], 9000)
            prior = a
        d0 = os.path.join(base, "q")
        clean = []
        for i, ops in enumerate(case["before"]):
            a, _, _ = session(cls, d0, case["maxlen"], anc, ops, 100 * (i + 1))
            clean += a
        # measure the writes of the crashing session
        image = os.path.join(base, "image")
        if os.path.exists(d0):
            shutil.copytree(d0, image)
        with Disk(d0, None) as disk:
            full, _, _ = session(cls, d0, case["maxlen"], anc, case["ops"], 5000)
        total = disk.written
        inside = 0
        points = range(0, total + 1)
        if total > 1500:
            # large elements: around the ends of the writes, and evenly in between
            points = sorted({c for e in disk.ends for c in range(e - 12, e + 13)
                             if 0 <= c <= total} | set(range(0, total, total // 60)))
        for c in points:
            shutil.rmtree(d0, ignore_errors=True)
            if os.path.exists(image):
                shutil.copytree(image, d0)
            with Disk(d0, c) as disk:
                acked, flight, crashed = session(
                    cls, d0, case["maxlen"], anc, case["ops"], 5000, disk)
            inside += bool(flight) and crashed
            tag = "crash after byte %d of %d" % (c, total)
            want_lo = clean + acked
            q = None
            try:
                q = cls(d0, None, ancestor=anc) if anc else cls(d0, None)
                got = content(q)
                base_n = len(prior)
                require_eq(got[:base_n], prior, tag + ": ancestor data")
                got = got[base_n:]
                require_eq(got[:len(want_lo)], want_lo, tag + ": elements whose append returned")
                extra = got[len(want_lo):]
                require(extra == flight[:len(extra)],
                        "%s: recovered %s that was never appended (in flight: %s)",
                        tag, extra, flight)
                q.append(payload(7777, 1))
                q.close()
                q = None
                q = cls(d0, case["maxlen"], ancestor=anc) if anc else cls(d0, case["maxlen"])
                require_eq(content(q), newest(prior + want_lo + extra + [7777], case["maxlen"]),
                           tag + ": content after recovery and one more append")
                q.close()
                q = None
            except Violation:
                raise
            except Exception as e:
                raise Violation("%s: recovery failed: %r" % (tag, e)) from e
            finally:
                q = None
    finally:
        shutil.rmtree(base, ignore_errors=True)
    labels = ["before:%d" % len(case["before"]), ("crash_points", len(points))]
    if inside:
        labels.append("nontrivial")
    return labels


def crash_strategy():
    kind = pick([0, 1, 2, 3, 0, 1, 2, 3, 4])
    op = st.one_of(tup(st.just("a"), st.just(1), kind),
                   tup(st.just("x"), st.integers(1, 3), kind))
    return st.fixed_dictionaries(dict(
        chunk=pick([None, 1, 30, 120]),
        maxlen=st.one_of(st.none(), st.integers(1, 6)),
        anc=pick([0, 0, 0, 2]),
        before=st.lists(st.lists(op, max_size=3), max_size=2),
        ops=st.lists(op, min_size=1, max_size=3)))


# --- replay buffer on top --------------------------------------------------


def run_buffer(case):
    """Replay buffers kept in a directory: what earlier sessions stored is there again, whole windows and episodes included,
    and saving or loading them (as agents' snapshots do) changes nothing."""
    seed_all(case["seed"])
    top = tempfile.mkdtemp()
    d = os.path.join(top, "d0")
    try:
        cap = case["cap"]
        uid = 0
        kept = []       # transitions, or finished episodes
        epi = case["episodic"]

        def item(w):
            return [w["state"], w["action"], w["reward"], w["next_state"], bool(w["is_state_terminal"])]

        def want():
            if not epi:
                return newest(kept, cap)
            eps = list(kept)
            while cap is not None and sum(map(len, eps)) > cap:
                eps.pop(0)
            return eps

        def check(buf, what):
            w = want()
            flat = w if not epi else [x for e in w for x in e]
            require_eq(len(buf), len(flat), "%s: length" % what)
            if epi:
                require_eq(buf.n_episodes, len(w), "%s: episodes" % what)
            if flat:
                got = buf.sample(len(flat))
                require(all(len(x) == 1 for x in got), "%s: a stored item is not one transition", what)
                got = [x[0] for x in got]
                require_eq(sorted(map(item, got)), sorted(flat), "%s: content" % what)
            if epi and w:
                got = buf.sample_episodes(len(w))
                require_eq(sorted([item(x) for x in e] for e in got), sorted(w), "%s: episodes" % what)

        cls = PersistentEpisodicReplayBuffer if epi else PersistentReplayBuffer
        anc, before = None, None
        for i_session, n in enumerate(case["sessions"]):
            if i_session and i_session in case["move"]:
                # continued in another directory, with the present one as the ancestor
                anc, d = d, os.path.join(top, "d%d" % i_session)
                before = digest(anc)
            buf = cls(d, cap, ancestor=anc) if anc else cls(d, cap)
            check(buf, "after opening on an ancestor" if anc else "after reopening")
            current = []
            for i in range(n):
                x = [uid, uid * 7 % 5, 0.5 * uid - 3, uid + 1, (uid * 13 + case["seed"]) % 4 == 3]
                buf.append(state=x[0], action=x[1], reward=x[2], next_state=x[3], is_state_terminal=x[4])
                uid += 1
                current.append(x)
                if not epi:
                    kept.append(x)
                elif x[4]:
                    kept.append(current)
                    current = []
                if i == case["save"] % 8:
                    buf.save(os.path.join(d, "unused"))
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        buf.load(os.path.join(d, "unused"))
            if n:
                buf.stop_current_episode()
                if epi and current:
                    kept.append(current)
            buf.save(os.path.join(d, "unused"))
            check(buf, "before closing")
            if case["close"] and not epi:
                buf.memory.close()
            del buf
            require(not os.path.exists(os.path.join(d, "unused")), "saving a persistent buffer writes elsewhere")
            if anc:
                require_eq(digest(anc), before, "files of the ancestor")
        check(cls(d, cap, ancestor=anc) if anc else cls(d, cap), "at the end")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return ["nontrivial", "episodic" if case["episodic"] else "flat"] + ["ancestor"] * bool(anc) if sum(
        n > 0 for n in case["sessions"]) > 1 else []


SUBS = [
    Sub("sessions", sessions_strategy, run_sessions, quick=1200, thorough=50000, shards=4),
    Sub("lineage", lineage_strategy, run_lineage, quick=800, thorough=40000, shards=3),
    Sub("crash", crash_strategy, run_crash, quick=60, thorough=2500, shards=5),
    Sub("buffer", st.fixed_dictionaries(dict(
        cap=st.one_of(st.none(), spread(1, 15)), seed=seeds,
        episodic=flag, save=st.integers(0, 20), close=flag, move=st.lists(st.integers(1, 4), max_size=2),
        sessions=st.lists(st.integers(0, 12), min_size=1, max_size=5))),
        run_buffer, quick=200, thorough=5000),
]
