"""P06: saving and loading restores buffers and agents exactly."""
import copy
import os
import warnings
from contextlib import contextmanager

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import zoo
from pbt.core import Sub, require, require_eq, rng, scratch, seed_all
from pbt.gens import flag, pick, seeds, sized_list, spread, tup

from pfrl import replay_buffers as RB
from pfrl.agent import AttributeSavingMixin

warnings.filterwarnings("ignore")

RULE = """'buffer': a history of append / end of episode / sample / update of priorities on a replay
buffer, a save in between, a load into a fresh buffer, and a second half of the history applied to
both: contents, draws and evictions have to be the same. 'agent': an agent kind with random settings
lives through a history, is saved and loaded into an agent built with other random weights: every
network and optimizer tensor and the greedy actions have to be the same, and so have the parameters
after further equal experiences. 'snapshot': the same for the snapshots of the Q-learning agents,
with replay buffer and counters. 'nested': generated trees of objects with saved attributes (modules bare or wrapped for
parallel use, optimizers, missing ones, further such objects). Non-trivial: the saved object held data (buffer) or had been
updated at least once (agents)."""
ASSUMPTIONS = [
    "annealed importance exponents and step counters are not part of plain agent or buffer files",
    "saves are compared between episodes: environment states are not saved, so a resumed run starts "
    "a new episode"]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if torch.is_tensor(a):
        return torch.is_tensor(b) and a.dtype == b.dtype and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


# ------------------------------------------------------------------ buffers
KINDS = ["plain", "prioritized", "episodic", "pepisodic"]


def make(c):
    o = c["opts"]
    if c["kind"] == "plain":
        return RB.ReplayBuffer(c["capacity"], num_steps=o["n"])
    if c["kind"] == "prioritized":
        return RB.PrioritizedReplayBuffer(c["capacity"], alpha=o["alpha"], beta0=0.7,
                                          betasteps=None, num_steps=o["n"],
                                          normalize_by_max=o["norm"])
    if c["kind"] == "episodic":
        return RB.EpisodicReplayBuffer(c["capacity"])
    return RB.PrioritizedEpisodicReplayBuffer(
        capacity=c["capacity"], alpha=o["alpha"], beta0=0.7, betasteps=None,
        normalize_by_max=o["norm"], uniform_ratio=o["uniform"],
        default_priority_func=(lambda ep: 0.5 + len(ep)) if o["func"] else None)


class Driver:
    """Applies the same operation to one or more buffers and requires the same results."""

    def __init__(self, c, r):
        self.c, self.r = c, r
        self.uid = 0
        self.draws = 0
        self.pending = 0

    def transition(self, term):
        self.uid += 1
        r = self.r
        return dict(state=r.randn(2).astype(np.float32), action=int(r.randint(5)),
                    reward=float(r.randn()), next_state=r.randn(2).astype(np.float32),
                    next_action=None, is_state_terminal=term, uid=self.uid,
                    recurrent_state=torch.as_tensor(r.randn(1, 2)))

    def apply(self, bufs, op):
        kind, a, b = op
        pr = self.c["kind"] in ("prioritized", "pepisodic")
        epi = self.c["kind"] in ("episodic", "pepisodic")
        if self.pending and kind in ("append", "stop"):
            self.update(bufs)  # priorities are due before the buffer changes
        if kind == "append":
            t = self.transition(a % 5 == 0)
            for x in bufs:
                x.append(**dict(t), env_id=b % 2)
        elif kind == "stop":
            for x in bufs:
                x.stop_current_episode(env_id=a % 2)
        elif kind == "sample":
            if self.pending:
                self.update(bufs)
            if epi and (pr or a % 2):
                n = bufs[0].n_episodes
                if not n:
                    return
                k = 1 + b % n
                ml = [None, 1, 2, 3][a % 4]
                f = lambda x: x.sample_episodes(k, ml)  # noqa: E731
                self.pending = k if pr else 0
            else:
                n = len(bufs[0])
                if not n:
                    return
                k = 1 + b % n
                f = lambda x: x.sample(k)  # noqa: E731
                self.pending = k if pr else 0
            s = zoo.freeze()
            outs = []
            for x in bufs:
                zoo.thaw(s)
                outs.append(f(x))
            for y in outs[1:]:
                require(same(_plain(y), _plain(outs[0])),
                        "%s: draw of %d differs after loading: %s, without: %s", self.c["kind"],
                        k, _uids(y), _uids(outs[0]))
            self.draws += 1
        elif kind == "update" and self.pending:
            self.update(bufs)

    def update(self, bufs):
        e = np.abs(self.r.randn(self.pending)).tolist()
        for x in bufs:
            x.update_errors(list(e))
        self.pending = 0


def _zero(x):
    if isinstance(x, (tuple, list)):
        return all(_zero(v) for v in x)
    return x is None or not torch.is_tensor(x) or not x.any()


def _plain(x):
    if isinstance(x, dict):
        # no recurrent state and an all-zero one are the same
        return {k: None if "recurrent_state" in k and _zero(v) else _plain(v)
                for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, np.generic):
        return float(x)
    return x


def _uids(x):
    if isinstance(x, dict):
        return x.get("uid")
    if isinstance(x, (list, tuple)):
        return [_uids(v) for v in x]
    return x


def contents(b):
    """Everything stored, in the order of eviction."""
    if hasattr(b, "episodic_memory"):
        em = b.episodic_memory
        return (len(b), b.n_episodes, [_plain(x) for x in b.memory],
                [_plain(x) for x in (em.data if hasattr(em, "data") else em)])
    m = b.memory
    return (len(b), [_plain(x) for x in (m.data if hasattr(m, "data") else m)])


def run_buffer(c):
    seed_all(c["seed"])
    d = Driver(c, rng(c["seed"]))
    a = make(c)
    for op in c["before"]:
        d.apply([a], op)
    if not c["mid"]:
        if d.pending:
            d.update([a])
        for e in (0, 1):
            a.stop_current_episode(env_id=e)
        if c["pending"]:  # saved between a draw and the update of its priorities
            d.apply([a], ["sample", 0, 1])
    held = len(a)
    with scratch() as tmp:
        f = os.path.join(tmp, "buffer.pkl")
        was = contents(a)
        s = zoo.freeze()
        a.save(f)
        require(same(was, contents(a)), "%s: saving changed the buffer", c["kind"])
        b = make(c)
        if c["dirty"]:
            Driver(c, rng(c["seed"] + 1)).apply([b], ["append", 0, 0])
        b.load(f)
        zoo.thaw(s)
    require(same(was, contents(b)), "%s: contents after loading differ: %s, saved %s", c["kind"],
            _uids(list(contents(b)[1:])), _uids(list(was[1:])))
    require_eq(len(b), held, "length after loading")
    require_eq(b.capacity, a.capacity, "capacity after loading")
    if not c["mid"]:
        for op in c["after"]:
            d.apply([a, b], op)
            require_eq(len(b), len(a), "%s: length after loading and %s" % (c["kind"], op))
        require(same(contents(a), contents(b)),
                "%s: contents differ after the same operations: loaded %s, original %s",
                c["kind"], _uids(list(contents(b)[1:])), _uids(list(contents(a)[1:])))
    return [c["kind"]] + (["nontrivial"] if held else []) + (
        ["continued"] if held and d.draws and not c["mid"] else [])


def buffer_cases():
    op = st.one_of(tup(st.just("append"), spread(0, 9), spread(0, 1)),
                   tup(st.just("append"), spread(0, 9), spread(0, 1)),
                   tup(st.just("append"), spread(0, 9), spread(0, 1)),
                   tup(st.just("sample"), spread(0, 9), spread(0, 9)),
                   tup(st.just("stop"), spread(0, 1), st.just(0)),
                   tup(st.just("update"), st.just(0), st.just(0)))
    return st.fixed_dictionaries(dict(
        capacity=pick([None, 4, 9, 20]), seed=seeds, mid=pick(
            [False, False, True]), pending=flag, dirty=flag,
        opts=st.fixed_dictionaries(dict(n=spread(1, 3), alpha=pick([0.6, 1.0]), norm=pick(
            ["batch", "memory"]), uniform=pick([0, 0.3]), func=flag)),
        before=sized_list(op, 0, 40), after=sized_list(op, 0, 30)))


# ------------------------------------------------------------------ agents
def dirty_life(ag, name, n_env, seed):
    """A short life which leaves no trace in what loading restores."""
    single = name in zoo.SINGLE
    with ag.eval_mode():
        for s in zoo.world(seed, n_env, [0, -1]):
            zoo.step(ag, s, single)


def experiences(ag, k, batch):
    """Windows of the agent's own buffer."""
    w = zoo.windows(ag.replay_buffer)
    if not w:
        return None
    r = rng(k)
    pickd = [w[i] for i in r.choice(len(w), size=min(batch, len(w)), replace=False)]
    out = []
    for win in pickd:
        extra = (dict(weight=float(r.uniform(0.3, 1)))
                 if isinstance(ag.replay_buffer, RB.PrioritizedReplayBuffer) else {})
        out.append([dict(t, **extra) for t in win])
    return out


def greedy(ag, name, seed, n_env):
    single = name in zoo.SINGLE
    acts = []
    seed_all(seed)
    with ag.eval_mode():
        for s in zoo.world(seed, n_env, [0, 0, -1, 0]):
            acts += zoo.step(ag, s, single)
    return acts


def aligned(name, cfg, rows):
    """Number of steps (and the rows) after which an on-policy agent has nothing pending."""
    rows = [r & 3 for r in rows]
    if name in ("PPO", "PPOc", "RPPO", "TRPO", "RTRPO"):
        u = cfg["interval"] + 3
        rows = (rows * u)[:u * max(1, len(rows) // u)]
    elif name in ("A2C", "A2Cc"):
        u = cfg["interval"] + 1
        rows = (rows * u)[:u * max(1, len(rows) // u)]
    elif name in ("REINFORCE", "RREINFORCE"):
        rows = rows[:-1] + [1]
        n_ep = sum(1 for r in rows if r & 1)  # interrupted episodes are thrown away
        if n_ep % cfg["times"]:
            rows = rows + [1]
        return rows
    return rows[:-1] + [1]


@contextmanager
def steady(seed):
    """Every draw from a distribution restarts the generator: A2C draws twice from the same
    distribution on its very first step, which must not count as a difference."""
    saved = {}
    for cls in (torch.distributions.Categorical, torch.distributions.Independent):
        f = saved[cls] = cls.sample

        def sample(self, *a, _f=f, **k):
            torch.manual_seed(seed)
            return _f(self, *a, **k)

        cls.sample = sample
    try:
        yield
    finally:
        for cls, f in saved.items():
            cls.sample = f


def run_agent(c):
    name = c["agent"]
    cfg = zoo.fix(name, dict(c["cfg"], n_env=1) if c["agent"] not in zoo.REPLAY else c["cfg"])
    N = cfg["n_env"]
    single = name in zoo.SINGLE or (N == 1 and c["single"])
    replay = name in zoo.REPLAY
    seed_all(c["seed"])
    a = zoo.make(name, cfg)
    init = zoo.tensors(a)
    rows = aligned(name, cfg, c["rows"])
    if replay:
        rows = c["rows"][:-1] + [-1]
    for s in zoo.world(c["seed"], N, rows):
        zoo.step(a, s, single)
    if name == "TD3" and a.q_func_n_updates % 2:
        e = experiences(a, 5, 2)
        if e:
            a.update(e)
    before = zoo.tensors(a)
    updated = zoo.diff(init, before) is not None
    with scratch() as tmp:
        st0 = zoo.freeze()
        a.save(os.path.join(tmp, "x", "agent"))
        d = zoo.diff(before, zoo.tensors(a))
        require(d is None, "%s: saving changed %s", name, d)
        st1 = zoo.freeze()
        require(same(list(st0[1][1]), list(st1[1][1])) and torch.equal(st0[2], st1[2])
                and st0[0] == st1[0], "%s: saving consumed random numbers", name)
        b = zoo.make(name, cfg, seed=cfg["netseed"] + 99)
        if c["dirty"]:
            dirty_life(b, name, N, c["seed"])
        b.load(os.path.join(tmp, "x", "agent"))
        if name in zoo.SINGLE:
            zoo.share(b)
        elif hasattr(b, "t"):
            b.t = a.t  # as the training loops do when they resume with a step offset
        if getattr(a, "replay_buffer", None) is not None and not replay:
            a.replay_buffer.save(os.path.join(tmp, "rb"))
            b.replay_buffer.load(os.path.join(tmp, "rb"))
    d = zoo.diff(before, zoo.tensors(b))
    require(d is None, "%s: %s differs after loading: saved %s, loaded %s", name, d,
            before.get(d), zoo.tensors(b).get(d))
    ga, gb = greedy(a, name, c["seed"] + 3, N), greedy(b, name, c["seed"] + 3, N)
    for k, (x, y) in enumerate(zip(ga, gb)):
        require(np.array_equal(x, y), "%s: greedy action %d is %s before saving and %s after "
                "loading", name, k, x, y)
    # resumed learning
    if replay:
        rec = name in zoo.RECURRENT_Q
        for k in range(3):
            e = experiences(a, c["seed"] + k, cfg["batch"])
            if e is None:
                break
            for ag in (a, b):
                seed_all(c["seed"] + 10 + k)
                if rec:
                    e = sorted(e, key=len, reverse=True)
                    ag.update_from_episodes(e)
                else:
                    if isinstance(ag.replay_buffer, RB.PrioritizedReplayBuffer):
                        ag.replay_buffer.update_errors = lambda errors: None
                    ag.update(e)
            if name.startswith("D") and hasattr(a, "sync_target_network") and k == 1:
                a.sync_target_network()
                b.sync_target_network()
    else:
        rows2 = aligned(name, cfg, c["rows2"])
        for t, s in enumerate(zoo.world(c["seed"] + 4, N, rows2)):
            acts = []
            for ag in (a, b):
                seed_all(c["seed"] + 100 + t)
                if name in ("A2C", "A2Cc"):
                    with steady(c["seed"] + t):
                        acts.append(zoo.step(ag, s, single))
                else:
                    acts.append(zoo.step(ag, s, single))
            require(same(acts[0], acts[1]),
                    "%s: training action %d after resuming is %s, without stopping %s", name, t,
                    acts[1], acts[0])
    d = zoo.diff(zoo.tensors(a), zoo.tensors(b))
    require(d is None, "%s: %s differs after resuming with the same experiences", name, d)
    return [name] + (["nontrivial"] if updated else [])


def run_snapshot(c):
    name = c["agent"]
    cfg = zoo.fix(name, dict(c["cfg"], explorer=c["cfg"]["explorer"] % 2))
    if cfg["prio"]:
        cfg = dict(cfg, prio=False)
    N = cfg["n_env"]
    seed_all(c["seed"])
    a = zoo.make(name, cfg)
    init = zoo.tensors(a)
    for s in zoo.world(c["seed"], N, c["rows"][:-1] + [-1]):
        zoo.step(a, s, False)
    updated = zoo.diff(init, zoo.tensors(a)) is not None
    with scratch() as tmp:
        was = zoo.tensors(a), contents(a.replay_buffer), a.t
        a.save_snapshot(tmp)
        require(zoo.diff(was[0], zoo.tensors(a)) is None and a.t == was[2] and same(
            was[1], contents(a.replay_buffer)), "%s: taking a snapshot changed the agent", name)
        b = zoo.make(name, cfg, seed=cfg["netseed"] + 99)
        b.load_snapshot(tmp)
    x, y = dict(a.get_statistics()), dict(b.get_statistics())
    for k in ("cumulative_steps", "n_updates", "rlen"):
        require_eq(y[k], x[k], "%s: %s after loading a snapshot" % (name, k))
    for t, s in enumerate(zoo.world(c["seed"] + 4, N, c["rows2"])):
        acts = []
        for ag in (a, b):
            seed_all(c["seed"] + 100 + t)
            acts.append(zoo.step(ag, s, False))
        require(same(acts[0], acts[1]), "%s: action %d after the snapshot is %s, without %s", name,
                t, acts[1], acts[0])
    d = zoo.diff(zoo.tensors(a), zoo.tensors(b))
    require(d is None, "%s: %s differs after resuming from a snapshot", name, d)
    require(same(contents(a.replay_buffer), contents(b.replay_buffer)),
            "%s: buffer contents differ after resuming from a snapshot", name)
    return [name] + (["nontrivial"] if updated else [])


def agent_cases():
    return st.fixed_dictionaries(dict(
        cfg=zoo.config(), seed=seeds, single=flag,
        dirty=flag, rows=sized_list(zoo.ROW, 6, 20), rows2=sized_list(zoo.ROW, 4, 14)))


# ------------------------------------------------------------------ composed agents
class Holder(AttributeSavingMixin):
    saved_attributes = ()


def tree(spec, seed, wrap):
    """An object with saved attributes: modules (bare or wrapped for parallel use), optimizers, nothing, others of its kind."""
    h = Holder()
    names = []
    for k, (what, kids) in enumerate(spec):
        a = "a%d" % k
        m = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.BatchNorm1d(2))
        g = torch.Generator().manual_seed(seed * 31 + k)
        with torch.no_grad():
            for p in m.state_dict().values():
                p.copy_((torch.randn(p.shape, generator=g) * 3).to(p.dtype))
        if what == "module":
            v = torch.nn.DataParallel(m) if (wrap + k) % 3 == 0 else m
        elif what == "optimizer":
            v = torch.optim.Adam(m.parameters(), lr=0.01 * (seed % 50 + k + 1))
            for t in range(seed % 3):
                (m(torch.randn(4, 2, generator=g)) ** 2).sum().backward()
                v.step()
        elif what == "none":
            v = None
        else:
            v = tree(kids, seed * 7 + k, wrap + 1)
        setattr(h, a, v)
        names.append(a)
    h.saved_attributes = tuple(names)
    return h


def flat(h, path=""):
    out = {}
    for a in h.saved_attributes:
        v = getattr(h, a)
        if isinstance(v, Holder):
            out.update(flat(v, path + a + "/"))
        elif v is None:
            out[path + a] = None
        else:
            v = v.module if isinstance(v, torch.nn.DataParallel) else v
            sd = v.state_dict()
            out[path + a] = {k: x.clone() for k, x in sd.items()} if isinstance(v, torch.nn.Module) else copy.deepcopy(sd)
    return out


def run_nested(c):
    a = tree(c["spec"], c["seed"] % 1000, c["wrap"])
    b = tree(c["spec"], c["seed"] % 1000 + 1, c["wrap2"])
    was = flat(a)
    with scratch() as d:
        tmp = os.path.join(d, "x")
        a.save(tmp)
        require(same(was, flat(a)), "saving changed what was saved")
        b.load(tmp)
        got = flat(b)
        for k in was:
            require(same(was[k], got[k]), "%s differs after loading", k)
        if c["cycle"]:
            x = a
            while any(isinstance(getattr(x, n), Holder) for n in x.saved_attributes):
                x = next(getattr(x, n) for n in x.saved_attributes if isinstance(getattr(x, n), Holder))
            x.back = a
            x.saved_attributes = x.saved_attributes + ("back",)
            try:
                a.save(os.path.join(d, "y"))
            except RecursionError:
                require(False, "saving an object that holds itself does not end")
            except Exception:
                pass
            else:
                require(False, "an object that holds itself was saved")
    return ["nontrivial"] if any("/" in k and v is not None for k, v in was.items()) else []


LEAF = pick([["module", []], ["module", []], ["optimizer", []], ["none", []]])
SPEC = st.recursive(sized_list(LEAF, 1, 3), lambda inner: sized_list(
    st.one_of(LEAF, tup(st.just("nested"), inner)), 1, 3), max_leaves=6)


SUBS = [
    Sub("nested", st.fixed_dictionaries(dict(spec=SPEC, seed=seeds, wrap=spread(0, 2), wrap2=spread(0, 2), cycle=flag)),
        run_nested, quick=150),
    Sub("buffer", buffer_cases, run_buffer, quick=500, shards=2, axis=("kind", KINDS)),
    Sub("agent", agent_cases, run_agent, quick=500, shards=5, axis=("agent", zoo.ALL)),
    Sub("snapshot", agent_cases, run_snapshot, quick=150, shards=2,
        axis=("agent", zoo.DISCRETE + zoo.RECURRENT_Q)),
]
