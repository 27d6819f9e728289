"""P17: recurrent models treat packed batches like step-by-step runs."""
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import zoo
from pbt.core import Sub, require, require_close, require_eq, rng, seed_all
from pbt.gens import flag, pick, seeds, sized_list, spread, tup

import pfrl
from pfrl import agents, explorers, replay_buffers
from pfrl.agents import acer as acer_mod
from pfrl.agents.iqn import CosineBasisLinear, RecurrentImplicitQuantileQFunction
from pfrl.nn import RecurrentBranched, RecurrentSequential
from pfrl.utils import recurrent as R

warnings.filterwarnings("ignore")

RULE = """'nest': a random nesting of the recurrent containers over LSTM, GRU and RNN layers is run on a
packed batch of sequences (sorted or not, with or without initial states) and on each sequence alone
by an interpreter that applies the cell formulas one step at a time. 'states': the helpers that
select, mask, join and convert batched recurrent states against plain per-sequence lists. 'packs': packing, padding
and joining of sequences (of tensors or tuples) against plain lists. 'agents':
recurrent agents, learning, over 1-3 environments with terminations, resets and evaluation rounds:
every call of the model during acting has to receive and return the state that its environment's own
episode leads to, and stored states have to be those. Non-trivial: two or more sequences of
different lengths ('nest'), nested states ('states'), an episode end and an evaluation round or two
environments ('agents')."""
ASSUMPTIONS = ["a missing initial state and an all-zero one are the same"]


# ------------------------------------------------------------------ reference interpreter
def cell(m, layer, x, st_):
    """One step of one layer of LSTM / GRU / RNN for one sequence, by formula."""
    W, U = getattr(m, "weight_ih_l%d" % layer), getattr(m, "weight_hh_l%d" % layer)
    bi = getattr(m, "bias_ih_l%d" % layer) if m.bias else 0
    bh = getattr(m, "bias_hh_l%d" % layer) if m.bias else 0
    if isinstance(m, nn.LSTM):
        h, c = st_
        i, f, g, o = (W @ x + bi + U @ h + bh).chunk(4)
        c = torch.sigmoid(f) * c + torch.sigmoid(i) * torch.tanh(g)
        h = torch.sigmoid(o) * torch.tanh(c)
        return h, (h, c)
    (h,) = st_
    if isinstance(m, nn.GRU):
        a, b = W @ x + bi, U @ h + bh
        ar, az, an = a.chunk(3)
        br, bz, bn = b.chunk(3)
        r, z = torch.sigmoid(ar + br), torch.sigmoid(az + bz)
        n = torch.tanh(an + r * bn)
        h = (1 - z) * n + z * h
        return h, (h,)
    h = torch.tanh(W @ x + bi + U @ h + bh)
    return h, (h,)


def zero_state(m):
    """State of one sequence: per leaf a list over layers of tuples."""
    if isinstance(m, (nn.LSTM, nn.GRU, nn.RNN)):
        n = 2 if isinstance(m, nn.LSTM) else 1
        p = m.weight_ih_l0
        z = torch.zeros(m.hidden_size, dtype=p.dtype)
        return [tuple(z for _ in range(n)) for _ in range(m.num_layers)]
    if isinstance(m, RecurrentSequential):
        return [zero_state(c) for c in m if R.is_recurrent(c)]
    if isinstance(m, RecurrentBranched):
        return [zero_state(c) for c in m]
    if isinstance(m, RecurrentImplicitQuantileQFunction):
        return zero_state(m.psi)
    raise AssertionError(type(m))


def ref_step(m, x, s):
    """One step for one sequence; x is one unbatched input (or a tuple of them)."""
    if isinstance(m, (nn.LSTM, nn.GRU, nn.RNN)):
        new = []
        for k in range(m.num_layers):
            x, t = cell(m, k, x, s[k])
            new.append(t)
        return x, new
    if isinstance(m, RecurrentSequential):
        new, k = [], 0
        for c in m:
            if R.is_recurrent(c):
                x, t = ref_step(c, x, s[k])
                new.append(t)
                k += 1
            else:
                x = one(c, x)
        return x, new
    if isinstance(m, RecurrentBranched):
        outs = [ref_step(c, x, t) for c, t in zip(m, s)]
        return tuple(o for o, _ in outs), [t for _, t in outs]
    if isinstance(m, RecurrentImplicitQuantileQFunction):
        _, t = ref_step(m.psi, x, s)
        return None, t
    raise AssertionError(type(m))


def up(x):
    return tuple(up(v) for v in x) if isinstance(x, tuple) else x[None]


def down(x):
    if isinstance(x, tuple):
        return tuple(down(v) for v in x)
    return x[0] if torch.is_tensor(x) else x


def one(layer, x):
    return down(layer(up(x)))


def leaves(m, state, i=None):
    """Library state (batched, or of one sequence if i is None and it is unbatched) as a flat list
    of (layers, hidden) tensors of sequence i."""
    if isinstance(m, (nn.LSTM, nn.GRU, nn.RNN)):
        parts = state if isinstance(state, tuple) else (state,)
        return [p[:, i] if i is not None else p for p in parts]
    if isinstance(m, RecurrentImplicitQuantileQFunction):
        return leaves(m.psi, state, i)
    kids = [c for c in m if R.is_recurrent(c)]
    require(isinstance(state, tuple) and len(state) == len(kids),
            "recurrent state has not one part per recurrent child")
    return [t for c, s in zip(kids, state) for t in leaves(c, s, i)]


def ref_leaves(m, s):
    """The same list from the interpreter's state."""
    if isinstance(m, (nn.LSTM, nn.GRU, nn.RNN)):
        return [torch.stack([s[k][j] for k in range(m.num_layers)]) for j in range(len(s[0]))]
    if isinstance(m, RecurrentImplicitQuantileQFunction):
        return ref_leaves(m.psi, s)
    kids = [c for c in m if R.is_recurrent(c)]
    return [t for c, u in zip(kids, s) for t in ref_leaves(c, u)]


# ------------------------------------------------------------------ random nestings
class Cat(nn.Module):
    def forward(self, x):
        return torch.cat([v for v in flat_tuple(x)], dim=-1)


def flat_tuple(x):
    if isinstance(x, tuple):
        return [w for v in x for w in flat_tuple(v)]
    return [x]


def build(spec, width):
    """spec (nested lists) -> (module, output width or list of widths)."""
    k = spec[0]
    if k in ("lstm", "gru", "rnn"):
        cls = dict(lstm=nn.LSTM, gru=nn.GRU, rnn=nn.RNN)[k]
        return cls(width, spec[1], num_layers=spec[2], bias=bool(spec[3])), spec[1]
    if k == "seq":
        mods = []
        for s in spec[1]:
            if s[0] == "lin":
                mods += [nn.Linear(width, s[1]), nn.Tanh()]
                width = s[1]
            elif s[0] == "fan":
                # a non-recurrent branch: two linear heads, then joined
                mods += [pfrl.nn.Branched(nn.Linear(width, 1), nn.Linear(width, s[1])), Cat()]
                width = s[1] + 1
            else:
                m, w = build(s, width)
                mods.append(m)
                if isinstance(w, list):
                    mods.append(Cat())
                    w = sum(w)
                width = w
        return RecurrentSequential(*mods), width
    ms = [build(s, width) for s in spec[1]]
    ws = [sum(w) if isinstance(w, list) else w for _, w in ms]
    return RecurrentBranched(*[m for m, _ in ms]), ws


def spec_strategy():
    leaf = st.tuples(pick(["lstm", "gru", "rnn"]), spread(1, 3), spread(1, 2), spread(0, 1)).map(
        list)
    plain = st.one_of(st.tuples(st.just("lin"), spread(1, 3)).map(list),
                      st.tuples(st.just("fan"), spread(1, 2)).map(list))

    def extend(inner):
        seq = st.lists(st.one_of(inner, plain), min_size=1, max_size=4).map(lambda x: ["seq", x])
        br = st.lists(inner, min_size=1, max_size=3).map(lambda x: ["br", x])
        return st.one_of(seq, br)

    node = extend(st.one_of(leaf, extend(leaf)))
    return st.one_of(extend(leaf), node, node)


def has_rnn(spec):
    if spec[0] in ("lstm", "gru", "rnn"):
        return True
    return isinstance(spec[1], list) and any(has_rnn(s) for s in spec[1])


def randomize(m, seed, scale=0.7):
    g = torch.Generator().manual_seed(int(seed) % 2 ** 31)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g, dtype=p.dtype) * scale)
    return m


def batch_state(m, states):
    """Batched library state from per-sequence interpreter states."""
    if isinstance(m, (nn.LSTM, nn.GRU, nn.RNN)):
        parts = [torch.stack([torch.stack([s[k][j] for k in range(m.num_layers)])
                              for s in states], dim=1) for j in range(len(states[0][0]))]
        return tuple(parts) if isinstance(m, nn.LSTM) else parts[0]
    if isinstance(m, RecurrentImplicitQuantileQFunction):
        return batch_state(m.psi, states)
    kids = [c for c in m if R.is_recurrent(c)]
    return tuple(batch_state(c, [s[k] for s in states]) for k, c in enumerate(kids))


def random_state(m, r):
    z = zero_state(m)

    def rec(x):
        if isinstance(x, (list, tuple)):
            return type(x)(rec(v) for v in x)
        return torch.as_tensor(r.randn(*x.shape)).to(x.dtype)

    return rec(z)


def run_nest(c):
    if not has_rnn(c["spec"]):
        return []
    r = rng(c["seed"])
    try:
        m, _ = build(c["spec"], 2)
    except AssertionError:
        raise
    m = randomize(m.double(), c["seed"])
    lens = list(c["lens"])
    if not c["unsorted"]:
        lens = sorted(lens, reverse=True)
    seqs = [torch.as_tensor(r.randn(n, 2)) for n in lens]
    B = len(seqs)
    init = [random_state(m, r) if c["init"] else zero_state(m) for _ in seqs]
    rs = batch_state(m, init) if c["init"] else None
    # reference
    want_out, want_state = [], []
    for s, t in zip(seqs, init):
        outs = []
        for x in s:
            y, t = ref_step(m, x, t)
            outs.append(flat_tuple(y))
        want_out.append(outs)
        want_state.append(ref_leaves(m, t))
    if c["unsorted"]:
        pack = nn.utils.rnn.pack_sequence(seqs, enforce_sorted=False)
        y, new = m(pack, rs)
        got = [nn.utils.rnn.unpack_sequence(p) for p in flat_tuple_pack(y)]
        for k, per in enumerate(got):
            for i in range(B):
                require_close(per[i], torch.stack([o[k] for o in want_out[i]]),
                              "output %d of sequence %d (unsorted batch)" % (k, i), 1e-7, 1e-8)
    else:
        y, new = R.pack_and_forward(m, seqs, rs)
        order = [(t, i) for t in range(max(lens)) for i in range(B) if t < lens[i]]
        for k, data in enumerate(flat_tuple(y)):
            require_eq(len(data), len(order), "number of output rows")
            for row, (t, i) in zip(data, order):
                require_close(row, want_out[i][t][k], "output %d of sequence %d at step %d" % (
                    k, i, t), 1e-7, 1e-8)
        # the same by the library's own stepping
        if c["step"]:
            rs1 = rs
            for t in range(min(lens)):
                y1, rs1 = R.one_step_forward(m, torch.stack([s[t] for s in seqs]), rs1)
                for k, data in enumerate(flat_tuple(y1)):
                    for i in range(B):
                        require_close(data[i], want_out[i][t][k],
                                      "one-step output %d of sequence %d at step %d" % (k, i, t),
                                      1e-7, 1e-8)
    for i in range(B):
        for a, b in zip(leaves(m, new, i), want_state[i]):
            require_close(a, b, "final state of sequence %d of %s" % (i, lens), 1e-7, 1e-8)
    return ["nontrivial"] if len(set(lens)) > 1 else []


def flat_tuple_pack(x):
    P = nn.utils.rnn.PackedSequence
    if isinstance(x, P):
        return [x]
    return [w for v in x for w in flat_tuple_pack(v)]


# ------------------------------------------------------------------ helpers on states
def run_states(c):
    r = rng(c["seed"])
    if not has_rnn(c["spec"]):
        return []
    m, _ = build(c["spec"], 2)
    m = m.double()
    n = c["n"]
    per = [random_state(m, r) for _ in range(n)]
    rs = batch_state(m, per)
    flat = lambda s, i=None: leaves(m, s, i)  # noqa: E731
    # select one or several
    for i in range(n):
        one_ = R.get_recurrent_state_at(rs, i, detach=bool(i % 2))
        for a, b in zip(flat(one_), ref_leaves(m, per[i])):
            require(torch.equal(a, b), "state of sequence %d not selected", i)
    idx = [i % n for i in c["idx"]]
    if idx:
        some = R.get_recurrent_state_at(rs, idx, detach=True)
        for k, i in enumerate(idx):
            for a, b in zip(flat(some, k), ref_leaves(m, per[i])):
                require(torch.equal(a, b), "states of sequences %s not selected in order", idx)
    # mask
    sel = sorted(set(idx))
    for ind in [sel] + ([sel[0]] if sel else []):
        before = [t.clone() for t in flat_all(rs)]
        masked = R.mask_recurrent_state_at(rs, ind)
        hit = ind if isinstance(ind, list) else [ind]
        for i in range(n):
            for a, b in zip(flat(masked, i), ref_leaves(m, per[i])):
                want = torch.zeros_like(b) if i in hit else b
                require(torch.equal(a, want), "masking %s of %d: state of %d is wrong", ind, n, i)
        require(all(torch.equal(a, b) for a, b in zip(before, flat_all(rs))),
                "masking changed the given state")
    # join: None is an all-zero state
    parts = [R.get_recurrent_state_at(rs, i, detach=True) if i not in sel else None
             for i in range(n)]
    joined = R.concatenate_recurrent_states(parts)
    if len(sel) == n:
        require(joined is None, "joining only missing states gives %s", joined)
    else:
        for i in range(n):
            for a, b in zip(flat(joined, i), ref_leaves(m, per[i])):
                require(torch.equal(a, torch.zeros_like(b) if i in sel else b),
                        "joined state of sequence %d is wrong (missing: %s)", i, sel)
    # conversions
    back = R.recurrent_state_from_numpy(R.recurrent_state_as_numpy(rs), torch.device("cpu"))
    require(same_tree(back, rs), "conversion to numpy and back changes the state")
    parts = [None if p is None else R.recurrent_state_as_numpy(p) for p in parts]
    if len(sel) < n:
        j2 = R.recurrent_state_from_numpy(R.concatenate_recurrent_states(parts),
                                          torch.device("cpu"))
        require(same_tree(j2, joined), "joining numpy states differs from joining tensors")
    g = map_tree(rs, lambda t: (t * 1).requires_grad_(True) * 2)
    d = R.detach_recurrent_state(g)
    for i in {0, n - 1}:
        for det in (False, True):
            x = R.get_recurrent_state_at(g, i, detach=det)
            require(all(t.requires_grad != det for t in flat_all(x)), "a state selected with detach=%s "
                    "%s gradients", det, "keeps" if det else "loses")
    require(all(not t.requires_grad for t in flat_all(d)) and same_tree(
        d, map_tree(rs, lambda t: t * 2)), "detaching changes values or keeps gradients")
    for f in (lambda: R.mask_recurrent_state_at(None, [0]), lambda: R.detach_recurrent_state(None),
              lambda: R.recurrent_state_as_numpy(None),
              lambda: R.get_recurrent_state_at(None, 0, detach=True)):
        require(f() is None, "a missing state does not stay missing")
    return ["nontrivial"] if n > 1 and len(flat_all(rs)) > 1 else []


def run_packs(c):
    """Packing, flattening, wrapping and unwrapping of (tuples of) sequences keep every row in its place."""
    r = rng(c["seed"])
    lens = sorted(c["lens"], reverse=True)
    B, n = len(lens), 0

    def seq(kind, i, m):
        if kind == "t":
            return torch.as_tensor(r.randn(m, c["w"]))
        return tuple(seq(k, i, m) for k in kind)
    seqs = [seq(c["kind"], i, m) for i, m in enumerate(lens)]
    order = [(t, i) for t in range(max(lens)) for i in range(B) if t < lens[i]]

    def rows(kind, get):
        if kind == "t":
            return torch.stack([get(i)[t] for t, i in order])
        return tuple(rows(k, lambda i, j=j: get(i)[j]) for j, k in enumerate(kind))
    want = rows(c["kind"], lambda i: seqs[i])

    def same(a, b, what):
        if isinstance(b, tuple):
            require(isinstance(a, tuple) and len(a) == len(b), "%s: structure changes", what)
            for x, y in zip(a, b):
                same(x, y, what)
        else:
            require(torch.equal(a, b), "%s: rows are not the sequences' steps in time order (lengths %s)", what, lens)
    pack = R.pack_sequences_recursive(seqs)
    data = R.unwrap_packed_sequences_recursive(pack)
    same(data, want, "packing")
    bs, si = R.get_packed_sequence_info(pack)
    require_eq(bs.tolist(), [sum(m > t for m in lens) for t in range(max(lens))], "batch sizes")
    again = R.wrap_packed_sequences_recursive(map_tree(data, lambda t: t * 2), bs, si)
    for k, p in enumerate(flat_tuple_pack(again)):
        back = nn.utils.rnn.unpack_sequence(p)
        ref = flat_tuple_pack(pack)[k]
        for x, y in zip(back, nn.utils.rnn.unpack_sequence(ref)):
            require(torch.equal(x, y * 2), "wrapping again moves rows")
    ids = [[(i, t) for t in range(m)] for i, m in enumerate(lens)]
    require_eq(R.flatten_sequences_time_first(ids), [(i, t) for t, i in order], "flattened sequences")
    # one step of each sequence
    batch = map_tree(rows_at(seqs, c["kind"]), lambda t: t)
    p1 = R.pack_one_step_batch_as_sequences(batch)
    for p in flat_tuple_pack(p1):
        require_eq(p.batch_sizes.tolist(), [B], "batch sizes of a one-step batch")
    same(R.unpack_sequences_as_one_step_batch(p1), batch, "one-step batch")
    return ["nontrivial"] if len(set(lens)) > 1 and c["kind"] != "t" else []


def rows_at(seqs, kind):
    if kind == "t":
        return torch.stack([s[0] for s in seqs])
    return tuple(rows_at([s[j] for s in seqs], k) for j, k in enumerate(kind))


def flat_all(s):
    return [t for x in s for t in flat_all(x)] if isinstance(s, tuple) else [s]


def map_tree(s, f):
    return tuple(map_tree(x, f) for x in s) if isinstance(s, tuple) else f(s)


def same_tree(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(
            same_tree(x, y) for x, y in zip(a, b))
    return torch.equal(a, b)


# ------------------------------------------------------------------ agents
LOG = []


class Recorder(pfrl.nn.Recurrent, nn.Module):
    """Notes the state a model receives and returns."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x, rs):
        y, new = self.inner(x, rs)
        LOG.append((self, x, detached(rs), detached(new)))
        return y, new


def detached(s):
    return None if s is None else map_tree(s, lambda t: t.detach().clone())


def core(kind, two, width=3):
    cls = dict(gru=nn.GRU, lstm=nn.LSTM)[kind]
    mods = [nn.Linear(3, width), nn.Tanh(), cls(width, width)]
    if two:
        mods += [nn.Linear(width, width), nn.RNN(width, width)]
    return mods


AGENTS = ["RDQN", "RDoubleDQN", "RPAL", "RIQN", "RPPO", "RPPObr", "RTRPO", "RA3C", "RREINFORCE",
          "RACER"]
ALONE = {"RA3C", "RREINFORCE", "RACER"}


def make_agent(name, c):
    k, two = c["kind"], c["two"]
    n = lambda m, s=0: randomize(Recorder(m), c["seed"] + s)  # noqa: E731
    soft = pfrl.policies.SoftmaxCategoricalHead
    if name in ("RDQN", "RDoubleDQN", "RPAL", "RIQN"):
        if name == "RIQN":
            m = n(RecurrentImplicitQuantileQFunction(
                psi=RecurrentSequential(*core(k, two)),
                phi=nn.Sequential(CosineBasisLinear(4, 3), nn.Tanh()), f=nn.Linear(3, 3)))
        else:
            m = n(RecurrentSequential(*core(k, two), nn.Linear(3, 3),
                                      pfrl.q_functions.DiscreteActionValueHead()))
        cls = dict(RDQN=agents.DQN, RDoubleDQN=agents.DoubleDQN, RPAL=agents.PAL,
                   RIQN=agents.IQN)[name]
        return cls(m, torch.optim.SGD(m.parameters(), lr=0.05),
                   replay_buffers.EpisodicReplayBuffer(), 0.9,
                   explorers.ConstantEpsilonGreedy(0.3, lambda: np.random.randint(3)),
                   replay_start_size=4 if c["learn"] else 10 ** 6, minibatch_size=2,
                   update_interval=1, target_update_interval=2, recurrent=True,
                   episodic_update_len=3)
    interval = 6 if c["learn"] else 10 ** 6
    if name in ("RPPO", "RPPObr"):
        if name == "RPPO":
            net = RecurrentSequential(*core(k, two), pfrl.nn.Branched(
                nn.Sequential(nn.Linear(3, 3), soft()), nn.Linear(3, 1)))
        else:
            net = RecurrentBranched(
                RecurrentSequential(*core(k, two), nn.Linear(3, 3), soft()),
                RecurrentSequential(*core("gru", False), nn.Linear(3, 1)))
        m = n(net)
        return agents.PPO(m, torch.optim.SGD(m.parameters(), lr=0.05), recurrent=True,
                          update_interval=interval, minibatch_size=4, epochs=1)
    if name == "RTRPO":
        p = n(RecurrentSequential(*core(k, two), nn.Linear(3, 3), soft()))
        v = n(RecurrentSequential(*core("gru", False), nn.Linear(3, 1)), 1)
        return agents.TRPO(p, v, torch.optim.SGD(v.parameters(), lr=0.05), recurrent=True,
                           update_interval=interval, vf_batch_size=4, vf_epochs=1)
    tmax = 3 if c["learn"] else 10 ** 6
    if name == "RREINFORCE":
        m = n(RecurrentSequential(*core(k, two), nn.Linear(3, 3), soft()))
        return agents.REINFORCE(m, torch.optim.SGD(m.parameters(), lr=0.05), recurrent=True,
                                batchsize=1, backward_separately=True)
    if name == "RA3C":
        m = n(RecurrentSequential(*core(k, two), pfrl.nn.Branched(
            nn.Sequential(nn.Linear(3, 3), soft()), nn.Linear(3, 1))))
        m.share_memory()
        o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=1e-2)
        return zoo.share(agents.A3C(m, o, t_max=tmax, gamma=0.9, recurrent=True))
    m = n(RecurrentSequential(*core(k, two), acer_mod.ACERDiscreteActionHead(
        nn.Sequential(nn.Linear(3, 3), soft()),
        nn.Sequential(nn.Linear(3, 3), pfrl.q_functions.DiscreteActionValueHead()))))
    m.share_memory()
    o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=1e-2)
    return zoo.share(agents.ACER(
        m, o, t_max=tmax, gamma=0.9, recurrent=True, n_times_replay=1,
        replay_buffer=replay_buffers.EpisodicReplayBuffer(),
        replay_start_size=4 if c["learn"] else 10 ** 6))


class Tracker:
    """States of each environment's current episode, per module and mode."""

    def __init__(self):
        self.s = {}

    def of(self, mod, mode, i):
        return self.s.setdefault((id(mod), mode), {}).get(i) or zero_state(mod.inner)

    def put(self, mod, mode, i, s):
        self.s.setdefault((id(mod), mode), {})[i] = s

    def end(self, mode, i):
        for (_, md), d in self.s.items():
            if md == mode:
                d.pop(i, None)


def check_calls(name, tr, mode, obs, n_env, what):
    require(LOG, "%s: the model was not consulted for acting", name)
    seen = {}
    with torch.no_grad():
        for mod, x, rs, new in LOG:
            if id(mod) in seen:
                continue  # the same model asked twice about the same step
            data = x.data if not isinstance(x, tuple) else x[0].data
            if len(data) != n_env:
                continue
            steps = []
            for i in range(n_env):
                pre = tr.of(mod, mode, i)
                xi = torch.as_tensor(obs[i])
                _, post = ref_step(mod.inner, xi, pre)
                want_pre = ref_leaves(mod.inner, pre)
                got_pre = (leaves(mod.inner, rs, i) if rs is not None
                           else [torch.zeros_like(t) for t in want_pre])
                for a, b in zip(got_pre, want_pre):
                    require_close(a, b, "%s: %s: state of environment %d of %d before acting" % (
                        name, what, i, n_env), 1e-4, 1e-5)
                for a, b in zip(leaves(mod.inner, new, i), ref_leaves(mod.inner, post)):
                    require_close(a, b, "%s: %s: state of environment %d of %d after acting" % (
                        name, what, i, n_env), 1e-4, 1e-5)
                steps.append((pre, post))
                # follow the library's numbers, so that rounding does not pile up
            for i, (pre, post) in enumerate(steps):
                tr.put(mod, mode, i, post)
            seen[id(mod)] = (mod, steps)
    require(seen, "%s: the model was not asked about all environments", name)
    return list(seen.values())


def run_agents(c):
    name = c["agent"]
    N = 1 if name in ALONE else c["n_env"]
    M = 1 if name in ALONE else c["m_env"]
    single = name in ALONE
    seed_all(c["seed"])
    ag = make_agent(name, c)
    tr = Tracker()
    r = rng(c["seed"])
    evs = iter(zoo.world(c["seed"] + 1, M, [row >> 8 for row in c["rows"]] * 3))
    stored = []
    ended = ev = False

    def evaluate(k):
        nonlocal ev
        ev = True
        with ag.eval_mode():
            for _ in range(1 + k % 3):
                obs, rew, nxt, done, reset = next(evs)
                del LOG[:]
                if single:
                    ag.act(obs[0])
                else:
                    ag.batch_act(obs)
                check_calls(name, tr, "eval", obs, M, "evaluating")
                if single:
                    ag.observe(nxt[0], rew[0], done[0], reset[0])
                else:
                    ag.batch_observe(nxt, rew, done, reset)
                for i in range(M):
                    if done[i] or reset[i]:
                        tr.end("eval", i)

    for k, s in enumerate(zoo.world(c["seed"], N, c["rows"])):
        row = c["rows"][k]
        if row & 64:
            evaluate(k)
        obs, rew, nxt, done, reset = s
        del LOG[:]
        acts = [ag.act(obs[0])] if single else list(ag.batch_act(obs))
        calls = check_calls(name, tr, "train", obs, N, "training")
        if row & 128:
            evaluate(k + 1)
        if single:
            ag.observe(nxt[0], rew[0], done[0], reset[0])
        else:
            ag.batch_observe(nxt, rew, done, reset)
        for i in range(N):
            stored.append((obs[i].tobytes(), calls[0][0], calls[0][1][i]))
            if done[i] or reset[i]:
                tr.end("train", i)
                ended = True
    if name in ("RDQN", "RDoubleDQN", "RPAL", "RIQN"):
        by = {o: (mod, st_) for o, mod, st_ in stored}
        for ep in ag.replay_buffer.episodic_memory:
            for t in ep:
                mod, (pre, post) = by[np.asarray(t["state"]).tobytes()]
                for f, w in (("recurrent_state", pre), ("next_recurrent_state", post)):
                    got = t[f]
                    want = ref_leaves(mod.inner, w)
                    if got is None:
                        got = [torch.zeros_like(x) for x in want]
                    else:
                        got = leaves(mod.inner, R.recurrent_state_from_numpy(
                            got, torch.device("cpu")))
                    for a, b in zip(got, want):
                        require_close(a, b, "%s: stored %s" % (name, f), 1e-4, 1e-5)
    del LOG[:]
    return [name] + (["nontrivial"] if ended and (ev or N > 1) else [])


def nest_cases():
    return st.fixed_dictionaries(dict(
        spec=spec_strategy(), seed=seeds, lens=st.one_of(sized_list(spread(1, 5), 1, 5), sized_list(spread(1, 6), 1, 5),
                                            sized_list(spread(1, 14), 6, 20)),
        unsorted=flag, init=flag, step=flag))


def state_cases():
    return st.fixed_dictionaries(dict(spec=spec_strategy(), seed=seeds, n=pick([1, 2, 3, 4, 4, 9, 17]),
                                      idx=sized_list(spread(0, 16), 0, 6)))


def pack_cases():
    return st.fixed_dictionaries(dict(seed=seeds, w=spread(1, 3), kind=pick(["t", ("t", "t"), ("t", ("t", "t"), "t")]),
                                      lens=st.one_of(sized_list(spread(1, 5), 1, 5), sized_list(spread(1, 14), 5, 24))))


def agent_cases():
    row = st.one_of(st.just(0), pick([64, 128, 1, 2, 65, 256 + 64]), spread(0, 2 ** 14 - 1))
    return st.fixed_dictionaries(dict(
        seed=seeds, n_env=pick([1, 2, 3, 2, 3, 6]), m_env=pick([1, 2, 3, 1, 5]), kind=pick(["gru", "lstm"]),
        two=flag, learn=flag, rows=sized_list(row, 4, 16)))


QUICK_SCALE = 2

SUBS = [
    Sub("nest", nest_cases, run_nest, quick=600, shards=3),
    Sub("states", state_cases, run_states, quick=200, shards=1),
    Sub("packs", pack_cases, run_packs, quick=120, shards=1),
    Sub("agents", agent_cases, run_agents, quick=240, shards=4, axis=("agent", AGENTS)),
]
