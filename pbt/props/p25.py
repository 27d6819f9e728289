"""P25: parameter copying, gradient and optimizer utilities are exact."""
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt.core import Sub, Violation, require, require_close, require_eq, rng
from pbt.gens import flag, pick, seeds, sized_list, spread, tup

import pfrl
from pfrl import q_functions as qf
from pfrl.utils import clip_l2_grad_norm_, copy_param as cp, evaluating

warnings.filterwarnings("ignore")

RULE = """Module trees are generated (linear, convolution, recurrent, batch normalization layers, bare parameters, float, integer and
boolean buffers, float64 layers, a layer registered under two names, nesting, the library's own Q-functions).
'copy': histories of hard and soft copies and synchronizations against a float64 model of every distinct tensor, with later changes of the source.
'grad': copying and clipping of generated gradients including missing ones. 'optim': histories of
steps of the optimizers with generated groups, options, missing gradients, changes of learning rate and saved and
restored states against the scalar recurrence in float64. 'modes': evaluating() over trees with mixed modes, nested and
left by exceptions. Non-trivial: at least two tensors with at least one buffer, tie or missing gradient, two or more operations,
or mixed modes."""
ASSUMPTIONS = ["gradients are finite; with centered=True the gradients vary enough for the variance not to cancel"]


# ------------------------------------------------------------------ module trees
leaf = pick(["linear", "linear", "linear64", "conv", "gru", "bn", "bncum", "param", "intbuf", "boolbuf",
             "fbuf", "scalar", "dropout", "late", "latebn", "frozen", "half", "noparam"])


@st.composite
def tree(draw):
    def node(d):
        kids = draw(st.lists(leaf, min_size=1 if d else 2, max_size=4))
        out = [[k] for k in kids]
        if d < 2 and draw(flag):
            out.append(["tree", node(d + 1)])
        return out
    return dict(kids=node(0), tie=draw(flag))


class Bag(nn.Module):
    pass


def build(spec, r, root=True):
    m = Bag()
    for i, item in enumerate(spec["kids"] if root else spec):
        k = item[0]
        name = "m%d" % i
        if k == "tree":
            m.add_module(name, build(item[1], r, False))
        elif k == "linear":
            m.add_module(name, nn.Linear(2, 3))
        elif k == "linear64":
            m.add_module(name, nn.Linear(2, 2).double())
        elif k == "conv":
            m.add_module(name, nn.Conv2d(1, 2, 2))
        elif k == "gru":
            m.add_module(name, nn.GRU(2, 2))
        elif k == "bn":
            m.add_module(name, nn.BatchNorm1d(3))
        elif k == "bncum":
            m.add_module(name, nn.BatchNorm1d(2, momentum=None))
        elif k == "param":
            m.register_parameter(name, nn.Parameter(torch.zeros(2, 2)))
        elif k == "frozen":
            m.register_parameter(name, nn.Parameter(torch.zeros(3), requires_grad=False))
        elif k == "half":
            m.register_parameter(name, nn.Parameter(torch.zeros(3, dtype=torch.float16)))
        elif k == "scalar":
            m.register_parameter(name, nn.Parameter(torch.zeros(())))
        elif k == "intbuf":
            m.register_buffer(name, torch.zeros(2, dtype=torch.int64))
        elif k == "boolbuf":
            m.register_buffer(name, torch.zeros(2, dtype=torch.bool))
        elif k == "fbuf":
            m.register_buffer(name, torch.zeros(2))
        elif k == "dropout":
            m.add_module(name, nn.Dropout())
        elif k == "late":
            m.add_module(name, qf.FCLateActionSAQFunction(2, 1, 2, 1))
        elif k == "latebn":
            m.add_module(name, qf.FCBNLateActionSAQFunction(2, 1, 2, 2))
        elif k == "noparam":
            m.add_module(name, nn.Identity())
    if root:
        if spec["tie"]:
            m.t1 = nn.Linear(2, 2)
            m.t2 = m.t1
            m.register_parameter("t3", m.t1.weight)
    return m


def fill(m, r):
    """Random values of every tensor in the module's own memory."""
    done = set()
    with torch.no_grad():
        for k, v in m.state_dict().items():
            key = (v.data_ptr(), tuple(v.shape))
            if key in done:
                continue
            done.add(key)
            if v.dtype == torch.bool:
                v.copy_(torch.as_tensor(r.rand(*v.shape) < 0.5))
            elif v.is_floating_point():
                big = 1e6 if v.dtype != torch.float16 and r.rand() < 0.15 else 1.0
                v.copy_(torch.as_tensor(r.randn(*v.shape) * big))
            else:
                v.copy_(torch.as_tensor(r.randint(0, 1000, v.shape)))
    return m


def snap(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def same(a, b, what):
    require_eq(sorted(a), sorted(b), what + ": names")
    for k in a:
        require(torch.equal(a[k], b[k]), "%s: %s changed from %s to %s", what, k, b[k], a[k])


@st.composite
def copies(draw):
    op = st.one_of(
        tup(st.just("hard")), tup(st.just("soft"), pick([0.0, 1.0, 0.005, 0.5, 0.9])),
        tup(st.just("sync"), pick(["hard", "soft"]), pick([0.001, 0.3, 1.0])),
        tup(st.just("refill")), tup(st.just("grads")))
    return dict(tree=draw(tree()), seed=draw(seeds), ops=draw(sized_list(op, 1, 8)))


def run_copies(c):
    r = rng(c["seed"])
    tgt, src = fill(build(c["tree"], r), r), fill(build(c["tree"], r), r)
    objs = dict(tgt.named_parameters())
    bufs = dict(tgt.named_buffers())
    req = {k: p.requires_grad for k, p in objs.items()}
    want = {k: v.clone() for k, v in snap(tgt).items()}
    ever = False
    for op in c["ops"]:
        keep = snap(src)
        gk = {k: (p.grad if p.grad is None else p.grad.clone())
              for k, p in list(tgt.named_parameters()) + [("s." + a, b) for a, b in
                                                          src.named_parameters()]}
        tau = None
        if op[0] == "refill":
            fill(src, r)
        elif op[0] == "grads":
            for p in list(tgt.parameters()) + list(src.parameters()):
                if p.requires_grad:
                    p.grad = torch.ones_like(p) if r.rand() < 0.5 else None
        elif op[0] == "hard":
            cp.copy_param(tgt, src)
            tau = 1.0
        elif op[0] == "soft":
            cp.soft_copy_param(tgt, src, op[1])
            tau = op[1]
        else:
            if op[1] == "hard" and r.rand() < 0.5:
                cp.synchronize_parameters(src=src, dst=tgt, method="hard")
            else:
                cp.synchronize_parameters(src=src, dst=tgt, method=op[1], tau=op[2])
            tau = 1.0 if op[1] == "hard" else op[2]
        if tau is not None:
            ever = True
            same(snap(src), keep, "the source of a copy")
            for k, p in list(tgt.named_parameters()) + [("s." + a, b) for a, b in
                                                        src.named_parameters()]:
                g = p.grad
                require((g is None) == (gk[k] is None) and (g is None or torch.equal(g, gk[k])),
                        "a copy changes the gradient of %s", k)
        now = snap(tgt)
        require_eq(sorted(now), sorted(want), "names in the target")
        for k, v in now.items():
            s = keep[k]
            if tau is not None:
                if not v.is_floating_point():
                    want[k] = s.clone()       # counters and masks cannot be moved by a fraction
                    require(torch.equal(v, s), "%s is %s after a copy from %s", k, v, s)
                    continue
                if (op[0] == "hard" or tau == 1.0) and op[:2] != ["soft", 1.0]:
                    pass
                w = (1 - tau) * want[k].double() + tau * s.double()
                eps = {torch.float16: 4e-3, torch.float32: 1e-6, torch.float64: 1e-12}[v.dtype]
                require_close(v.double(), w, "%s after %s" % (k, op), rtol=eps, atol=eps / 10,
                              scale=float(max(want[k].abs().max(), s.abs().max())))
                if op[0] == "hard" or op[1] == "hard":
                    require(torch.equal(v, s), "%s after a hard copy differs from the source", k)
                require_eq(v.dtype, s.dtype, "type of " + k)
                want[k] = v.clone()
            else:
                require(torch.equal(v, want[k]), "%s changes without a copy (aliased?)", k)
        for k, p in tgt.named_parameters():
            require(p is objs[k], "the parameter object %s was replaced", k)
            require_eq(p.requires_grad, req[k], "requires_grad of " + k)
        for k, b in tgt.named_buffers():
            require(b is bufs[k], "the buffer object %s was replaced", k)
    kinds = str(c["tree"])
    nt = ever and len(want) > 1 and (c["tree"]["tie"] or "buf" in kinds or "bn" in kinds
                                     or "late" in kinds)
    return {"nontrivial"} if nt else set()


# ------------------------------------------------------------------ gradients
@st.composite
def grads(draw):
    return dict(tree=draw(tree()), seed=draw(seeds), scale=draw(pick([1.0, 0.0, 1e-4, 1e3])),
                missing=draw(pick([0.0, 0.3, 1.0])), missing2=draw(pick([0.0, 0.5])),
                max_norm=draw(pick([0.01, 0.5, 1, 10.0, 1e6])),
                form=draw(pick(["list", "generator", "single", "empty", "module"])))


def run_grads(c):
    r = rng(c["seed"])
    tgt, src = fill(build(c["tree"], r), r), fill(build(c["tree"], r), r)

    def give(m, missing):
        for p in m.parameters():
            if p.requires_grad and r.rand() >= missing:
                p.grad = torch.as_tensor(r.randn(*p.shape) * c["scale"]).to(p.dtype).reshape(
                    p.shape)
    give(src, c["missing"])
    give(tgt, c["missing2"])
    vals = [snap(tgt), snap(src)]
    old = [None if p.grad is None else p.grad.clone() for p in src.parameters()]
    cp.copy_grad(target_link=tgt, source_link=src)
    for i, (t, s, o) in enumerate(zip(tgt.parameters(), src.parameters(), old)):
        require((s.grad is None) == (o is None) and (o is None or torch.equal(s.grad, o)),
                "copying gradients changes the source's")
        require((t.grad is None) == (o is None), "parameter %d: gradient %s, the source has %s",
                i, t.grad, o)
        if o is not None:
            require(torch.equal(t.grad, o), "gradient %d: got %s, expected %s", i, t.grad, o)
            if o.numel():
                t.grad.add_(1.0)
                require(torch.equal(s.grad, o), "the copied gradient is the source's own memory")
                t.grad.sub_(1.0)
                t.grad.copy_(o)
    # clipping on the target, also of gradients that were computed before a parameter was frozen
    if c["seed"] % 3 == 0:
        for i, p in enumerate(tgt.parameters()):
            if i % 2:
                p.requires_grad_(False)
    ps = [p for p in tgt.parameters() if p.dtype != torch.float16]
    arg = ps
    if c["form"] == "generator":
        arg = (p for p in ps)
    elif c["form"] == "single" and ps:
        ps = ps[:1]
        arg = ps[0]
    elif c["form"] == "empty":
        ps, arg = [], []
    have = [p.grad.clone().double() if p.grad is not None else None for p in ps]
    norm = float(np.sqrt(sum(float((g ** 2).sum()) for g in have if g is not None)))
    got = clip_l2_grad_norm_(arg, c["max_norm"])
    require_close(float(got), norm, "returned norm", rtol=1e-5, atol=1e-7)
    k = min(1.0, c["max_norm"] / (norm + 1e-6))
    for p, g in zip(ps, have):
        if g is None:
            require(p.grad is None, "a missing gradient appeared")
        else:
            require_close(p.grad.double(), k * g, "clipped gradient", rtol=1e-5, atol=1e-9)
            if norm < 0.99 * c["max_norm"]:
                require(torch.equal(p.grad.double(), g), "a gradient below the norm changed")
    for m, v in zip((tgt, src), vals):
        same(snap(m), v, "parameter values")
    nt = c["missing"] == 0.3 and norm > c["max_norm"]
    return ({"nontrivial"} if nt or (norm > c["max_norm"] and len(ps) > 2) else set()) | {
        "clipped" if norm > c["max_norm"] else "unclipped"}


# ------------------------------------------------------------------ optimizer
@st.composite
def optims(draw):
    grp = st.fixed_dictionaries(dict(
        n=spread(1, 3), lr=pick([0.01, 0.1, 1.0]), alpha=pick([0.99, 0.9, 0.5, 0.0]),
        eps=pick([1e-8, 1e-2, 0.1]), weight_decay=pick([0, 0.01, 0.5]), momentum=pick([0, 0.9, 0.3]),
        centered=flag))
    return dict(groups=draw(st.lists(grp, min_size=1, max_size=2)), shared=draw(flag),
                seed=draw(seeds),
                ops=draw(sized_list(pick(["step"] * 6 + ["missing", "lr", "save", "closure",
                                                        "zero", "nostate"]), 2, 14)))


def run_optims(c):
    r = rng(c["seed"])
    cls = (pfrl.optimizers.SharedRMSpropEpsInsideSqrt if c["shared"]
           else pfrl.optimizers.RMSpropEpsInsideSqrt)
    shapes = [(2,), (2, 3), ()]
    groups, model = [], []
    for g in c["groups"]:
        ps = [nn.Parameter(torch.as_tensor(r.randn(*shapes[i])).float().reshape(shapes[i]))
              for i in range(g["n"])]
        kw = {k: v for k, v in g.items() if k != "n"}
        groups.append(dict(params=ps, **kw))
        model.append([dict(x=p.detach().double().numpy().copy(), v=0.0, m=0.0, b=0.0)
                      for p in ps])
    opt = cls([dict(g) for g in groups])
    labels = {"shared" if c["shared"] else "plain"}
    steps = 0
    for op in c["ops"]:
        if op == "lr":
            for i, g in enumerate(opt.param_groups):
                g["lr"] = groups[i]["lr"] = groups[i]["lr"] * 0.5
            continue
        if op == "save":
            sd = opt.state_dict()
            opt = cls([dict(params=g["params"]) for g in groups])
            opt.load_state_dict(sd)
            labels.add("restored")
            continue
        if op == "zero":
            opt.zero_grad()
            opt.step()      # no gradients (or zeros in old versions): nothing is known to move
            for g, ms in zip(groups, model):
                for p, m in zip(g["params"], ms):
                    if p.grad is None:
                        require_close(p, m["x"], "parameter after a step without gradient",
                                      rtol=2e-4, atol=2e-5)
            continue
        if op == "nostate":
            continue
        keep = []
        for g, ms in zip(groups, model):
            for p, m in zip(g["params"], ms):
                if op == "missing" and r.rand() < 0.5:
                    p.grad = None
                    labels.add("missing")
                else:
                    p.grad = torch.as_tensor(r.randn(*p.shape) * r.choice([0.1, 1, 3])).float(
                    ).reshape(p.shape)
                keep.append((p.grad, None if p.grad is None else p.grad.clone()))
        if op == "closure":
            calls = []
            got = opt.step(lambda: calls.append(1) or 7.5)
            require(len(calls) == 1 and got == 7.5, "step(closure): %d calls, returned %r",
                    len(calls), got)
        else:
            require(opt.step() is None, "step() returns something")
        steps += 1
        i = 0
        for g, ms in zip(groups, model):
            for p, m in zip(g["params"], ms):
                obj, gr = keep[i]
                i += 1
                require(p.grad is obj, "the gradient object was replaced")
                if gr is not None:
                    require(torch.equal(p.grad, gr), "the optimizer changes the gradient")
                    d = gr.double().numpy() + g["weight_decay"] * m["x"]
                    a = g["alpha"]
                    m["v"] = a * m["v"] + (1 - a) * d * d
                    avg = m["v"] + g["eps"]
                    if g["centered"]:
                        m["m"] = a * m["m"] + (1 - a) * d
                        avg = m["v"] - m["m"] ** 2 + g["eps"]
                    if np.any(avg < 1e-4 * (m["v"] + 1e-30)) or np.any(avg < 1e-12):
                        return labels | {"cancelled"}     # float32 cancellation decides
                    u = d / np.sqrt(avg)
                    if g["momentum"] > 0:
                        m["b"] = g["momentum"] * m["b"] + u
                        u = m["b"]
                    m["x"] = m["x"] - g["lr"] * u
                tol = 3e-4 if not g["centered"] else 1e-2
                require_close(p, m["x"], "parameter after %d steps" % steps, rtol=tol,
                              atol=tol * g["lr"], scale=max(1.0, float(np.abs(m["x"]).max())))
                # follow the implementation's rounding
                m["x"] = p.detach().double().numpy().copy()
    if steps > 1:
        labels.add("nontrivial")
    return labels


# ------------------------------------------------------------------ modes
@st.composite
def modes(draw):
    return dict(tree=draw(tree()), bits=draw(st.integers(0, 2 ** 20 - 1)),
                how=draw(pick(["plain", "nested", "raise", "switch", "all", "none"])))


def run_modes(c):
    m = build(c["tree"], rng(0))
    mods = list(m.modules())
    for i, x in enumerate(mods):
        x.training = bool((c["bits"] >> i) & 1) if c["how"] not in ("all", "none") else (
            c["how"] == "all")
    old = [x.training for x in mods]

    def inside():
        require(not any(x.training for x in mods), "a submodule is in training mode inside "
                "evaluating()")
    try:
        with evaluating(m) as got:
            require(got is m, "evaluating() yields another object")
            inside()
            if c["how"] == "nested":
                with evaluating(m):
                    inside()
                inside()
                with evaluating(mods[-1]):
                    inside()
                inside()
            if c["how"] == "raise":
                raise KeyError("x")
    except KeyError:
        require(c["how"] == "raise", "evaluating() raised")
    else:
        require(c["how"] != "raise", "evaluating() swallows exceptions")
    now = [x.training for x in mods]
    require_eq(now, old, "training modes after evaluating()")
    return {"how:" + c["how"]} | ({"nontrivial"} if len(set(old)) > 1 else set())


QUICK_SCALE = 4

SUBS = [
    Sub("copy", copies(), run_copies, quick=500, thorough=30000, shards=2),
    Sub("grad", grads(), run_grads, quick=400, thorough=20000),
    Sub("optim", optims(), run_optims, quick=400, thorough=20000, shards=2),
    Sub("modes", modes(), run_modes, quick=250, thorough=8000),
]
