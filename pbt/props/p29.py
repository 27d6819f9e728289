"""P29: actor-learner training neither loses nor mixes experience and publishes the learner's model."""
import logging
import os

import numpy as np
import torch
from hypothesis import strategies as st

from pbt import agents as A
from pbt import zoo
from pbt.core import Sub, require, require_eq, rng, scratch, seed_all
from pbt.gens import flag, pick, seeds, sized_list, spread, tup
from pbt.sched import CURRENT, controlled

import pfrl
from pfrl import explorers, replay_buffers

logging.getLogger("pfrl").setLevel(logging.CRITICAL + 1)

RULE = """A case is a Q-learning agent (eight kinds, two of them recurrent) with generated settings and a plain, prioritized,
bounded or episodic replay buffer, 1-3 actors with generated histories of steps, episode ends, interruptions, evaluation steps and
requests for statistics, saves and loads, and a schedule: the actors, the poller, the learner and the main program run as threads, one at
a time, switching at every access of a pipe, lock, event or counter and inside of the learner's update as the schedule says; some cases
make an update fail. Compared: contents of the replay buffer and priorities with the actors' own logs, actions with the shared model,
and at each update the shared and the target model with the learner's history. Non-trivial: two or more actors, at
least one update and ten switches."""
ASSUMPTIONS = ["saves and loads requested while the learner updates are only required to be answered",
               "what is still in the pipes when the poller is stopped is not stored"]

KINDS = ["DQN", "DoubleDQN", "AL", "PAL", "DPP", "CategoricalDQN", "RDQN", "RDoubleDQN"]
OPS = ["step"] * 8 + ["stats", "eval", "save", "load"]


@st.composite
def cases(draw):
    n = draw(pick([1, 2, 2, 3]))
    return dict(
        agent=draw(pick(KINDS)), cfg=draw(zoo.config()), seed=draw(seeds),
        buf=draw(pick(["plain", "prio", "plain", "prio"])), capacity=draw(pick([None, None, 5, 9])),
        actors=[draw(sized_list(tup(pick(OPS), spread(0, 11)), 3, 16)) for _ in range(n)],
        ends=draw(pick(["often", "seldom", "varying"])), idle=draw(pick([False] * 6 + [True])), n_updates=draw(pick([None, None, None, 2, 6])),
        more=draw(spread(0, 6)), fault=draw(pick([None] * 9 + [0, 1, 2])),
        aint=draw(spread(1, 4)), drop=draw(flag), explore=draw(flag), fair=draw(pick([2, 3, 7])),
        schedule=draw(sized_list(spread(0, 6), 3, 120)))


class Boom(Exception):
    pass


def make_buffer(c, rec):
    if rec:
        return replay_buffers.EpisodicReplayBuffer(c["capacity"])
    if c["buf"] == "prio":
        return replay_buffers.PrioritizedReplayBuffer(c["capacity"], num_steps=c["cfg"]["n"],
                                                      betasteps=50, alpha=0.7)
    return replay_buffers.ReplayBuffer(c["capacity"], num_steps=c["cfg"]["n"])


def windows(log, n):
    """n-step windows (as lists of indices into the actor's log) in order of completion."""
    out, ep = [], []

    def flush(k0):
        for j in range(k0, len(ep)):
            out.append(tuple(ep[j:j + n]))
    for k, t in enumerate(log):
        ep.append(k)
        if len(ep) >= n:
            out.append(tuple(ep[-n:]))
        if t["end"]:
            flush(max(0, len(ep) - n + 1))
            ep = []
    return out


def ident(w):
    return tuple((int(t["state"][0]), int(t["state"][1])) for t in w)


def episodes(log):
    out, ep = [], []
    for k, t in enumerate(log):
        ep.append(k)
        if t["end"]:
            out.append(tuple(ep))
            ep = []
    return out


def run(c):
    name = c["agent"]
    rec = name in zoo.RECURRENT_Q
    cfg = zoo.fix(name, c["cfg"])
    cfg["noisy"] = False
    cfg["start"] = max(min(cfg["start"], 5), cfg["batch"])
    if c["capacity"] is not None:
        cfg["start"] = min(cfg["start"], c["capacity"])
        cfg["batch"] = min(cfg["batch"], cfg["start"])
    N = len(c["actors"])
    seed_all(c["seed"])
    buf = make_buffer(c, rec)
    ag = zoo.make(name, cfg, buf=buf)
    if c.get("drop"):
        # a layer that behaves differently in training and evaluation, as dropout does
        lin = next(m for m in ag.model.modules() if isinstance(m, torch.nn.Linear))
        lin.register_forward_hook(lambda m, i, o: torch.nn.functional.dropout(o, 0.5, m.training))
    idle = c["idle"]
    if idle:
        ag.replay_start_size = 10 ** 6
    ag.explorer = (explorers.ConstantEpsilonGreedy(0.5, lambda: np.random.randint(3)) if c["explore"]
                   else explorers.Greedy())
    logs = [[] for _ in range(N)]
    hist = []        # parameters of the learner after each update, as seen by the hooks
    errors = []
    seen_steps, seen_opt = [], []
    prio = {}
    fault = c["fault"] if not idle else None
    other = zoo.make(name, cfg, seed=cfg["netseed"] + 9)
    problems = []
    ui, tui = ag.update_interval, ag.target_update_interval

    with controlled(c["schedule"], errors, fair=c["fair"], steal_s=20.0) as s, scratch() as d:
        from multiprocessing import Process
        other.save(os.path.join(d, "other"))
        counter = {}

        def hook_opt(env, a, t):
            require(env is None and a is ag, "optimizer step hook is called with %s, %s", env, a)
            seen_opt.append(t)
            hist.append(A.params_of(ag.model))
            require_eq(ag.optim_t, len(hist), "number of updates at a hook")
            if not loaded:
                check_models()

        def hook_step(env, a, t):
            require(env is None and a is ag, "step hook is called with %s, %s", env, a)
            seen_steps.append(t)

        def guarded(f):
            def g(*a):
                try:
                    f(*a)
                except AssertionError as e:
                    problems.append(e)
                    raise
            return g

        # parameters at points inside of an update
        def pre(m, _):
            w = getattr(CURRENT, "worker", None)
            if (m is ag.model or m is ag.target_model) and w is not None and w.name == "learner":
                s.point()
        ag.model.register_forward_pre_hook(pre)
        loaded = []
        init = A.params_of(ag.model)
        tinit = A.params_of(ag.target_model)
        make_actor, learner, poller, exc = ag.setup_actor_learner_training(
            N, n_updates=c["n_updates"], actor_update_interval=c["aint"],
            step_hooks=[guarded(hook_step)], optimizer_step_hooks=[guarded(hook_opt)])
        actors = [make_actor(i) for i in range(N)]
        shared = actors[0].model
        require(all(a.model is shared for a in actors), "the actors do not share one model")
        require(shared is not ag.model, "the actors use the learner's own model")

        def eq(m, want, what):
            for k, v in m.state_dict().items():
                require(torch.allclose(v, want[k], rtol=1e-5, atol=1e-6), "%s (%s differs)", what, k)

        def check_models():
            k = len(hist)
            j = k // c["aint"] * c["aint"]
            eq(shared, hist[j - 1] if j else init, "after %d updates the shared model is not the learner's "
               "after %d" % (k, j))
            t = {n: v.clone() for n, v in tinit.items()}
            for q in range(1, k):
                if q * ui % tui == 0:
                    tau = 1.0 if ag.target_update_method == "hard" else ag.soft_update_tau
                    for n in t:
                        if t[n].is_floating_point():
                            t[n] = (1 - tau) * t[n] + tau * hist[q - 1][n]
            eq(ag.target_model, t, "at update %d the target model is not the one of its schedule" % k)

        if fault is not None:
            orig, calls = ag.optimizer.step, [0]

            def failing(*a, **k):
                calls[0] += 1
                if calls[0] > fault:
                    raise Boom()
                return orig(*a, **k)
            ag.optimizer.step = failing

        if isinstance(buf, replay_buffers.PrioritizedReplayBuffer):
            osample, oupdate, last = buf.sample, buf.update_errors, []

            def sample(n):
                out = osample(n)
                last[:] = [ident(w) for w in out]
                return out

            def update(errs):
                ps = buf.priority_from_errors([float(np.asarray(e).reshape(())) for e in errs])
                oupdate(errs)
                for w, p in zip(last, ps):
                    prio[w] = p
            buf.sample, buf.update_errors = sample, update

        def forward(x, h):
            x = torch.as_tensor(x)[None]
            with torch.no_grad(), pfrl.utils.evaluating(shared):
                if rec:
                    y, h = pfrl.utils.recurrent.one_step_forward(shared, x, h)
                else:
                    y = shared(x)
                return h, y.q_values[0]

        def act_loop(i):
            a, r = actors[i], rng(c["seed"] + 31 * i)
            a.process_idx = i
            t = 0
            h = None
            new = lambda: np.array([i, 0, r.randn()], dtype=np.float32)  # noqa: E731
            obs, ep, epis = new(), 0, 0
            nstat = 0
            for k, (op, row) in enumerate(c["actors"][i] * (1 + c["more"] // 3)):
                s.point()
                often = c["ends"] == "often" or c["ends"] == "varying" and k // 5 % 2 == 0
                row = row % 6 - 2 if often else row - 8
                row = max(row, 0)
                if op == "stats" or op == "save" or op == "load":
                    if op == "stats":
                        st_ = dict(a.get_statistics())
                        require(t <= st_["cumulative_steps"] <= sum(map(len, logs)),
                                "actor %d has sent %d transitions, the learner reports %s", i, t,
                                st_["cumulative_steps"])
                        require(st_["n_updates"] >= nstat, "the number of updates goes back")
                        nstat = st_["n_updates"]
                    elif op == "save":
                        p = os.path.join(d, "s%d-%d" % (i, t))
                        a.save(p)
                        require(os.path.isdir(p), "save is answered before anything is saved")
                        if idle and not loaded:
                            z = torch.load(os.path.join(p, "model.pt"))
                            require(all(torch.equal(v, z[k]) for k, v in init.items()),
                                    "an actor's save holds other parameters than the learner's")
                    else:
                        if not idle:
                            continue        # the learner's history could not be followed
                        loaded.append(1)
                        a.load(os.path.join(d, "other"))
                        require(all(torch.equal(v, other.model.state_dict()[k])
                                    for k, v in ag.model.state_dict().items()),
                                "an actor's load does not change the learner")
                    continue
                if op == "eval":
                    before = (len(buf), a.t)
                    he = None
                    with a.eval_mode():
                        for j in range(1 + row % 3):
                            x = np.array([99, 99, r.randn()], dtype=np.float32)
                            he, q = forward(x, he)
                            act = a.act(x)
                            require(float(q.max() - q[int(act)]) <= 1e-5, "actor %d does not evaluate the shared model", i)
                            last = j == row % 3
                            a.observe(x, 1.0, last and k % 2 == 0, last and k % 2 == 1)
                    require_eq(a.t, before[1], "steps of an actor after evaluation")
                    continue
                obs[1] = t
                obs = obs.copy()
                h2, q = forward(obs, h)
                act = a.act(obs)
                if not c["explore"]:
                    require(float(q.max() - q[int(act)]) <= 1e-5, "actor %d does not act by the shared model",
                            i)
                s.point()
                done, reset = bool(row & 1), bool(row & 2)
                nxt = np.array([i, t + 1, r.randn()], dtype=np.float32)
                rew = float(np.float32(r.randn()))
                e = dict(state=obs, action=act, reward=rew, next_state=nxt, done=done,
                         end=done or reset)
                if rec:
                    e["recurrent_state"], e["next_recurrent_state"] = h, h2
                    h = None if done or reset else h2
                logs[i].append(e)
                t += 1
                a.observe(nxt, rew, done, reset)
                require_eq(a.t, t, "steps counted by actor %d" % i)
                obs = new() if done or reset else nxt.copy()
            finished.append(i)
            s.kick()

        finished, own = [], []

        def ended(w):
            return not w.thread.is_alive() or w.exitcode is not None

        def main_loop():
            while len(finished) < N and not exc.is_set() and not errors:
                s.point()
            k = 0
            while any(p.box for p in pipes) and not exc.is_set() and not errors:
                s.point()
            while k < 20 + 30 * c["more"] and not exc.is_set() and not errors and not ended(wl):
                s.point()
                k += 1
            own.append(learner.is_stopped())
            learner.stop()
            while not ended(wl):
                s.point()
            poller.stop()
            while not ended(wp):
                s.point()

        pipes = [a.pipe.peer for a in actors]
        wl = Process(target=learner.run, name="learner")
        wp = Process(target=poller.run, name="poller")
        wa = [Process(target=act_loop, args=(i,), name="actor") for i in range(N)]
        wm = Process(target=main_loop, name="main")
        for w in [wp, wl] + wa + [wm]:
            w.start()
        wm.join()
        switches = s.switches
        stuck = s.stop
        is_exc = exc.is_set()
        stats = dict(ag.get_statistics())
        stopped = learner.is_stopped()
        uc = ag.update_counter.value
    for e in problems:
        raise e
    for no, e in errors:
        raise e
    require(not stuck, "the threads do not come to an end")
    if fault is not None and is_exc:
        require_eq(len(hist), fault, "updates before the one that failed")
        return ["fault"]
    require(not is_exc, "an exception was reported although nothing failed")
    require(stopped, "the learner is not stopped")
    n = len(hist)
    require_eq(seen_opt, list(range(1, n + 1)), "steps given to optimizer step hooks")
    require_eq(seen_steps, [k * ui for k in range(1, n + 1)], "steps given to step hooks")
    if c["n_updates"] is not None:
        require(n <= c["n_updates"], "%d updates instead of %d", n, c["n_updates"])
    if own[0]:
        require(c["n_updates"] is not None and n == c["n_updates"], "the learner stops after %d updates, n_updates=%s", n,
                c["n_updates"])
    require_eq(uc, n // c["aint"], "update counter after %d updates" % n)
    require_eq(stats["n_updates"], n, "number of updates in statistics")
    total = sum(map(len, logs))
    require_eq(stats["cumulative_steps"], total, "cumulative steps in statistics")
    # contents
    if rec:
        want = [episodes(x) for x in logs]
        have = [list(e) for e in buf.episodic_memory]
    else:
        want = [windows(x, cfg["n"]) for x in logs]
        have = [list(w) for w in (buf.memory.data if hasattr(buf.memory, "data") else buf.memory)]
    got = [[] for _ in range(N)]
    for w in have:
        ks = ident(w)
        i = ks[0][0]
        require(all(k[0] == i for k in ks), "a stored window mixes actors: %s", ks)
        got[i].append(tuple(k[1] for k in ks))
        for t in w:
            e = logs[i][int(t["state"][1])]
            for f in ("state", "action", "reward", "next_state"):
                require(np.array_equal(np.asarray(t[f]), np.asarray(e[f])), "stored %s is %s, the actor's was %s",
                        f, t[f], e[f])
            require_eq(bool(t["is_state_terminal"]), e["done"], "stored terminal flag")
            if rec:
                for f in ("recurrent_state", "next_recurrent_state"):
                    same_state(t[f], e[f], f)
    if c["capacity"] is None:
        require_eq(got, want, "contents of the replay buffer by actor")
    else:
        for i in range(N):
            require_eq(got[i], want[i][len(want[i]) - len(got[i]):], "contents of the bounded replay buffer "
                       "from actor %d" % i)
        if not rec:
            require_eq(len(have), min(c["capacity"], sum(map(len, want))), "length of the replay buffer")
    if prio:
        got, probs, _ = buf.memory.sample(len(have))
        require_eq(sorted(map(ident, got)), sorted(map(ident, have)), "elements that can be sampled")
        ratio = [(float(p) / float(prio[ident(w)]), ident(w)) for w, p in zip(got, probs) if ident(w) in prio]
        for x, w in ratio:
            require(abs(x - ratio[0][0]) <= 1e-4 * x, "probabilities of %s and %s are not in the ratio of the priorities of "
                    "their last errors (%s)", ratio[0][1], w, x / ratio[0][0])
    labels = ["agent:" + name] + (["prio"] if prio else []) + (["updates"] if n else [])
    if c["n_updates"] == n:
        labels.append("n_updates reached")
    if N >= 2 and n and switches >= 10:
        labels.append("nontrivial")
    return labels


def same_state(a, b, what):
    if b is None:
        require(a is None or all(not np.any(np.asarray(x)) for x in leaves(a)), "%s of the first step is not "
                "the initial one", what)
        return
    x = [np.asarray(v) for v in leaves(a)]
    y = [v.detach().numpy()[:, 0] for v in leaves(b)]
    require(len(x) == len(y) and all(p.shape == q.shape and np.allclose(p, q, atol=1e-5) for p, q in zip(
        x, y)), "stored %s is not the actor's", what)


def leaves(x):
    if x is None:
        return []
    if isinstance(x, (tuple, list)):
        return [v for y in x for v in leaves(y)]
    return [x]


SUBS = [Sub("schedule", cases(), run, quick=400, thorough=8000, shards=8, axis=("agent", KINDS))]
