"""P19: evaluation measures whole episodes, on schedule, without touching training."""
import logging
import os
import statistics
import sys
import types
from contextlib import ExitStack
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, require, require_close, require_eq, scratch
from pbt.gens import flag, pick, sized_list, spread, tup
from pbt.script import ENDS, RecAgent, ScriptEnv, ScriptVec

from pfrl import experiments
from pfrl.experiments import evaluator as E
from pfrl.experiments.evaluation_hooks import EvaluationHook

logging.getLogger("pfrl").setLevel(logging.CRITICAL)

RULE = """'episodes': scripted environments (lengths, kinds of end, rewards) are evaluated for a number of
episodes or steps, twice in a row, possibly with a failing environment; the scores, statistics and every
call the agent and the environments see are compared with a model of the script. 'schedule': whole
training runs with evaluation on the training environment or another one; rows of scores.txt, hooks,
best-agent saves, history and the training stream against the model. Non-trivial: two or more
evaluated episodes of different returns ('episodes'), two or more evaluations ('schedule')."""
ASSUMPTIONS = ["a batched evaluation for n episodes counts the first n episodes in order of start (ties "
               "in order of the environments), one for n steps the longest run of them that fits"]


class Boom(Exception):
    pass


# ------------------------------------------------------------------ model
class M:
    """Model of one scripted environment."""

    def __init__(self, env):
        self.env, self.ep, self.k, self.n_steps = env, -1, 0, 0

    def reset(self):
        self.ep, self.k = self.ep + 1, 0
        return self.obs()

    def obs(self):
        return (float(self.env.eid), float(self.ep), float(self.k))

    def step(self, limit):
        """(reward, observation, done, reset)"""
        self.k += 1
        self.n_steps += 1
        length, kind = self.env.plan(self.ep)
        end = self.k == length
        done = end and kind in ("done", "both")
        reset = (end and kind in ("reset", "both")) or (limit is not None and self.k == limit)
        return self.env.reward(self.ep, self.k), self.obs(), done, reset


def model_single(m, n_steps, n_episodes, limit):
    """Expected stream of calls and the scores and lengths."""
    calls, scores, lengths, t = [], [], [], 0
    while True:
        o = m.reset()
        ret = n = 0
        while True:
            r, o2, done, reset = m.step(limit)
            t += 1
            ret, n = ret + r, n + 1
            over = done or reset
            stop = (t == n_steps) if n_steps is not None else (over and len(scores) + 1 == n_episodes)
            calls.append(([o], [r], [o2], [done], [over or stop]))
            o = o2
            if over:
                scores.append(ret)
                lengths.append(n)
            if stop:
                if not scores:
                    scores, lengths = [ret], [n]
                return calls, scores, lengths
            if over:
                break


def model_batch(ms, n_steps, n_episodes, limit):
    N = len(ms)
    ep = [dict(ret=0.0, n=0, over=False) for _ in ms]  # current episode of each environment
    order = list(ep)  # all episodes by start
    obs = [m.reset() for m in ms]
    calls = []
    while True:
        outs = [m.step(limit) for m in ms]
        for e, (r, _, done, reset) in zip(ep, outs):
            e["ret"] += r
            e["n"] += 1
            e["over"] = done or reset
        started = [i for i in range(N) if ep[i]["over"]]
        # the run of finished episodes at the head of the order of start
        head = []
        rest = list(order)
        while rest and rest[0]["over"]:
            head.append(rest.pop(0))
        total = sum(e["n"] for e in head)
        if n_episodes is not None:
            stop, sel = len(head) >= n_episodes, head[:n_episodes]
        else:
            running = rest[0]["n"] if rest else 0
            stop = total + running >= n_steps
            sel, used = [], 0
            for e in head:
                used += e["n"]
                if used > n_steps:
                    break
                sel.append(e)
            if not head:
                sel = rest[:1]
        calls.append((obs, [o[0] for o in outs], [o[1] for o in outs], [o[2] for o in outs],
                      [bool(o[2] or o[3] or stop) for o in outs]))
        if stop:
            return calls, [e["ret"] for e in sel], [e["n"] for e in sel]
        obs = [o[1] for o in outs]
        for i in started:
            ep[i] = dict(ret=0.0, n=0, over=False)
            order.append(ep[i])
            obs[i] = ms[i].reset()


def model_eval(ms, batch, c, limit):
    ns, ne = (c["n"], None) if c["by_steps"] else (None, c["n"])
    return model_batch(ms, ns, ne, limit) if batch else model_single(ms[0], ns, ne, limit)


def norm_log(log):
    """Recorded calls as (obs, action, reward, next obs, done, done or reset) lists."""
    out = []
    for a, o in zip(log[0::2], log[1::2]):
        require(a[0] == "act" and o[0] == "observe", "calls of act and observe do not alternate: %s",
                [x[0] for x in log])
        if isinstance(a[1], list):
            out.append((a[1], o[2], o[1], o[3], [d or r for d, r in zip(o[3], o[4])]))
        else:
            out.append(([a[1]], [o[2]], [o[1]], [o[3]], [o[3] or o[4]]))
    require(len(log) % 2 == 0, "act without observe at the end")
    return out


def check_calls(log, want, what):
    got = norm_log(log)
    for t, (g, w) in enumerate(zip(got, want)):
        for name, x, y in zip(("acted on", "reward", "next observation", "done", "episode end"),
                              g, w):
            require(list(x) == list(y), "%s, step %d: %s %s, expected %s", what, t + 1, name, x, y)
    require_eq(len(got), len(want), "%s: number of steps" % what)


class StatEnv(ScriptEnv):
    cleared = 0
    lenient = True

    def get_statistics(self):
        return [("since_clear", sum(x[0] == "step" for x in self.log) - self.cleared)]

    def clear_statistics(self):
        self.cleared = sum(x[0] == "step" for x in self.log)


class StatVec(ScriptVec):
    def get_statistics(self):
        return [("since_clear", sum(e.get_statistics()[0][1] for e in self.envs))]

    def clear_statistics(self):
        for e in self.envs:
            e.clear_statistics()


def make(scripts, batch, limit, salt=0, base=0):
    envs = [StatEnv(base + i, [[n, ENDS[k]] for n, k in eps], None, salt=salt)
            for i, eps in enumerate(scripts)]
    return (StatVec(envs), envs) if batch else (envs[0], envs[:1])


def check_stats(stats, scores, lengths):
    require_eq(stats["episodes"], len(scores), "number of episodes in the statistics")
    for pre, xs in (("", scores), ("length_", lengths)):
        xs = [float(x) for x in xs]
        for k, v in (("mean", np.mean(xs)), ("median", np.median(xs)), ("max", max(xs)),
                     ("min", min(xs)),
                     ("stdev", np.std(xs, ddof=1) if len(xs) > 1 else 0.0)):
            require_close(stats[pre + k], v, "%s%s of %s" % (pre, k, xs), rtol=1e-9, atol=1e-9)


def run_episodes(c):
    batch = c["batch"]
    env, envs = make(c["scripts"], batch, c["limit"], c["salt"])
    ms = [M(e) for e in envs]
    agent = RecAgent()
    agent.training = c["training"]
    kw = dict(n_steps=c["n"] if c["by_steps"] else None,
              n_episodes=None if c["by_steps"] else c["n"], max_episode_len=c["limit"])
    labels = []
    for round_ in range(2):
        calls, scores, lengths = model_eval(ms, batch, c, c["limit"])
        agent.elog, agent.log = [], []
        if c["via"] == "stats":
            stats = E.eval_performance(env, agent, **kw)
            check_stats(stats, scores, lengths)
        else:
            f = E.batch_run_evaluation_episodes if batch else E.run_evaluation_episodes
            got_s, got_l = f(env, agent, **kw)
            require_close(np.array(got_s), np.array(scores), "returns of the evaluated episodes",
                          rtol=1e-9, atol=1e-9)
            require_eq([float(x) for x in got_l], [float(x) for x in lengths],
                       "lengths of the evaluated episodes")
        require_eq(agent.log, [], "calls of the agent in training mode during an evaluation")
        require_eq(agent.training, c["training"], "training mode after the evaluation")
        check_calls(agent.elog, calls, "evaluation %d" % round_)
        for e, m in zip(envs, ms):
            require_eq(sum(x[0] == "step" for x in e.log), m.n_steps, "steps of environment %d"
                       % e.eid)
        if len(set(scores)) > 1:
            labels.append("nontrivial")
    if c["fault"] is not None:
        where, k = c["fault"]
        exc = Boom("boom")
        if where == "act":
            agent.calls["eval_act"] = 0
            agent.fail = {"eval_act": k, "exc": exc}
        else:
            envs[0].calls = dict(step=0, reset=0)
            envs[0].fail = {"step": k, "exc": exc}
        try:
            E.eval_performance(env, agent, **kw)
        except Boom:
            labels.append("fault")
        require_eq(agent.training, c["training"], "training mode after a failed evaluation")
    return labels + ["batch" if batch else "single", "steps" if c["by_steps"] else "n episodes"]


class Hook(EvaluationHook):
    support_train_agent = support_train_agent_batch = True

    def __init__(self, seen):
        self.seen = seen

    def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
        self.seen.append((step, dict(eval_stats), dict(agent_stats), dict(env_stats), env,
                          agent.training))


def tensorboard(scalars, outdir):
    """A stand-in for torch.utils.tensorboard (which is not installed) that records scalars."""
    class SummaryWriter:
        def __init__(self, log_dir=None, **kw):
            require_eq(os.path.abspath(log_dir), os.path.abspath(outdir), "directory of the summary writer")

        def add_scalar(self, tag, value, global_step=None, walltime=None, **kw):
            scalars.append((global_step, tag, float(value)))

        def __getattr__(self, name):
            return lambda *a, **k: None
    m = types.ModuleType("torch.utils.tensorboard")
    m.SummaryWriter = SummaryWriter
    return m


def run_schedule(c):
    batch, shared = c["batch"], c["shared"]
    during = c["during"] and not shared and not batch
    scripts = c["scripts"] if batch else c["scripts"][:1]
    N = len(scripts)
    env, envs = make(scripts, batch, c["limit"], c["salt"])
    if shared:
        eenv, eenvs = env, envs
    else:
        eenv, eenvs = make(c["escripts"], c["ebatch"], None, c["salt"] + 1, base=100)
    ebatch = isinstance(eenv, ScriptVec)
    agent = RecAgent(with_t=c["salt"] % 2 == 0)
    seen = []
    steps = c["offset"] + c["steps"]
    elimit = c["elimit"] if c["elimit"] is not None else c["limit"]

    # ---- the model of the whole run
    ms = [M(e) for e in envs]
    ems = ms if shared else [M(e) for e in eenvs]
    t, train_calls, eval_calls, evals = c["offset"], [], [], []
    due = c["offset"] - c["offset"] % c["interval"] + c["interval"]
    best, saves, finished, cuts = None, [], 0, 0
    obs = [m.reset() for m in ms]
    while True:
        outs = [m.step(c["limit"]) for m in ms]
        t += N
        over = [bool(o[2] or o[3]) for o in outs]
        finished += sum(over)
        last = t >= steps
        can = batch or during or over[0] or last
        ev = can and t >= due
        if batch and shared and ev:
            cuts += sum(not o for o in over)
            over = [True] * N
        train_calls.append((obs, [o[0] for o in outs], [o[1] for o in outs],
                            [o[2] for o in outs], over))
        stop = False
        if ev:
            ecalls, scores, lengths = model_eval(ems, ebatch, c, elimit)
            eval_calls += ecalls
            mean = statistics.mean(scores)
            evals.append(dict(t=t, scores=scores, lengths=lengths, steps=len(ecalls) * (
                len(ems) if ebatch else 1), observed=t - c["offset"], finished=finished,
                cuts=cuts, last=last and not over[0]))
            if best is None or mean > best:
                best = mean
                saves.append(t - c["offset"])
            due = t - t % c["interval"] + c["interval"]
            stop = c["goal"] is not None and best >= c["goal"]
        if last or stop:
            break
        obs = [m.reset() if o else x[1] for m, o, x in zip(ms, over, outs)]

    with scratch() as d:
        out = os.path.join(d, "new", "dir") if c["salt"] % 3 == 0 else d
        kw = dict(agent=agent, env=env, steps=steps, eval_n_steps=c["n"] if c["by_steps"] else None,
                  eval_n_episodes=None if c["by_steps"] else c["n"], eval_interval=c["interval"],
                  outdir=out, step_offset=c["offset"], eval_max_episode_len=c["elimit"],
                  eval_env=None if shared else eenv, successful_score=c["goal"],
                  evaluation_hooks=[Hook(seen)] if c["hook"] else [],
                  save_best_so_far_agent=c["save_best"], use_tensorboard=bool(c.get("tb")))
        scalars = []
        st_ = ExitStack()
        if c.get("tb"):
            st_.enter_context(mock.patch.dict(sys.modules, {"torch.utils.tensorboard": tensorboard(scalars, out)}))
        if batch:
            ag, hist = experiments.train_agent_batch_with_evaluation(
                max_episode_len=c["limit"], **kw)
        else:
            ag, hist = experiments.train_agent_with_evaluation(
                train_max_episode_len=c["limit"], eval_during_episode=during, **kw)
        st_.close()
        with open(os.path.join(out, "scores.txt")) as f:
            rows = [ln.rstrip("\n").split("\t") for ln in f]
    require(ag is agent, "another agent is returned")
    check_calls(agent.log, train_calls, "training")
    check_calls(agent.elog, eval_calls, "evaluations")
    require(agent.training, "the agent is left in evaluation mode")
    # ---- score log
    head, rows = rows[0], rows[1:]
    require_eq(head, ["steps", "episodes", "elapsed", "mean", "median", "stdev", "max", "min",
                      "observed", "saves", "since_clear"], "columns of scores.txt")
    require_eq([int(r[0]) for r in rows], [e["t"] for e in evals], "steps of the evaluations")
    prev = 0.0
    for r, e in zip(rows, evals):
        lo = e["finished"]
        hi = lo + e["cuts"] + (1 if e["last"] else 0)
        require(lo <= int(r[1]) <= hi, "episodes at step %d: %s recorded, %d finished", e["t"], r[1],
                lo)
        require(float(r[2]) >= prev, "elapsed time goes back")
        prev = float(r[2])
        xs = e["scores"]
        for k, v in zip(range(3, 8), (np.mean(xs), np.median(xs), np.std(xs, ddof=1) if len(xs) > 1
                                      else 0.0, max(xs), min(xs))):
            require_close(float(r[k]), v, "%s at step %d" % (head[k], e["t"]), rtol=1e-9, atol=1e-9)
        require_eq(int(r[8]), e["observed"], "agent statistics at step %d" % e["t"])
        require_eq(int(r[10]), e["steps"], "environment statistics at step %d" % e["t"])
    if c.get("tb"):
        want = {}
        for e in evals:
            xs = e["scores"]
            sd = float(np.std(xs, ddof=1)) if len(xs) > 1 else 0.0
            mu = float(np.mean(xs))
            for k, v in dict(mean=mu, median=np.median(xs), stdev=sd, max=max(xs), min=min(xs)).items():
                want[e["t"], "eval/" + k] = v
            want[e["t"], "extras/meanplusstdev"], want[e["t"], "extras/meanminusstdev"] = mu + sd, mu - sd
            want[e["t"], "agent/observed"] = e["observed"]
            want[e["t"], "env/since_clear"] = e["steps"]
        got = {(t, k): v for t, k, v in scalars if k != "agent/saves"}
        require_eq(sorted(got), sorted(want), "scalars given to tensorboard")
        require_eq(len(scalars), len(got) + len(evals), "number of scalars given to tensorboard")
        for k in want:
            require_close(got[k], want[k], "scalar %s at step %d" % (k[1], k[0]), rtol=1e-9, atol=1e-9)
    # ---- hooks, history, best agent
    if c["hook"]:
        require_eq([s[0] for s in seen], [e["t"] for e in evals], "steps given to the hook")
        for s, e in zip(seen, evals):
            check_stats(s[1], e["scores"], e["lengths"])
            require_eq(s[2]["observed"], e["observed"], "agent statistics given to the hook")
            require_eq(s[3]["since_clear"], e["steps"], "environment statistics given to the hook")
            require(s[4] is eenv and s[5], "the hook is given the wrong environment or an agent "
                    "in evaluation mode")
    require_eq(len(hist), len(evals), "length of the returned history")
    for h, e in zip(hist, evals):
        require_close(h["eval_score"], np.mean(e["scores"]), "score in the history", rtol=1e-9,
                      atol=1e-9)
        require_eq(h["observed"], e["observed"], "agent statistics in the history")
    got = [n for p, n in agent.saves if os.path.basename(p) == "best"]
    require_eq(got, saves if c["save_best"] else [], "agents saved as the best so far")
    fin = [os.path.basename(p) for p, n in agent.saves if os.path.basename(p) != "best"]
    require_eq(fin, ["%d_finish" % t], "other saves")
    return (["nontrivial"] if len(evals) >= 2 else []) + ["batch" if batch else "single"] + [
        "shared" if shared else "own env"] + (["goal reached"] if t < steps else [])


def run_close(c):
    """An error during batch training closes every environment exactly once."""
    env, envs = make(c["scripts"], True, None, 0)
    eenv, eenvs = (env, envs) if c["shared"] else make(c["escripts"], True, None, 1, base=100)
    exc = Boom("boom")
    agent = RecAgent(fail={c["where"]: c["k"], "exc": exc})
    reached = False
    with scratch() as d:
        try:
            experiments.train_agent_batch_with_evaluation(
                agent=agent, env=env, steps=40, eval_n_steps=None, eval_n_episodes=c["n"],
                eval_interval=c["interval"], outdir=d, eval_env=None if c["shared"] else eenv)
        except Boom as e:
            require(e is exc, "another error came out")
            reached = True
        files = os.listdir(d)
    require(agent.training, "the agent is left in evaluation mode")
    want = 1 if reached else 0
    require_eq(env.closed, want, "number of times the training environment was closed")
    require_eq(eenv.closed, want, "number of times the evaluation environment was closed")
    require_eq(sum(f.endswith("_except") for f in files), want, "saves after an error")
    return ["nontrivial"] if reached else []


EPS = sized_list(tup(spread(1, 6), spread(0, 2)), 1, 5)
SCRIPTS = sized_list(EPS, 1, 4)
QUICK_SCALE = 3

SUBS = [
    Sub("episodes", lambda: st.fixed_dictionaries(dict(
        scripts=SCRIPTS, batch=flag, by_steps=flag, n=spread(1, 14),
        limit=pick([None, None, 1, 2, 4]), salt=spread(0, 50), via=pick(["stats", "lists"]),
        training=pick([True, True, False]),
        fault=st.one_of(st.none(), tup(pick(["act", "step"]), spread(1, 10))))),
        run_episodes, quick=1200, shards=4),
    Sub("schedule", lambda: st.fixed_dictionaries(dict(
        scripts=SCRIPTS, escripts=SCRIPTS, batch=flag, ebatch=flag,
        shared=flag, during=flag, by_steps=flag, n=spread(1, 6),
        limit=pick([None, None, 2, 4]), elimit=pick([None, None, 1, 3]), salt=spread(0, 50),
        steps=spread(1, 40), interval=spread(1, 12), offset=pick([0, 0, 0, 3, 10]),
        goal=pick([None, None, None, -20.0, 0.0, 30.0]), hook=flag,
        tb=pick([False, False, True]), save_best=pick([True, True, True, False]))), run_schedule, quick=1200, shards=4),
    Sub("close", lambda: st.fixed_dictionaries(dict(
        scripts=SCRIPTS, escripts=SCRIPTS, shared=flag, n=spread(1, 3),
        interval=spread(1, 12), where=pick(["act", "observe", "eval_act", "eval_observe"]),
        k=spread(1, 20))), run_close, quick=200),
]
