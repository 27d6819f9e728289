"""P18: training loops follow the environment protocol and stop on time."""
import logging
import os
import re

from hypothesis import strategies as st

from pbt.core import Sub, Violation, require, require_close, require_eq, scratch
from pbt.gens import flag, pick, sized_list, spread, tup
from pbt.script import ENDS, RecAgent, ScriptEnv, ScriptVec, simulate

from pfrl import experiments

logging.getLogger("pfrl").setLevel(logging.CRITICAL)

RULE = """A case is a script of episodes (length, ended by termination, by a reset request or by both) for
1-4 environments, a length limit, a step budget, a step offset, a checkpoint interval and, in 'fault',
the call of the environment, the agent or a hook which raises. The agent, the hooks and the
environments record every call; the record is compared with a simulation of the script, as are the progress lines given to the
logger. Non-trivial:
at least two episode ends within the budget ('fault': the fault was reached after at least one
step)."""
ASSUMPTIONS = ["a checkpoint on the very last step of the single-environment loop may be replaced by "
               "the final save"]


class Boom(Exception):
    pass


def make_envs(c, limit, fail=None):
    envs = []
    for i, eps in enumerate(c["scripts"]):
        e = ScriptEnv(i, [[n, ENDS[k]] for n, k in eps], limit, npbool=c["npbool"])
        envs.append(e)
    if fail:
        envs[fail[0] % len(envs)].fail = fail[1]
    return envs


def train(c, envs, agent, outdir, hooks, **kw):
    batch = c["batch"]
    env = ScriptVec(envs) if batch else envs[0]
    f = experiments.train_agent_batch if batch else experiments.train_agent
    if batch and c["log_interval"]:
        kw["log_interval"] = c["log_interval"]
    ret = f(agent, env, steps=c["offset"] + c["steps"], outdir=outdir,
            checkpoint_freq=c["ckpt"], max_episode_len=c["limit"], step_offset=c["offset"],
            step_hooks=hooks, **kw)
    return env, ret


def expected_steps(c):
    N = len(c["scripts"]) if c["batch"] else 1
    return -(-c["steps"] // N)


def check_stream(c, envs, agent, rounds, what="training"):
    """The agent's record against the simulated script over the given number of rounds."""
    batch = c["batch"]
    sims = [simulate(e, rounds, c["limit"]) for e in envs]
    log = agent.log
    for t in range(rounds):
        require(len(log) >= 2 * t + 1, "%s: only %d calls of act and observe in %d steps", what,
                len(log), rounds)
        a = log[2 * t]
        want_obs = [s[t][0] for s in sims]
        if not batch:
            want_obs = want_obs[0]
        require(a[0] == "act" and a[1] == want_obs, "step %d: agent called with %s, expected "
                "act(%s)", t + 1, a[:2], want_obs)
        for i, e in enumerate(envs):
            steps = [x for x in e.log if x[0] == "step"]
            require(len(steps) > t, "environment %d was stepped only %d times", i, len(steps))
            act = a[2][i] if batch else a[2]
            require(steps[t][3] == act, "step %d: environment %d got action %s, the agent chose %s",
                    t + 1, i, steps[t][3], act)
        if len(log) <= 2 * t + 1:
            break
        o = log[2 * t + 1]
        w = [[s[t][2], s[t][1], s[t][3], s[t][4]] for s in sims]
        w = [list(x) for x in zip(*w)] if batch else w[0]
        require(o[0] == "observe" and list(o[1:]) == w, "step %d: agent observed %s, expected %s",
                t + 1, o, w)
    return sims


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def capture():
    log = logging.Logger("progress")      # not part of the logger hierarchy
    log.setLevel(logging.INFO)
    h = Lines()
    log.addHandler(h)
    return log, h.lines


def field(line, name):
    m = re.search(r"(?<![a-zA-Z_])%s:\s*([-+.\w]+)" % name, line)
    return float(m.group(1)) if m else None


def check_progress(c, lines, sims, rounds, N):
    """Progress lines name the true step, number of episodes and returns (a line of another form is not judged)."""
    ended, cur, at = [], [0.0] * N, {}
    for t in range(rounds):
        for i in range(N):
            cur[i] += sims[i][t][1]
            if sims[i][t][3] or sims[i][t][4]:
                ended.append(cur[i])
                cur[i] = 0.0
        at[c["offset"] + (t + 1) * N] = list(ended), list(cur)
    judged = 0
    for ln in lines:
        step = field(ln, "step")
        if step is None:
            continue
        require(step in at, "a progress line names step %s: %s", step, ln)
        eps, open_ = at[int(step)]
        if c["batch"]:
            e, last, avg = field(ln, "episode"), field(ln, "last_R"), field(ln, "average_R")
            if None in (e, last, avg):
                continue
            require_eq(e, float(len(eps)), "episodes in %r" % ln)
            if eps:
                require_close(last, eps[-1], "last return in %r" % ln, rtol=1e-9, atol=1e-9)
                w = eps[-c["window"]:]
                require_close(avg, sum(w) / len(w), "average return in %r" % ln, rtol=1e-9, atol=1e-9)
            else:
                require(last != last and avg != avg, "returns before any episode has ended: %s", ln)
        else:
            e, r = field(ln, "episode"), field(ln, "R")
            if None in (e, r):
                continue
            cut = not (sims[0][int(step) - c["offset"] - 1][3] or sims[0][int(step) - c["offset"] - 1][4])
            require(not cut or step == c["offset"] + rounds, "a progress line in the middle of an episode: %s", ln)
            require_eq(e, float(len(eps) - (not cut)), "episode in %r" % ln)
            require_close(r, open_[0] if cut else eps[-1], "return in %r" % ln, rtol=1e-9, atol=1e-9)
        judged += 1
    return judged


def run_loop(c):
    rounds = expected_steps(c)
    N = len(c["scripts"]) if c["batch"] else 1
    envs = make_envs(c, c["limit"])[:N]
    agent = RecAgent(with_t=c["with_t"])
    seen = []
    hooks = [lambda env, ag, t, k=k: seen.append((k, t, ag.rounds, ag is agent))
             for k in range(c["n_hooks"])]
    with scratch() as d:
        log, lines = capture()
        kw = dict(return_window_size=c["window"]) if c["batch"] else {}
        env, ret = train(c, envs, agent, d, hooks, logger=log, **kw)
        files = set(os.listdir(d))
    require_eq(ret, [], "returned evaluation history without an evaluator")
    require_eq(len(agent.log), 2 * rounds, "number of calls of act and observe")
    sims = check_stream(c, envs, agent, rounds)
    for i, e in enumerate(envs):
        require_eq(sum(1 for x in e.log if x[0] == "step"), rounds,
                   "steps of environment %d (budget %d, %d environments)" % (i, c["steps"], N))
    check_progress(c, lines, sims, rounds, N)
    # hooks: every step once, in order, each after the agent observed that step
    total = rounds * N
    for k in range(c["n_hooks"]):
        mine = [x for x in seen if x[0] == k]
        require_eq([x[1] for x in mine], list(range(c["offset"] + 1, c["offset"] + total + 1)),
                   "step numbers given to hook %d" % k)
        require(all(x[2] == -(-(x[1] - c["offset"]) // N) for x in mine),
                "hook called before the agent observed the step: %s", mine[:10])
        require(all(x[3] for x in mine), "hook called with another agent")
    # saves
    end = c["offset"] + total
    names = [os.path.basename(x[0]) for x in agent.saves]
    require_eq(names[-1:], ["%d_finish" % end], "last save")
    require_eq(sum(n.endswith("_finish") for n in names), 1, "number of final saves")
    want = ["%d_checkpoint" % t for t in range(c["offset"] + 1, end + 1)
            if c["ckpt"] and t % c["ckpt"] == 0]
    got = names[:-1]
    last = "%d_checkpoint" % end
    strip = (lambda x: [n for n in x if n != last])  # noqa: E731
    require_eq(strip(got), strip(want), "checkpoints")
    require(got.count(last) <= 1, "last checkpoint saved twice")
    for (path, n), name in zip(agent.saves, names):
        t = int(name.split("_")[0]) - c["offset"]
        require_eq(n, -(-t // N) * N, "transitions observed by the agent saved as %s" % name)
    require_eq(files, set(names), "saved directories")
    if c["with_t"]:
        require_eq(agent.t, c["offset"], "agent.t at the start")
    n_ends = sum(1 for s in sims for x in s[:-1] if x[3] or x[4])
    return (["nontrivial"] if n_ends >= 2 else []) + (["batch"] if c["batch"] else ["single"]) + (
        ["offset"] if c["offset"] else [])


def run_fault(c):
    N = len(c["scripts"]) if c["batch"] else 1
    rounds = expected_steps(c)
    exc = KeyboardInterrupt("stop") if c["interrupt"] else Boom("boom")
    where, k, i = c["fault"]
    k = max(2, k) if where == "reset" else k  # the first reset comes before training
    fail = {where: k, "exc": exc}
    envs = make_envs(c, c["limit"], (i % N, fail) if where in ("step", "reset") else None)[:N]
    agent = RecAgent(with_t=c["with_t"], fail=fail if where in ("act", "observe") else None)
    count = [0]

    def hook(env, ag, t):
        count[0] += 1
        if where == "hook" and count[0] == k:
            raise exc

    reached = False
    with scratch() as d:
        env = None
        try:
            train(c, envs, agent, d, [hook])
        except (Boom, KeyboardInterrupt) as e:
            require(e is exc, "another error than the injected one came out: %r", e)
            reached = True
        files = sorted(os.listdir(d))
    if not reached:
        total = {"step": rounds, "act": rounds, "observe": rounds, "hook": rounds * N,
                 "reset": 10 ** 9}[where]
        if where == "reset":
            e = envs[i % N]
            total = e.calls["reset"]
        require(k > total, "the error raised by call %d of %s did not come out", k, where)
        return ["not reached"]
    ex = [f for f in files if f.endswith("_except")]
    require_eq(len(ex), 1, "saved directories with the suffix _except: %s" % files)
    require(not any(f.endswith("_finish") for f in files),
            "an interrupted run is saved as finished")
    t = int(ex[0].split("_")[0]) - c["offset"]
    done = agent.rounds * N
    require(done - (N if c["batch"] else 0) <= t <= done + N,
            "saved as step %d when %d steps had been observed", t, done)
    n = [x[1] for x in agent.saves if x[0].endswith("_except")]
    require_eq(n, [agent.observed], "transitions observed by the saved agent")
    check_stream(c, envs, agent, agent.rounds, "before the fault")
    return (["nontrivial"] if agent.rounds else []) + [where] + (
        ["interrupt"] if c["interrupt"] else [])


def cases(fault):
    eps = sized_list(tup(spread(1, 6), spread(0, 2)), 1, 5)
    d = dict(
        scripts=sized_list(eps, 1, 4), limit=pick([None, None, 1, 2, 3, 5]),
        steps=spread(1, 40), offset=pick([0, 0, 0, 3, 10]), ckpt=pick([None, 1, 3, 5, 8]),
        batch=flag, with_t=flag, npbool=flag, n_hooks=spread(0, 2),
        log_interval=pick([None, 1, 3]), window=pick([1, 2, 3, 100]))
    if fault:
        d["fault"] = tup(pick(["step", "reset", "act", "observe", "hook"]), spread(1, 12),
                         spread(0, 3))
        d["interrupt"] = flag
    return lambda: st.fixed_dictionaries(d)


QUICK_SCALE = 3

SUBS = [
    Sub("loop", cases(False), run_loop, quick=800, shards=4),
    Sub("fault", cases(True), run_fault, quick=600, shards=4),
]
