"""P20: asynchronous training counts global steps once and shares one model."""
import json
import logging
import os
import random
import signal
import sys
import time
import warnings
from unittest import mock

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from pbt import agents as A
from pbt.core import Sub, require, require_close, require_eq, scratch, seed_all
from pbt.gens import flag, pick, seeds, sized_list, spread, tup
from pbt.props.p19 import tensorboard
from pbt.sched import controlled
from pbt.script import ENDS, RecAgent, ScriptEnv, simulate

import pfrl
from pfrl import agents, experiments
from pfrl.experiments.evaluation_hooks import EvaluationHook
from pfrl.utils.async_ import AbnormalExitWarning

logging.getLogger("pfrl").setLevel(logging.CRITICAL + 1)

RULE = """'schedule': train_agent_async runs 1-4 workers as threads, one at a time, switching at every access of
a shared value, event or lock and at every call of the scripted environments, recording agents and hooks
as a generated schedule says; some cases make a worker fail. The combined record is compared with the
scripts and the counting rules. 'alarm': the same while an
exception event is set at a generated moment: the first worker has to save and to end the program (recorded, not done). 'shared': the same with real A3C and ACER agents; at every call the parameters
of all workers have to be one. 'process': real processes, recording to files; some workers fail or
are killed. Non-trivial: two or more workers which each took at least two steps, with at
least five switches under the schedule ('schedule', 'shared')."""
ASSUMPTIONS = ["a worker that is in the middle of a step when the last step is counted may finish it, "
               "so that fewer than one extra step per other worker is counted",
               "agents built by make_agent start from equal parameters"]


class Boom(Exception):
    pass


class PtEnv(ScriptEnv):
    lenient = True
    sched = None

    def reset(self):
        self.sched.point()
        return super().reset()

    def step(self, a):
        self.sched.point()
        out = super().step(a)
        self.sched.point()
        return out


class PtAgent(RecAgent):
    """A recording asynchronous agent."""
    shared_attributes = ()
    process_idx = None

    def __init__(self, s, journal, fail=None):
        super().__init__(fail=fail)
        self.s, self.journal = s, journal

    def act(self, obs):
        self.s.point()
        return super().act(obs)

    def observe(self, *a):
        super().observe(*a)
        self.s.point()

    def save(self, dirname):
        self.s.point()
        self.journal.append((self.process_idx, os.path.basename(dirname)))
        super().save(dirname)
        self.s.point()


class Rec(EvaluationHook):
    support_train_agent_async = True

    def __init__(self, seen):
        self.seen = seen

    def __call__(self, env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
        self.seen.append((step, env, agent, eval_stats["mean"], eval_stats["episodes"]))


def check_eval_times(ts, opportunities, base, interval):
    """At most one evaluation per crossed interval, none missed."""
    ts = sorted(ts)
    for k, t in enumerate(ts):
        require(t >= base + (k + 1) * interval, "%d evaluations up to step %d with interval %d from "
                "step %d: %s", k + 1, t, interval, base, ts)
    due = base + (len(ts) + 1) * interval
    late = [t for t in opportunities if t >= due and t not in ts]
    require(not late, "no evaluation although an episode ended at step %s with %d evaluations so far "
            "and interval %d from step %d", late[:1], len(ts), interval, base)


def run_schedule(c):
    N = len(c["scripts"])
    off, steps, limit = c["offset"], c["offset"] + c["steps"], c["limit"]
    envs = {}
    errors, journal, hooked, hseen = [], [], [], []
    ags = {}
    made = []
    with controlled(c["schedule"], errors) as s, scratch() as d:
        for i, eps in enumerate(c["scripts"]):
            for test in (False, True):
                e = PtEnv(i + 100 * test, [[n, ENDS[k]] for n, k in eps], limit, salt=c["salt"] + i)
                e.sched = s
                envs[i, test] = e

        def make_env(i, test):
            made.append((i, bool(test)))
            return envs[i, bool(test)]

        fault = c["fault"]
        failing = None
        if fault is not None:
            failing = fault[1] % N
            if fault[0] == "step":
                envs[failing, False].fail = {"step": fault[2], "exc": Boom("boom")}

        def make_agent(i):
            f = None
            if fault is not None and fault[0] == "observe" and failing == i:
                f = {"observe": fault[2], "exc": Boom("boom")}
            a = PtAgent(s, journal, f)
            ags[i] = a
            return a

        def hook(env, ag, t):
            s.point()
            hooked.append((ag.process_idx, t, ag.rounds, env is envs[ag.process_idx, False]))

        kw = {}
        if c["goal"] is not None:
            kw["successful_score"] = c["goal"]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            experiments.train_agent_async(
                outdir=d, processes=N, make_env=make_env, steps=steps,
                eval_interval=c["interval"], eval_n_steps=c["n"] if c["by_steps"] else None,
                eval_n_episodes=None if c["by_steps"] else c["n"], max_episode_len=limit,
                step_offset=off, make_agent=make_agent, global_step_hooks=[hook],
                evaluation_hooks=[Rec(hseen)], use_shared_memory=c["shm"],
                save_best_so_far_agent=c["save_best"], **kw)
        rows = None
        if c["interval"] is not None:
            with open(os.path.join(d, "scores.txt")) as f:
                rows = [ln.rstrip("\n").split("\t") for ln in f]
    warned = [w for w in ws if issubclass(w.category, AbnormalExitWarning)]
    dead = {i for i, e in errors}
    for i, e in errors:
        if not isinstance(e, Boom):
            raise e
    require_eq(len(warned), len(dead), "warnings about failed workers")
    require(dead <= {failing}, "workers %s failed, the fault was in %s", dead, failing)
    require_eq(sorted(set(made)), sorted((i, t) for i in range(N) for t in (
        (False, True) if c["interval"] is not None else (False,))), "environments made")
    # each worker's own stream
    per = []
    for i in range(N):
        e, ag = envs[i, False], ags[i]
        require_eq(ag.process_idx, i, "process index of worker %d" % i)
        n = ag.rounds
        sim = simulate(e, max(n, 1), limit)
        for t in range(n):
            a, o = ag.log[2 * t], ag.log[2 * t + 1]
            require(a[1] == sim[t][0] and list(o[1:]) == [sim[t][2], sim[t][1], sim[t][3], sim[t][4]],
                    "worker %d, step %d: saw %s %s, expected %s", i, t + 1, a, o, sim[t])
        taken = sum(x[0] == "step" for x in e.log)
        require(n <= taken <= n + (1 if i in dead else 0), "worker %d observed %d of %d steps", i, n,
                taken)
        per.append((n, sim))
        for test in (False, True):
            if i not in dead and (not test or c["interval"] is not None):
                require_eq(envs[i, test].closed, 1, "closings of environment %s" % ((i, test),))
    # counting
    ts = sorted(h[1] for h in hooked)
    total = sum(p[0] for p in per)
    require_eq(ts, list(range(off + 1, off + total + 1)), "global step numbers given to the hooks "
               "(%d steps observed)" % total)
    for i in range(N):
        mine = [h for h in hooked if h[0] == i]
        require(all(h[3] for h in mine), "hook called with another environment")
        require_eq([h[2] for h in mine], list(range(1, len(mine) + 1)),
                   "steps observed by worker %d at each call of the hook" % i)
        require([h[1] for h in mine] == sorted(h[1] for h in mine), "global steps go back")
    stopped = ("successful" in [j[1] for j in journal])
    if len(dead) < N and not stopped:
        require(c["steps"] <= total <= c["steps"] + N - 1, "%d steps were requested, %d taken by %d "
                "workers", c["steps"], total, N)
        require_eq(sum(j[1] == "%d_finish" % steps for j in journal), 1, "final saves")
    require(not any(j[1].endswith("_finish") and j[1] != "%d_finish" % steps for j in journal),
            "saved as finished at another step: %s", journal)
    if total < c["steps"]:
        require(not any(j[1].endswith("_finish") for j in journal), "saved as finished after %d of "
                "%d steps", total, c["steps"])
    ex = [j for j in journal if j[1].endswith("_except")]
    require_eq([j[0] for j in ex], [0] if 0 in dead else [], "workers which saved after an error")
    # evaluations
    if c["interval"] is not None:
        base = off - off % c["interval"]
        opp = []
        for i in range(N):
            n, sim = per[i]
            g = [h[1] for h in hooked if h[0] == i]
            opp += [g[k] for k in range(len(g)) if sim[k][3] or sim[k][4] or g[k] >= steps]
        got = [int(r[0]) for r in rows[1:]]
        require(len(rows) == 0 or rows[0][:3] == ["steps", "episodes", "elapsed"],
                "scores.txt does not begin with its header: %s", rows[:2])
        require(all(r[0] != "steps" for r in rows[1:]), "scores.txt has two headers")
        require(set(got) <= set(opp) or stopped, "evaluations at %s, episodes ended at %s", got, opp)
        check_eval_times(got, opp, base, c["interval"])
        require_eq(sorted(h[0] for h in hseen), sorted(got), "steps given to the evaluation hooks")
        means = {}
        for step, env, ag, mean, n in hseen:
            i = ag.process_idx
            require(env is envs[i, True], "worker %d evaluates another environment", i)
            means[step] = mean
        for r in rows[1:]:
            require_close(float(r[3]), means[int(r[0])], "mean in scores.txt", rtol=1e-9, atol=1e-9)
        # best so far: saved with strictly rising scores, the last one is the best of all
        best = [j[0] for j in journal if j[1] == "best"]
        if c["save_best"] and hseen:
            require(best, "no best agent saved after %d evaluations", len(hseen))
            top = max(means.values())
            who = {h[2].process_idx for h in hseen if h[3] == top}
            require(best[-1] in who, "the last agent saved as best is of worker %d, the best score %s "
                    "was reached by %s", best[-1], top, who)
            require(len(best) <= len(hseen), "more best agents than evaluations")
        else:
            require_eq(best, [], "saved as best")
        if c["goal"] is not None:
            reached = any(m >= c["goal"] for m in means.values())
            require_eq(stopped, reached, "stopped by the successful score %s (means %s)" % (
                c["goal"], list(means.values())))
    else:
        require_eq(hseen, [], "evaluations without an interval")
    nt = sum(p[0] >= 2 for p in per) >= 2 and s.switches >= 5
    return (["nontrivial"] if nt else []) + ["%d workers" % N] + (["fault"] if dead else []) + (
        ["goal"] if stopped else []) + (["stolen"] if s.stolen else [])


# ------------------------------------------------------------------ failures reported from elsewhere
def run_alarm(c):
    """Another part of the program sets exception_event: the first worker saves its agent and ends everything."""
    import multiprocessing
    N, steps = len(c["scripts"]), c["steps"]
    errors, journal, ags, at = [], [], {}, []
    with controlled(c["schedule"], errors) as s, scratch() as d:
        event = multiprocessing.Event()
        who, when = c["alarm"][0] % N, c["alarm"][1]

        class Env(PtEnv):
            def step(self, a):
                out = super().step(a)
                if self.no == who and sum(x[0] == "step" for x in self.log) == when:
                    event.set()
                    at.append(ags[0].rounds if 0 in ags else 0)
                return out

        def make_env(i, test):
            e = Env(i, [[n, ENDS[k]] for n, k in c["scripts"][i]], None, salt=i)
            e.sched, e.no = s, None if test else i
            return e

        def make_agent(i):
            ags[i] = PtAgent(s, journal)
            return ags[i]

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            experiments.train_agent_async(
                outdir=d, processes=N, make_env=make_env, steps=steps, eval_interval=c["interval"],
                eval_n_episodes=1, make_agent=make_agent, exception_event=event)
        killed = list(s.killed)
    for _, e in errors:
        raise e
    saves = [j for j in journal if j[1].endswith("_except")]
    if not at:
        require(not killed and not saves, "ended by force (%s) without a failure", killed)
        return []
    require_eq(len(killed), len(saves), "ends by force and saves before them (%s, %s)" % (killed, saves))
    require(len(killed) <= 1, "ended by force %d times", len(killed))
    if killed:
        require_eq([j[0] for j in saves], [0], "workers which saved")
        require_eq(killed[0][-1], signal.SIGTERM, "signal sent")
    rounds = ags[0].rounds - at[0]
    total = sum(a.rounds for a in ags.values())
    require(rounds <= 1 or killed, "the first worker took %d more steps after the failure was reported", rounds)
    require(rounds <= 2, "the first worker took %d more steps after the failure was reported", rounds)
    require(killed or total >= steps, "the training ended early but not by force")
    return ["nontrivial"] if killed and N > 1 else []


# ------------------------------------------------------------------ shared parameters
class NetEnv:
    """Observation: one-hot of the worker and a bias; counts its calls."""

    def __init__(self, i, n, eps, s):
        self.i, self.n, self.eps, self.s = i, n, eps, s
        self.ep, self.k = -1, 0

    def obs(self):
        o = np.zeros(self.n, dtype=np.float32)
        o[self.i] = 1.0
        return o

    def reset(self):
        self.s.point()
        self.ep, self.k = self.ep + 1, 0
        return self.obs()

    def step(self, a):
        self.s.point()
        self.k += 1
        done = self.k >= self.eps[self.ep % len(self.eps)]
        return self.obs(), 1.0 + 0.5 * self.i - 0.25 * (self.k % 3), done, {}

    def close(self):
        pass


def column_net(n, seed):
    m = pfrl.nn.Branched(
        nn.Sequential(nn.Linear(n, 3, bias=False), pfrl.policies.SoftmaxCategoricalHead()),
        nn.Linear(n, 1, bias=False))
    return A.randomize(m, seed, 0.5)


def acer_net(n, seed):
    pi = nn.Sequential(nn.Linear(n, 3, bias=False), pfrl.policies.SoftmaxCategoricalHead())
    q = nn.Sequential(nn.Linear(n, 3, bias=False), pfrl.q_functions.DiscreteActionValueHead())
    return A.randomize(agents.acer.ACERDiscreteActionHead(pi, q), seed, 0.5)


def make_real(kind, n, seed, tmax):
    m = (column_net if kind == "A3C" else acer_net)(n, seed)
    o = pfrl.optimizers.SharedRMSpropEpsInsideSqrt(m.parameters(), lr=2e-2, eps=1e-1, alpha=0.9)
    if kind == "A3C":
        return agents.A3C(m, o, t_max=tmax, gamma=0.9, beta=1e-2)
    return agents.ACER(m, o, t_max=tmax, gamma=0.9,
                       replay_buffer=pfrl.replay_buffers.EpisodicReplayBuffer(100),
                       n_times_replay=1, replay_start_size=4)


def vec(m):
    return torch.cat([p.detach().reshape(-1).clone() for p in m.parameters()])


def run_shared(c):
    N = len(c["eps"])
    errors = []
    seed_all(c["seed"])
    locals_ = {}
    counts = {i: [0, 0] for i in range(N)}
    with controlled(c["schedule"], errors) as s, scratch() as d:
        first = make_real(c["kind"], N, c["seed"], c["tmax"])
        init = vec(first.shared_model)

        def make_agent(i):
            ag = make_real(c["kind"], N, c["seed"], c["tmax"])
            locals_[i] = ag
            obs = ag.observe

            def observe(o, r, done, reset):
                before = vec(ag.shared_model)
                k0 = ag.t_start
                obs(o, r, done, reset)
                after = vec(ag.shared_model)
                counts[i][0] += 1
                if ag.t_start != k0:
                    counts[i][1] += 1
                    require(torch.equal(vec(ag.model), after), "worker %d does not have the shared "
                            "parameters after its update", i)
                    require(not torch.equal(before, after), "an update of worker %d did not change "
                            "the shared parameters", i)
                    base = vec(first.shared_model)
                    require(torch.equal(base, after), "worker %d updates other parameters than the "
                            "agent which is returned", i)
                    # nothing but this worker's own columns moves
                    moved = torch.cat([(p != q).any(0) for p, q in zip(
                        [w.detach() for w in ag.shared_model.parameters()],
                        split(before, ag.shared_model))]).reshape(-1, N).any(0)
                    require(moved.nonzero().flatten().tolist() == [i], "an update of worker %d moved "
                            "the parameters of %s", i, moved.nonzero().flatten().tolist())
                else:
                    require(torch.equal(before, after), "shared parameters change without an update")

            ag.observe = observe
            return ag

        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            out = experiments.train_agent_async(
                outdir=d, processes=N, make_env=lambda i, test: NetEnv(i, N, c["eps"][i], s),
                steps=c["steps"], eval_interval=None, agent=first, make_agent=make_agent)
        for i, e in errors:
            raise e
        require(out is first, "another agent is returned")
        final = vec(out.shared_model)
        fin = os.path.join(d, "%d_finish" % c["steps"])
        require(os.path.isdir(fin), "final agent not saved")
        again = make_real(c["kind"], N, c["seed"] + 1, c["tmax"])
        again.load(fin)
    W = [p.detach() for p in out.shared_model.parameters()]
    W0 = split(init, out.shared_model)
    for i in range(N):
        changed = any(not torch.equal(w[:, i], w0[:, i]) for w, w0 in zip(W, W0))
        require_eq(changed, counts[i][1] > 0, "parameters of worker %d changed (%d updates)" % (
            i, counts[i][1]))
        require_eq(locals_[i].process_idx, i, "process index")
    total = sum(k[0] for k in counts.values())
    require(c["steps"] <= total <= c["steps"] + N - 1, "%d steps requested, %d taken", c["steps"], total)
    nt = sum(k[0] >= 2 for k in counts.values()) >= 2 and s.switches >= 5
    return (["nontrivial"] if nt else []) + [c["kind"]]


def split(v, m):
    out, k = [], 0
    for p in m.parameters():
        out.append(v[k:k + p.numel()].reshape(p.shape))
        k += p.numel()
    return out


# ------------------------------------------------------------------ real processes
class FileEnv(NetEnv):
    slow = 0

    def __init__(self, i, n, eps, path, fault=None):
        class S:
            def point(self):
                pass
        super().__init__(i, n, eps, S())
        self.path = path
        self.fault = fault
        self.n_steps = 0
        self.note("seed", [random.random(), float(np.random.rand()), float(torch.rand(1))])

    def note(self, *x):
        with open(self.path, "a") as f:
            f.write(json.dumps(x) + "\n")

    def step(self, a):
        self.n_steps += 1
        if self.fault and self.n_steps == self.fault[1]:
            self.note("fault")
            if self.fault[0] == "raise":
                raise Boom("boom")
            if self.fault[0] == "exit":
                os._exit(7)
            os.kill(os.getpid(), signal.SIGKILL)
        self.note("step")
        time.sleep(self.slow)
        return super().step(a)

    def close(self):
        self.note("close")


def run_process(c):
    N = len(c["eps"])
    seed_all(c["seed"])
    steps = c["offset"] + c["steps"]
    with scratch() as d:
        path = lambda k, i: os.path.join(d, "%s-%d.log" % (k, i))  # noqa: E731
        ag = make_real("A3C", N, c["seed"], c["tmax"])
        init = vec(ag.shared_model)
        fault = c["fault"]
        failing = fault[1] % N if fault else None

        def make_env(i, test):
            f = [fault[0], fault[2]] if fault and i == failing and not test else None
            e = FileEnv(i, N, c["eps"][i], path("test" if test else "train", i), f)
            e.slow = 0.01 if test and c["slow"] and i % 2 else 0
            return e

        def hook(env, a, t):
            with open(path("hook", a.process_idx), "a") as f:
                f.write("%d\n" % t)

        out_dir = os.path.join(d, "out")
        os.mkdir(out_dir)
        kw = {}
        rs = None
        if c["seeds"] is not None:
            rs = [(c["seeds"] + 17 * i) % 2 ** 31 for i in range(N)]
            kw["random_seeds"] = np.array(rs) if c["np"] else rs
        tb, scalars = c["tb"] and not fault, []
        goal = c["goal"] if c["interval"] else None
        with warnings.catch_warnings(record=True) as ws, quiet(), mock.patch.dict(
                sys.modules, {"torch.utils.tensorboard": tensorboard(scalars, out_dir)}):
            warnings.simplefilter("always")
            out = experiments.train_agent_async(
                outdir=out_dir, processes=N, make_env=make_env, steps=steps,
                step_offset=c["offset"], agent=ag, global_step_hooks=[hook],
                eval_interval=c["interval"], eval_n_episodes=2, use_tensorboard=tb, successful_score=goal, **kw)
        logs, hooks = [], []
        for i in range(N):
            with open(path("train", i)) as f:
                logs.append([json.loads(x) for x in f])
            if os.path.exists(path("hook", i)):
                with open(path("hook", i)) as f:
                    hooks.append([int(x) for x in f])
            else:
                hooks.append([])
        files = os.listdir(out_dir)
        rows = []
        if c["interval"]:
            with open(os.path.join(out_dir, "scores.txt")) as f:
                table = [ln.split("\t") for ln in f.read().splitlines()]
                rows = [int(r[0]) for r in table[1:]]
    dead = {i for i in range(N) if ["fault"] in logs[i]}
    warned = [str(w.message) for w in ws if issubclass(w.category, AbnormalExitWarning)]
    require_eq(len(warned), len(dead), "warnings about failed workers: %s" % warned)
    for i in dead:
        require(any("#%d " % i in w for w in warned), "the failure of worker %d is not reported: %s",
                i, warned)
    n = [sum(x[0] == "step" for x in lg) for lg in logs]
    all_t = sorted(t for h in hooks for t in h)
    total = sum(n)
    require_eq(all_t, list(range(c["offset"] + 1, c["offset"] + total + 1)),
               "global steps (%s steps taken)" % n)
    hit = goal is not None and any(float(r[3]) >= goal for r in table[1:])
    if goal is not None and not dead:
        require_eq("successful" in files, hit, "a successful agent is saved (goal %s, rows %s)" % (goal, table[1:]))
    if tb:
        want = sorted((int(r[0]), "eval/" + k, float(x)) for r in (table[1:] if c["interval"] else [])
                      for k, x in zip(table[0], r) if k in ("mean", "median", "stdev", "max", "min"))
        got = sorted(x for x in scalars if x[1].startswith("eval/"))
        require_eq(len(got), len(want), "scalars given to tensorboard")
        for g, w in zip(got, want):
            require_eq(g[:2], w[:2], "scalars given to tensorboard")
            require_close(g[2], w[2], "scalar %s at step %d" % (g[1], g[0]), rtol=1e-9, atol=1e-9)
    if len(dead) < N and not hit:
        require(c["steps"] <= total <= c["steps"] + N - 1, "%d steps requested, %d taken", c["steps"],
                total)
        require("%d_finish" % steps in files, "final agent not saved: %s", files)
    for i in range(N):
        if i not in dead:
            require_eq(sum(x[0] == "close" for x in logs[i]), 1, "closings by worker %d" % i)
        s = rs[i] if rs is not None else i
        random.seed(s)
        np.random.seed(s)
        torch.manual_seed(s)
        want = [random.random(), float(np.random.rand()), float(torch.rand(1))]
        require_eq(logs[i][0], ["seed", want], "first random numbers of worker %d (seed %d)" % (i, s))
        if n[i] >= 5 * max(c["tmax"], 1) and i not in dead:
            W, W0 = [p.detach() for p in out.shared_model.parameters()], split(init, out.shared_model)
            require(any(not torch.equal(w[:, i], v[:, i]) for w, v in zip(W, W0)),
                    "worker %d trained for %d steps without any effect on the returned agent", i, n[i])
    if c["interval"] and not dead and not hit:
        base = c["offset"] - c["offset"] % c["interval"]
        check_eval_times(rows, [], base, c["interval"])
        require(len(rows) >= 1 or steps < base + c["interval"], "no evaluation in %d steps with "
                "interval %d", c["steps"], c["interval"])
    return (["nontrivial"] if sum(x >= 2 for x in n) >= 2 else []) + (["fault"] if dead else [])


class quiet:
    """The tracebacks of failing workers go nowhere."""

    def __enter__(self):
        self.old = os.dup(2)
        self.null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.null, 2)

    def __exit__(self, *a):
        os.dup2(self.old, 2)
        os.close(self.old)
        os.close(self.null)


EPS = sized_list(tup(spread(1, 6), spread(0, 2)), 1, 4)
SCHED = sized_list(spread(0, 11), 1, 40)
LEN = sized_list(spread(1, 6), 1, 3)
QUICK_SCALE = 1.5

SUBS = [
    Sub("schedule", lambda: st.fixed_dictionaries(dict(
        scripts=sized_list(EPS, 1, 4), schedule=SCHED, steps=spread(1, 30),
        offset=pick([0, 0, 0, 4, 9]), limit=pick([None, None, 2, 4]),
        interval=pick([None, 1, 3, 5, 10, 20]), n=spread(1, 4), by_steps=flag,
        goal=pick([None, None, None, 0.0, 30.0]), shm=flag, salt=spread(0, 30),
        save_best=pick([True, True, False]),
        fault=st.one_of(st.none(), st.none(), tup(pick(["step", "observe"]), spread(0, 3),
                                                  spread(1, 12))))),
        run_schedule, quick=1200, shards=6, thorough=20000),
    Sub("alarm", lambda: st.fixed_dictionaries(dict(
        scripts=sized_list(EPS, 1, 3), schedule=SCHED, steps=spread(4, 30), interval=pick([None, 5]),
        alarm=tup(spread(0, 2), spread(1, 8)))), run_alarm, quick=120, thorough=2000),
    Sub("shared", lambda: st.fixed_dictionaries(dict(
        kind=pick(["A3C", "A3C", "ACER"]), eps=sized_list(LEN, 1, 3), schedule=SCHED, seed=seeds,
        steps=spread(4, 40), tmax=spread(1, 4))), run_shared, quick=120, shards=4, thorough=2000),
    Sub("process", lambda: st.fixed_dictionaries(dict(
        eps=sized_list(LEN, 1, 3), seed=seeds, steps=spread(2, 60), offset=pick([0, 0, 7]),
        tmax=spread(1, 4), interval=pick([None, 3, 5, 15]), tb=flag, slow=flag,
        goal=pick([None, 2.0, 1.0]), seeds=st.one_of(st.none(), seeds),
        np=flag, fault=st.one_of(st.none(), tup(pick(["raise", "exit", "kill"]), spread(0, 2),
                                                spread(1, 10))))),
        run_process, quick=40, shards=4, thorough=600, confirm=3),
]
