"""Decide one property: ./check P01 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2/3: the check itself failed (no answer).
"""
import argparse
import importlib
import json
import os
import pickle
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

from pbt import deps  # noqa: E402

deps.ensure()

from pbt.core import (  # noqa: E402
    REPO,
    HarnessError,
    Violation,
    case_hash,
)

sys.path.insert(0, REPO)

HARNESS_TYPES = (
    AttributeError,
    NameError,
    ImportError,
    MemoryError,
    OSError,
    SyntaxError,
    HarnessError,
)


def fresh_cases():
    """Hypothesis follows every fresh case with five variations of it. Most faults here need a combination of
    settings, which five more fresh cases find sooner: keep the variations, but few of them."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as R
        vary = R.generate_mutations_from
    except (ImportError, AttributeError):       # another version: only slower to find
        return

    def rarely(self, data):
        if self.random.random() < 0.04:
            vary(self, data)
    R.generate_mutations_from = rarely


class Stop(BaseException):
    pass


def classify(exc):
    """'violation' or 'harness' for an exception that came out of run(case)."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError):
        return "harness"
    last = None
    for f, _ in traceback.walk_tb(exc.__traceback__):
        fn = os.path.abspath(f.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            last = "repo"
        elif fn.startswith(ROOT + os.sep) and not fn.startswith(deps.DEPS):
            last = "verif"
    if last == "repo":
        # the code under test raised on an input it has to handle
        return "violation"
    if isinstance(exc, AttributeError) and not str(exc.name or "_").startswith("_"):
        cls = exc.obj if isinstance(exc.obj, type) else type(exc.obj)
        if (cls.__module__ or "").split(".")[0] == "pfrl":
            return "violation"      # a public attribute is missing
    if isinstance(exc, HARNESS_TYPES):
        return "harness"
    # the result had not the documented form, so that the oracle choked on it
    return "violation"


def describe(exc):
    s = "%s: %s" % (type(exc).__name__, exc)
    loc = ""
    for f, ln in traceback.walk_tb(exc.__traceback__):
        fn = os.path.abspath(f.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            loc = " (at %s:%d)" % (os.path.relpath(fn, REPO), ln)
    return (s + loc)[:2000]


def quiet_case(sub, case):
    """Run one case; returns (kind, exc) with kind None when it held."""
    try:
        sub.run(case)
        return None, None
    except Exception as e:  # noqa: BLE001
        return classify(e), e


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


def run_shard(prop, sub, shard, n_examples, seed, budget_s, shrink_s):
    """Runs in a forked child.  Returns a result dict."""
    import hypothesis
    fresh_cases()
    from hypothesis import HealthCheck, Phase, given, settings

    t0 = time.time()
    st = dict(
        evals=0,
        hashes=set(),
        labels={},
        samples=[],
        stopped=None,
        fails=[],
        first_fail_t=None,
        harness=None,
    )
    res = dict(sub=sub.name, shard=shard, violation=None, harness=None)

    def test(case):
        now = time.time()
        if now - t0 > budget_s:
            st["stopped"] = "budget"
            raise Stop()
        if st["first_fail_t"] and now - st["first_fail_t"] > shrink_s:
            st["stopped"] = "shrink budget"
            raise Stop()
        st["evals"] += 1
        try:
            labels = sub.run(case) or ()
        except Exception as e:  # noqa: BLE001
            kind = classify(e)
            if kind == "harness":
                st["harness"] = "".join(traceback.format_exception(e))[-6000:]
                res["harness_case"] = jsonable(case)
                raise Stop()
            if st["first_fail_t"] is None:
                st["first_fail_t"] = time.time()
            st["fails"].append(
                (len(json.dumps(case, default=repr)), st["evals"], case, describe(e),
                 "".join(traceback.format_exception(e))[-4000:])
            )
            if len(st["fails"]) > 50:
                st["fails"].sort(key=lambda f: (f[0], f[1]))
                del st["fails"][25:]
            raise
        for lb in labels:
            lb, cnt = lb if isinstance(lb, tuple) else (lb, 1)
            st["labels"][lb] = st["labels"].get(lb, 0) + cnt
        if "nontrivial" in labels:
            h = case_hash(case)
            if h not in st["hashes"]:
                st["hashes"].add(h)
                if len(st["samples"]) < 2 and st["evals"] > 5:
                    st["samples"].append(jsonable(case))

    strat = sub.strategy() if callable(sub.strategy) else sub.strategy
    runs = [(strat, n_examples, "")]
    if sub.axis:
        # every option of the axis gets its even share of the cases
        key, options = sub.axis
        mine = [(i, o) for i, o in enumerate(options) if i % sub.shards == shard]
        runs = [(strat.map(lambda c, o=o: dict(c, **{key: o})),
                 max(2, n_examples // max(1, len(mine))), "/%d" % i) for i, o in mine]
    for strat, n, tag in runs:
        s = zlib.crc32(("%s/%s/%d/%d%s" % (prop, sub.name, shard, seed, tag)).encode())
        wrapped = hypothesis.seed(s)(
            settings(
                max_examples=n,
                deadline=None,
                database=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
            )(given(strat)(test))
        )
        try:
            wrapped()
        except Stop:
            break
        except Exception as e:  # noqa: BLE001
            if not st["fails"]:
                res["harness"] = "".join(traceback.format_exception(e))[-6000:]
            break
    if st["harness"]:
        res["harness"] = st["harness"]
    if st["fails"]:
        # smallest failing case that reproduces outside the library
        st["fails"].sort(key=lambda f: (f[0], f[1]))
        rep = None
        for _, _, case, what, tb in st["fails"][:5]:
            for _i in range(max(1, sub.confirm)):
                kind, exc = quiet_case(sub, case)
                if kind == "violation":
                    rep = (case, describe(exc), tb)
                    break
            if rep:
                break
        if rep is None:
            # state carried over between cases made it fail: still a failure of
            # the code on a legal history, but report honestly
            res["harness"] = "failure did not reproduce: %s\n%s" % (
                st["fails"][0][3], st["fails"][0][4])
        else:
            res["violation"] = dict(case=jsonable(rep[0]), what=rep[1], tb=rep[2])
    res.update(
        evals=st["evals"],
        hashes=st["hashes"],
        labels=st["labels"],
        samples=st["samples"],
        stopped=st["stopped"],
        wall=time.time() - t0,
    )
    return res


def run_regress(prop, sub_by_name):
    """Replay the committed regression cases of this property."""
    d = os.path.join(ROOT, "regress", prop)
    out = dict(sub="regress", shard=0, violation=None, harness=None, evals=0,
               hashes=set(), labels={}, samples=[], stopped=None, wall=0.0)
    t0 = time.time()
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if not fn.endswith(".json"):
                continue
            with open(os.path.join(d, fn)) as f:
                rec = json.load(f)
            sub = sub_by_name.get(rec["sub"])
            if sub is None:
                continue
            out["evals"] += 1
            kind, exc = quiet_case(sub, rec["case"])
            if kind == "harness":
                out["harness"] = "".join(traceback.format_exception(exc))
                break
            if kind == "violation":
                out["sub"] = rec["sub"]
                out["violation"] = dict(
                    case=rec["case"],
                    what=describe(exc),
                    tb="".join(traceback.format_exception(exc))[-4000:],
                )
                break
    out["wall"] = time.time() - t0
    return out


def fork_job(fn, tmpdir, idx):
    path = os.path.join(tmpdir, "r%d" % idx)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.setpgid(0, 0)
            # silence the library's own chatter
            log = os.open(os.path.join(tmpdir, "log%d" % idx),
                          os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(log, 1)
            os.dup2(log, 2)
            r = fn()
            with open(path + ".tmp", "wb") as f:
                pickle.dump(r, f)
            os.rename(path + ".tmp", path)
            rc = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    return pid, path


def killpg(pid):
    import signal

    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def run_jobs(jobs, tmpdir, nproc, hard_s):
    """jobs: list of (key, fn). Returns {key: result or None}, {key: log}."""
    results, logs, running = {}, {}, {}
    pending = list(enumerate(jobs))
    t0 = time.time()
    stop = False
    while (pending and not stop) or running:
        while pending and len(running) < nproc and not stop:
            idx, (key, fn) = pending.pop(0)
            pid, path = fork_job(fn, tmpdir, idx)
            running[pid] = (key, path, idx)
        try:
            pid, _status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in running:
            key, path, idx = running.pop(pid)
            killpg(pid)  # leftovers of that job
            if os.path.exists(path):
                with open(path, "rb") as f:
                    results[key] = pickle.load(f)
                if results[key].get("violation"):
                    stop = True
            else:
                results[key] = None
            try:
                with open(os.path.join(tmpdir, "log%d" % idx), errors="replace") as f:
                    logs[key] = f.read()[-4000:]
            except OSError:
                logs[key] = ""
            continue
        if stop and running:
            # somebody found a violation: give the rest no more time
            for pid in list(running):
                killpg(pid)
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                running.pop(pid)
            break
        if time.time() - t0 > hard_s:
            for pid in list(running):
                key, path, idx = running.pop(pid)
                killpg(pid)
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                results[key] = None
                logs[key] = "hard time limit"
            break
        time.sleep(0.02)
    return results, logs


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def main():
    import shutil
    import tempfile

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--nproc", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    t0 = time.time()

    tmpdir = tempfile.mkdtemp(prefix="pbt-run-")
    os.environ["TMPDIR"] = tmpdir
    tempfile.tempdir = tmpdir
    code = 3
    try:
        code = decide(args, tmpdir, t0)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(args, tmpdir, t0):
    import warnings

    warnings.simplefilter("ignore")
    import torch

    torch.set_num_threads(1)
    import pfrl

    if os.path.dirname(os.path.dirname(os.path.abspath(pfrl.__file__))) != REPO:
        print("pfrl imported from", pfrl.__file__, "instead of", REPO)
        return 3
    mod = importlib.import_module("pbt.props." + args.prop.lower())
    subs = mod.SUBS
    if args.only:
        subs = [s for s in subs if s.name in args.only.split(",")]
    by_name = {s.name: s for s in mod.SUBS}

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        kind, exc = quiet_case(by_name[rec["sub"]], rec["case"])
        if kind is None:
            print("replay holds:", args.replay)
            return 0
        traceback.print_exception(exc)
        if kind == "harness":
            return 2
        print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
        return 1

    thorough = args.tier == "thorough"
    default_budget = 7200.0 if thorough else 240.0
    shrink_s = 120.0 if thorough else 40.0
    jobs = [(("regress", 0), lambda: run_regress(args.prop, by_name))]
    by_shard = {}
    for sub in subs:
        n = sub.thorough if thorough else sub.quick
        boost = 1.0 if thorough else getattr(mod, "QUICK_SCALE", 1.0)
        n = max(1, int(n * args.scale * boost))
        shards = max(1, min(sub.shards * (4 if thorough else 1), n))
        for k in range(shards):
            per = n // shards + (1 if k < n % shards else 0)
            budget = sub.budget_s if (sub.budget_s and not thorough) else default_budget

            def job(sub=sub, k=k, per=per, budget=budget):
                return run_shard(args.prop, sub, k, per, args.seed, budget, shrink_s)

            by_shard.setdefault(k, []).append(((sub.name, k), job))
    for k in sorted(by_shard):
        jobs += by_shard[k]
    results, logs = run_jobs(jobs, tmpdir, args.nproc, 14400 if thorough else 780)

    per_sub, hashes, samples, violations, harness = {}, set(), [], [], []
    evals = 0
    for key, r in results.items():
        if r is None:
            harness.append("%s: job died\n%s" % (key, logs.get(key, "")))
            continue
        evals += r["evals"]
        d = per_sub.setdefault(
            key[0], dict(evaluations=0, labels={}, wall_s=0.0, distinct_nontrivial=0))
        d["evaluations"] += r["evals"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        hs = {key[0] + ":" + h for h in r["hashes"]}
        d["distinct_nontrivial"] += len(hs - hashes)
        hashes |= hs
        if r.get("stopped"):
            d["stopped"] = r["stopped"]
        for s in r["samples"][: (1 if key[1] else 2)]:
            samples.append(dict(sub=key[0], case=s))
        if r["harness"]:
            harness.append("%s: %s" % (key, r["harness"]))
        if r["violation"]:
            violations.append(dict(sub=r["sub"], **r["violation"]))
    trimmed, size = [], 0
    seen_sub = {}
    for s in samples:
        txt = json.dumps(s)
        if len(txt) > 3000:
            s = dict(sub=s["sub"], case_text=txt[:3000] + "...")
        if seen_sub.get(s["sub"], 0) >= 2:
            continue
        seen_sub[s["sub"]] = seen_sub.get(s["sub"], 0) + 1
        trimmed.append(s)

    for k in load_known(args.prop):
        sub = by_name.get(k["sub"])
        if sub is None:
            continue
        kind, exc = quiet_case(sub, k["case"])
        if kind == "violation":
            print("KNOWN-FINDING: property=%s %s" % (args.prop, k["what"]))

    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evidence = dict(
        property=args.prop,
        tier=args.tier,
        seed=args.seed,
        level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(hashes),
            rule=" ".join(mod.RULE.split()),
            samples=trimmed,
            per_sub=per_sub,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    with open(os.path.join(ROOT, "evidence", args.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")

    if args.v:
        for k, d in sorted(per_sub.items()):
            print("%-28s n=%-6d nontrivial=%-6d wall=%.1fs %s %s" % (
                k, d["evaluations"], d["distinct_nontrivial"], d["wall_s"],
                d.get("stopped", ""), json.dumps(d["labels"], sort_keys=True)))
    if violations:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        v = violations[0]
        path = os.path.join(
            ROOT, "replays",
            "%s-%s-%s.json" % (args.prop, v["sub"], case_hash(v["case"])[:8]))
        with open(path, "w") as f:
            json.dump(dict(property=args.prop, sub=v["sub"], what=v["what"],
                           case=v["case"], traceback=v["tb"],
                           replay_with="./check %s --replay %s" % (args.prop, path)),
                      f, indent=1)
            f.write("\n")
        print("[%s] %s" % (v["sub"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        return 1
    if harness:
        print("HARNESS ERROR (no answer):")
        for h in harness[:3]:
            print(h)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s (%s, seed %d)" % (
        args.prop, evals, len(hashes), time.time() - t0, args.tier, args.seed))
    return 0


if __name__ == "__main__":
    main()
