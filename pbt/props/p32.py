"""P32: a pretrained model is downloaded once, completely, whatever fails in between."""
import contextlib
import email.message
import importlib.util
import io
import json
import os
import signal
import sys
import time
import traceback
import urllib.error
import urllib.request
import zipfile

from hypothesis import strategies as st

from pbt.core import REPO, HarnessError, Sub, require, require_eq, rng, scratch
from pbt.gens import flag, pick, seeds, sized_list, spread, tup

RULE = """A case is a history of download_model calls for 1-4 models of a stand-in server, whose archives are generated (up to six files in
nested directories, some larger than a buffer). Each call runs in a process of its own, over one scratch models directory: undisturbed, with a
failing download (refused, broken off at a byte, shorter than announced), or killed just before its k-th
operation on the file system; two or three processes may also call at the same time, and unknown algorithms and types are asked for. After each call the
directories of the models that were returned are compared file by file with the archives, and downloads are counted by the server.
Non-trivial: an undisturbed call follows a disturbed one for the same model."""
ASSUMPTIONS = ["a crash is the end of the process: what was written to the file system before it stays"]

MODELS = [("DQN", "Breakout", "best"), ("DQN", "Breakout", "final"), ("PPO", "Hopper-v2", "final"), ("A3C", "Pong", "best"),
          ("TD3", "Hopper-v2", "best"), ("SAC", "Hopper-v2", "final"), ("IQN", "MsPacman", "best"), ("Rainbow", "Pong", "final"),
          ("DQN", "DemonAttack", "best"), ("A3C", "Asteroids", "final")]
FSOPS = {"write", "writelines", "rename", "replace", "mkdir", "unlink", "remove", "rmdir", "open", "close", "link", "symlink",
         "sendfile", "copy_file_range", "truncate", "ftruncate", "utime", "chmod", "fsync", "_sendfile"}
DIRECT = "https://pfrl-assets.preferred.jp/"


def archive(c, i):
    """Files of model i, and its zip."""
    alg, env, typ = MODELS[i]
    r = rng(c["seed"] + i)
    files = {"%s/model.pt" % typ: bytes(r.randint(0, 256, 3 + r.randint(40)).astype("uint8"))}
    for k in range(r.randint(0, 6)):
        size = [0, 5, 300, 70000, 200000][r.randint(5)]
        name = "/".join([typ] + ["d%d" % r.randint(2) for _ in range(r.randint(0, 3))] + ["f%d" % k])
        files[name] = bytes(r.randint(0, 256, size).astype("uint8"))
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if r.randint(2) else zipfile.ZIP_STORED) as z:
        for k in files:
            z.writestr(k, files[k])
    return files, b.getvalue()


class Response(io.RawIOBase):
    def __init__(self, body, announced, breaks):
        self.body, self.pos, self.breaks = body, 0, breaks
        self.headers = email.message.Message()
        self.headers["Content-Length"] = str(announced)
        self.status = self.code = 200
        self.length = announced

    def info(self):
        return self.headers

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def geturl(self):
        return ""

    def readable(self):
        return True

    def read(self, n=-1):
        n = len(self.body) if n is None or n < 0 else n
        out = self.body[self.pos:self.pos + n]
        if self.breaks is not None and self.pos + len(out) > self.breaks:
            raise ConnectionResetError("the connection is gone")
        self.pos += len(out)
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)


def child(root, server, log, args, fault, w):
    """Runs in the forked process; writes the result to w."""
    os.environ["PFRL_MODELS_ROOT"] = root
    kind, x = fault

    def urlopen(url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (url + "\n").encode())
        os.close(fd)
        if kind == "slow":
            time.sleep(0.03)
        if kind == "refused":
            raise urllib.error.URLError("refused")
        if url not in server:
            raise urllib.error.HTTPError(url, 404, "not found", None, None)
        body = server[url]
        if kind == "short":
            return Response(body[:int(x * len(body))], len(body) + 7, None)
        return Response(body, len(body), int(x * len(body)) if kind == "broken" else None)
    urllib.request.urlopen = urlopen
    spec = importlib.util.spec_from_file_location("pfrl.utils.pbt_pretrained", os.path.join(REPO, "pfrl/utils/pretrained_models.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    n = [0]

    def prof(frame, event, arg):
        if event == "c_call" and arg.__name__ in FSOPS:
            n[0] += 1
            if kind == "kill" and n[0] > x:
                os.kill(os.getpid(), signal.SIGKILL)
    null = io.StringIO()
    with contextlib.redirect_stdout(null):
        sys.setprofile(prof)
        try:
            path, cached = m.download_model(*args)
            out = dict(path=str(path), cached=cached if isinstance(cached, bool) else repr(cached))
        except Exception as e:
            out = dict(error=type(e).__name__, text="".join(traceback.format_exception(e))[-1500:])
        finally:
            sys.setprofile(None)
    out["ops"] = n[0]
    os.write(w, json.dumps(out).encode())


def start(*args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            child(*args, w)
        except BaseException as e:
            try:
                os.write(w, json.dumps(dict(harness="".join(traceback.format_exception(e))[-1500:])).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def finish(p):
    pid, r = p
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return dict(killed=True)
    out = json.loads(data)
    if "harness" in out:
        raise HarnessError(out["harness"])
    return out


def read_tree(d):
    out = {}
    for base, _, names in os.walk(d):
        for k in names:
            with open(os.path.join(base, k), "rb") as f:
                out[os.path.relpath(os.path.join(base, k), os.path.dirname(d))] = f.read()
    return out


def run(c):
    files, server = {}, {}
    for i in range(len(MODELS)):
        files[i], z = archive(c, i)
        alg, env, typ = MODELS[i]
        server["%s%s/%s/%s.zip" % (DIRECT, alg, env, typ)] = z
    done, disturbed, labels = {}, set(), set()
    with scratch() as top:
        root, log = os.path.join(top, "models", "x"), os.path.join(top, "log")
        total = {}

        def asked(i):
            alg, env, typ = MODELS[i]
            with contextlib.suppress(FileNotFoundError):
                with open(log) as f:
                    return f.read().split("\n").count("%s%s/%s/%s.zip" % (DIRECT, alg, env, typ))
            return 0

        def check(i, what):
            alg, env, typ = MODELS[i]
            got = read_tree(done[i])
            require_eq(sorted(got), sorted(files[i]), "files of %s %s" % ("/".join(MODELS[i]), what))
            for k in got:
                require(got[k] == files[i][k], "contents of %s in %s %s (%d bytes instead of %d)", k, MODELS[i], what, len(got[k]),
                        len(files[i][k]))

        def returned(out, i, what):
            alg, env, typ = MODELS[i]
            require("path" in out, "%s raises %s: %s", what, out.get("error"), out.get("text"))
            want = os.path.join(root, alg, env, typ)
            require_eq(os.path.normpath(out["path"]), want, "path of " + what)
            first = i not in done
            done[i] = out["path"]
            check(i, "after " + what)
            if not first:
                require_eq(out["cached"], True, "is_cached of " + what + " when it is there")
            elif i not in disturbed:
                require_eq(out["cached"], False, "is_cached of the first " + what)
            return first

        for j, (kind, mi, x, long) in enumerate(c["ops"]):
            i = c["models"][mi % len(c["models"])]
            alg, env, typ = MODELS[i]
            args = (alg, env + ("NoFrameskip-v4" if long else ""), typ)
            if typ == "best" and x < 300:
                args = args[:2]
            what = "call %d (%s)" % (j, ", ".join(args))
            n0 = asked(i)
            f = x / 1000
            if kind == "unknown":
                bad = [("XYZ", env, typ), (alg, env, "worst"), ("PPO", env, "best")][x % 3]
                n_all = os.path.exists(log) and os.path.getsize(log)
                out = finish(start(root, server, log, bad, ("none", 0)))
                require_eq(out.get("error"), "AssertionError", "download of %s" % (bad,))
                require_eq(os.path.exists(log) and os.path.getsize(log), n_all, "downloads for %s" % (bad,))
            elif kind in ("pair", "triple"):
                ps = [start(root, server, log, args, ("slow", 0)) for _ in range(2 if kind == "pair" else 3)]
                outs = [finish(p) for p in ps]
                was = i in done
                for out in outs:
                    require("path" in out, "%s with others at the same time raises %s", what, out.get("text"))
                require(asked(i) - n0 <= (0 if was else 1), "%d downloads by calls at the same time for %s", asked(i) - n0, args)
                if not was and i not in disturbed:
                    require_eq(sorted(o["cached"] for o in outs), [False] + [True] * (len(outs) - 1), "is_cached of calls at the same time")
                for out in outs:
                    require_eq(os.path.normpath(out["path"]), os.path.join(root, alg, env, typ), "path of " + what)
                done[i] = outs[0]["path"]
                labels.add("concurrent")
            elif kind == "call":
                out = finish(start(root, server, log, args, ("none", 0)))
                was = i in disturbed
                first = returned(out, i, what)
                require(asked(i) - n0 <= 1, "%d downloads by %s", asked(i) - n0, what)
                if first and not was:
                    require_eq(asked(i) - n0, 1, "downloads by the first " + what)
                if not first:
                    require_eq(asked(i) - n0, 0, "downloads by %s of a model that is there" % what)
                if first and was:
                    labels.add("nontrivial")
                total[i] = out["ops"] if first else total.get(i)
            else:
                if kind == "kill":
                    if total.get(i) is None:
                        with scratch() as other:
                            o = finish(start(os.path.join(other, "m"), server, os.path.join(other, "log"), args, ("none", 0)))
                            require("ops" in o and "path" in o, "%s raises %s", what, o.get("text"))
                            total[i] = o["ops"]
                    x = int(f * (total[i] + 1))
                out = finish(start(root, server, log, args, (kind, x if kind == "kill" else f)))
                if "path" in out:
                    returned(out, i, what)
                elif "error" in out:
                    require(i not in done, "%s raises %s although the model is there", what, out["text"])
                    require(kind != "kill", "%s raises %s", what, out["text"])
                    if i not in done:
                        disturbed.add(i)
                else:
                    disturbed.add(i)
                    labels.add("killed")
            for i in done:
                check(i, "after %s" % what)
        # every model can be had in the end
        for i in sorted(set(c["models"])):
            alg, env, typ = MODELS[i]
            out = finish(start(root, server, log, (alg, env, typ), ("none", 0)))
            if i in disturbed and i not in done:
                labels.add("nontrivial")
            returned(out, i, "last call (%s, %s, %s)" % MODELS[i])
    return sorted(labels)


KINDS = ["call"] * 3 + ["kill"] * 6 + ["refused", "broken", "broken", "short", "pair", "triple", "unknown"]
cases = st.fixed_dictionaries(dict(
    seed=seeds, models=sized_list(spread(0, len(MODELS) - 1), 1, 3),
    ops=sized_list(tup(pick(KINDS), spread(0, 2), spread(0, 999), flag), 1, 7)))

QUICK_SCALE = 2

SUBS = [Sub("history", cases, run, quick=320, thorough=8000, shards=8)]
