"""P30: preparing an output directory records the run and never loses an earlier one."""
import argparse
import datetime
import json
import os
import subprocess
import sys
from unittest import mock

from hypothesis import strategies as st

from pbt.core import Sub, require, require_eq, scratch
from pbt.gens import flag, pick, sized_list, spread

from pfrl import experiments

RULE = """A case is a working directory, under Git or not, and a sequence of calls of prepare_output_dir (identifiers given or generated,
base directories, arguments as dict or namespace, command lines given or from sys.argv, with and without backup) among writes of result files
into the directories made so far, changes of environment variables and of sys.argv, links between results, edits of tracked files, staged or not, and commits. The whole file tree
is compared with a model after each call. Non-trivial: a call meets an existing directory with result files in it."""
ASSUMPTIONS = ["the working directory under Git has at least one commit", "time formats tell microseconds apart"]

words = pick(["python", "train.py", "--lr", "1e-3", "a b", "", "--", "é", "--out=x/y", "'q'"])
texts = pick(["", "x", "score\n1\n", "\u00e9\n", "a" * 300])


# close to each other: order, spacing and repetition
NEAR = [["t.py", "a", "b"], ["t.py", "b", "a"], ["t.py", "a b"], ["t.py", "a", "b", ""], ["t.py", "a", "a", "b"], ["a", "t.py", "b"]]
argvs = st.one_of(pick(NEAR), sized_list(words, 1, 4))


@st.composite
def args_of(draw):
    leaf = st.one_of(st.none(), st.booleans(), spread(-5, 5), pick([0.5, 1e-8, 1e300]), texts)
    return draw(st.dictionaries(pick(["lr", "env", "steps", "gpu", "demo", "x y"]),
                                st.one_of(leaf, st.lists(leaf, max_size=3),
                                          st.dictionaries(pick("abc"), leaf, max_size=2)), max_size=4))


@st.composite
def ops(draw):
    kind = draw(pick(["prepare"] * 5 + ["write"] * 5 + ["env", "argv", "edit", "edit", "stage", "commit", "link"]))
    o = dict(op=kind, k=draw(spread(0, 7)))
    if kind == "prepare":
        o.update(id=draw(pick(["exp"] * 5 + ["a.b", None])), base=draw(pick([None, None, None, "out", "out", "out/deep", "exp"])),
                 args=draw(args_of()), ns=draw(flag), argv=draw(st.one_of(st.none(), argvs, st.just([]))),
                 backup=draw(pick([None, None, True, False])),
                 fmt=draw(pick([None, None, "%Y-%m-%d %H.%M.%S.%f", "%f%S%M%H%d%m%Y"])))
    elif kind == "write":
        o.update(name=draw(pick(["scores.txt", "best/model.pt", "start.txt.bak", "10_finish/a/b", "git-note.txt"])), text=draw(texts))
    elif kind == "argv":
        o.update(argv=draw(argvs))
    else:
        o.update(text=draw(texts))
    return o


@st.composite
def cases(draw):
    c = dict(git=draw(pick([True, True, False])), ops=draw(sized_list(ops(), 2, 14)))
    if draw(pick([False, False, True])):    # mostly generated identifiers
        for o in c["ops"]:
            if o["op"] == "prepare" and o["k"] < 6:
                o["id"] = None
    return c


def fresh(argv):
    """Equal strings as different objects, as in a command line."""
    return [w.encode().decode() for w in argv]


def git(*a):
    return subprocess.run(("git", "-c", "user.name=x", "-c", "user.email=x@y", "-c", "commit.gpgsign=false") + a,
                          check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if not (p == d and x == ".git")]
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d) + "/"] = None
        for x in fs:
            with open(os.path.join(p, x), "rb") as f:
                out[os.path.relpath(os.path.join(p, x), d)] = f.read()
    return out


FORMAT = "%Y%m%dT%H%M%S.%f"
GIT = {"git-head.txt": ("rev-parse", "HEAD"), "git-status.txt": ("status",), "git-log.txt": ("log",),
       "git-diff.txt": ("diff", "HEAD")}


def run(c):
    labels = set()
    with scratch() as d, mock.patch.dict(os.environ, {"GIT_CEILING_DIRECTORIES": os.path.dirname(d)}), \
            mock.patch.object(sys, "argv", fresh(sys.argv)):
        for k in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
            os.environ.pop(k, None)
        os.chdir(d)
        with open("tracked.txt", "w") as f:
            f.write("0")
        if c["git"]:
            git("init", "-q")
            git("add", "tracked.txt")
            git("commit", "-q", "-m", "first")
        require_eq(experiments.is_under_git_control(), c["git"], "is_under_git_control()")
        dirs, ids, n = [], {}, 0
        for o in c["ops"]:
            kind = o["op"]
            if kind == "write" and dirs:
                p = os.path.join(dirs[o["k"] % len(dirs)], o["name"])
                if not os.path.isdir(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w", encoding="utf-8") as f:
                        f.write(o["text"])
            elif kind == "env":
                os.environ["PBT_%d" % (o["k"] % 3)] = o["text"]
            elif kind == "argv":
                sys.argv[:] = fresh(o["argv"])
            elif kind == "link" and dirs:
                # a link from one result to another one
                p = os.path.join(dirs[o["k"] % len(dirs)], "link%d" % (o["k"] % 2))
                if not os.path.lexists(p):
                    os.symlink(os.path.join(os.path.abspath(os.path.dirname(p)), ["args.txt", "command.txt"][o["k"] % 2]), p)
            elif kind == "stage":
                if c["git"]:
                    git("add", "tracked.txt")
            elif kind == "edit" or kind == "commit":
                n += 1
                with open("tracked.txt", "w", encoding="utf-8") as f:
                    f.write("%d%s" % (o["k"] % 3, o["text"]))
                if kind == "commit" and c["git"]:
                    git("commit", "-q", "--allow-empty", "-m", "m%d" % n, "tracked.txt")
            elif kind == "prepare":
                labels |= prepare(c, o, d, dirs, ids)
    return sorted(labels)


def prepare(c, o, d, dirs, ids):
    before = tree(d)
    kw = {}
    if o["argv"] is not None:
        kw["argv"] = fresh(o["argv"])
    if o["backup"] is not None:
        kw["make_backup"] = o["backup"]
    if o["fmt"] is not None:
        kw["time_format"] = o["fmt"]
    args = json.loads(json.dumps(o["args"]))
    given = argparse.Namespace(**args) if o["ns"] else args
    t0 = datetime.datetime.now()
    out = experiments.prepare_output_dir(given, o["base"], o["id"], **kw)
    t1 = datetime.datetime.now()
    argv = sys.argv if o["argv"] is None else o["argv"]
    base = o["base"] or "."
    require(os.path.isdir(out), "%r is not a directory", out)
    require_eq(os.path.realpath(os.path.dirname(out)), os.path.realpath(base), "parent of the output directory")
    name = os.path.basename(out)
    if o["id"] is not None:
        require_eq(name, o["id"], "name of the output directory")
    elif c["git"]:
        key = (git("rev-parse", "HEAD"), git("diff", "HEAD"), tuple(argv))
        for k, v in ids.items():
            require((k == key) == (v == name), "generated ids %s and %s for %s and %s", v, name, k, key)
        ids[key] = name
        require_eq(experiments.generate_exp_id(argv=fresh(argv)), name, "generated id")
        require(experiments.generate_exp_id("pre", argv=fresh(argv)) != name, "the prefix does not matter for the generated id")
    else:
        t = datetime.datetime.strptime(name, o["fmt"] or FORMAT)
        require(t0 <= t <= t1, "name %s is not the time of the call", name)
    rel = os.path.relpath(out, d)
    after = tree(d)

    def under(t, x):
        return {k[len(x) + 1:]: v for k, v in t.items() if k.startswith(x + "/") and k != x + "/"}
    old, new = under(before, rel), under(after, rel)
    existed = rel + "/" in before
    made = sorted({k for k in after if k.endswith("/") and k not in before and not k.startswith(rel + "/")
                   and not rel.startswith(k)})
    tops = [k for k in made if not any(k != j and k.startswith(j) for j in made)]
    if existed and o["backup"] is not False:
        require_eq(len(tops), 1, "number of backups made")
        b = tops[0][:-1]
        require(b.startswith(rel + ".") and b.endswith(".backup"), "name of the backup: %s of %s", b, rel)
        t = datetime.datetime.strptime(b[len(rel) + 1:-len(".backup")], o["fmt"] or FORMAT)
        require(t0 <= t <= t1, "suffix of the backup %s is not the time of the call", b)
        require_eq(under(after, b), old, "contents of the backup")
    else:
        require_eq(tops, [], "directories made besides the output directory")
        b = None
    rest = lambda t: {k: v for k, v in t.items() if not k.startswith(rel + "/") and not (  # noqa: E731
        b and k.startswith(b + "/")) and not (k.endswith("/") and rel.startswith(k))}
    require_eq(rest(after), rest(before), "files outside of the output directory")
    written = {"start.txt", "args.txt", "environ.txt", "command.txt"} | (set(GIT) if c["git"] else set())
    require_eq({k for k in new if k not in old}, written - set(old), "new files in the output directory")
    for k, v in old.items():
        if k not in written and not os.path.islink(os.path.join(out, k)):
            require_eq(new.get(k, b"gone"), v, "earlier result " + k)
    first = old.get("start.txt", b"")
    require(new["start.txt"].startswith(first), "earlier starts are lost")
    lines = new["start.txt"][len(first):].decode().split("\n")
    require(len(lines) == 2 and lines[1] == "", "start.txt is extended by %r", lines)
    require(t0 <= datetime.datetime.strptime(lines[0], FORMAT) <= t1, "start.txt gets %s", lines[0])
    require_eq(json.loads(new["args.txt"]), o["args"], "args.txt")
    require_eq(json.loads(new["environ.txt"]), dict(os.environ), "environ.txt")
    require_eq(new["command.txt"].decode(), " ".join(argv), "command.txt")
    if c["git"]:
        for k, cmd in GIT.items():
            require_eq(new[k], git(*cmd), k)
    dirs.append(out)
    labels = {"git" if c["git"] else "no git", "generated" if o["id"] is None else "given"}
    if existed:
        labels.add("existing")
        if set(old) - written:
            labels.add("nontrivial")
    return labels


QUICK_SCALE = 3

SUBS = [Sub("prepare", cases(), run, quick=400, thorough=12000, shards=8)]
