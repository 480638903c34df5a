"""
Plant a bug: /opt/venv/bin/python tools/plant.py SPEC.py [name ...]

SPEC.py defines bugs with  bug(id, prop, edits, needs, breaks, demo):
edits is a list of (file, old, new).  For every bug a scratch copy of /repo is
made under /tmp, edited, the stable tests and the demo are run on it (and the
demo on /repo), and on success /verif/seeded/<id>/ is written.  The scratch
copy is removed.  With --check the property's check is run on the copy too.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "seeded")
DEMO_SH = """#!/bin/bash
# cwd: the repository
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export NUMBA_CACHE_DIR=$W/numba PYTHONPYCACHEPREFIX=$W/pyc PYTHONPATH=$PWD
export TMPDIR=$W PYTHONWARNINGS=ignore
timeout 280 %s "$D/demo.py" "$W"
""" % PY
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo, also=()):
    BUGS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks,
                    demo=demo, also=list(also))


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d


def run_tests(copy):
    src = open("/opt/vp/test.sh").read().replace("/repo", copy)
    p = copy + ".test.sh"
    open(p, "w").write(src)
    out = copy + ".out.json"
    r = sh(["bash", p, out])
    os.remove(p)
    res = json.load(open(out)) if os.path.exists(out) else {}
    if os.path.exists(out):
        os.remove(out)
    return r, res


def make(copy, b):
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
    for f, old, new, *nth in b["edits"]:
        p = os.path.join(copy, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1 and not nth or nth and n <= nth[0]:
            raise ValueError("%s: old text found %d times in %s:\n%s"
                             % (b["id"], n, f, old))
        parts = s.split(old)            # nth: which of the occurrences
        k = nth[0] + 1 if nth else 1
        open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))


def one(b):
    copy = "/tmp/pl-" + b["id"]
    try:
        make(copy, b)
        diff = sh(["git", "-C", copy, "diff"]).stdout
        demo = "/tmp/pl-demo-" + b["id"]
        shutil.rmtree(demo, ignore_errors=True)
        os.makedirs(demo)
        open(demo + "/demo.sh", "w").write(DEMO_SH)
        open(demo + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        g = sh(["bash", demo + "/demo.sh"], cwd="/repo")
        m = sh(["bash", demo + "/demo.sh"], cwd=copy)
        msg = "demo clean=%d bug=%d" % (g.returncode, m.returncode)
        if g.returncode != 0 or m.returncode == 0:
            return b["id"], False, msg + g.stdout[-500:] + g.stderr[-1500:]
        msg += " (%s)" % (m.stderr.strip().splitlines() or ["?"])[-1][:150]
        r, res = run_tests(copy)
        want = stable()
        want = want.get("stable", want.get("passed", want))
        got = set(res.get("passed", res.get("pass", [])))
        miss = [t for t in want if t not in got]
        msg += " tests %d passed, %d stable missing" % (len(got), len(miss))
        if miss or not got:
            return b["id"], False, msg + str(miss[:5]) + r.stdout[-300:]
        out = os.path.join(SEED, b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(demo + "/demo.sh", out)
        shutil.copy(demo + "/demo.py", out)
        json.dump({"property": b["prop"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        return b["id"], True, msg
    except Exception as e:
        return b["id"], False, repr(e)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree("/tmp/pl-demo-" + b["id"], ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    exec(compile(open(args[0]).read(), args[0], "exec"))
    names = args[1:] or list(BUGS)
    with cf.ThreadPoolExecutor(4) as ex:
        for id, ok, msg in ex.map(one, [BUGS[n] for n in names]):
            print("OK  " if ok else "FAIL", id, msg, flush=True)
