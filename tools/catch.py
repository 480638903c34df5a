"""
Run checks against planted bugs: tools/catch.py [id[:PROP,PROP] ...]
Each patch is applied to a scratch copy of /repo under /tmp, the check of its
property (or the given ones) is run on the copy, the copy is removed.
"""
import json, os, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(R, "seeded")
args = sys.argv[1:] or sorted(d for d in os.listdir(S) if d[0] != ".")
for a in args:
    name, _, props = a.partition(":")
    d = os.path.join(S, name)
    props = props.split(",") if props else [json.load(open(d + "/meta.json"))["property"]]
    c = "/tmp/ca-" + name
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    try:
        r = subprocess.run(["git", "-C", c, "apply", d + "/patch.diff"])
        if r.returncode:
            print(name, "PATCH DOES NOT APPLY"); continue
        for p in props:
            env = dict(os.environ, DST_REPO=c, DST_EVIDENCE="/tmp/ev-" + name, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = subprocess.run(["bash", R + "/check.sh", p, "quick"], env=env, capture_output=True, text=True)
            cls = [l.strip()[:220] for l in r.stdout.splitlines() if "class=" in l or l.startswith("VIOL")]
            print("%-28s %s %s %s" % (name, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), cls[:2]), flush=True)
            if r.returncode not in (0, 1): print(r.stderr[-600:])
    finally:
        shutil.rmtree(c); shutil.rmtree("/tmp/ev-" + name, ignore_errors=True)
