"""Build and confirm a planted bug: seed.py SPEC.py [--nocheck] [--keep]
SPEC.py defines PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source; `fail` on violation),
optionally CHECKS (other checks to run).  Works on the scratch copy /tmp/w/sd; writes seeded/<spec name>/."""
import json, os, shutil, subprocess, sys, textwrap

SD = os.environ.get("SEED_COPY", "/tmp/w/sd")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "bf9d570"
HEAD = '''import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ["MPLBACKEND"] = "Agg"
os.environ["OMPI_ALLOW_RUN_AS_ROOT"] = "1"
os.environ["OMPI_ALLOW_RUN_AS_ROOT_CONFIRM"] = "1"
REPO = os.getcwd()
sys.path[0:0] = [REPO, HERE]
import warnings
warnings.filterwarnings("ignore")
import bridge
bridge.enable()
import mpi4py
mpi4py.rc.initialize = False
import contextlib, io, tempfile
import numpy as np
import torch
SCRATCH = tempfile.mkdtemp(prefix="demo_")
os.chdir(SCRATCH)
torch.set_num_threads(2)


def body():
%s

import shutil
try:
    body()
    print("ok")
finally:
    os.chdir("/")
    shutil.rmtree(SCRATCH, ignore_errors=True)
'''


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def demo(d):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    return run(["bash", os.path.join(d, "demo.sh")], cwd=SD, env=env, timeout=300)


def main():
    spec = sys.argv[1]
    name = os.path.basename(spec)[:-3]
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(VERIF, "seeded", name)
    os.makedirs(d, exist_ok=True)
    run(["git", "-C", SD, "checkout", "-q", "--", "."])
    head = run(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if run(["git", "-C", SD, "rev-parse", "HEAD"]).stdout.strip() != head:
        sys.exit("scratch copy is not at /repo HEAD")
    open(os.path.join(d, "demo.py"), "w").write(HEAD % textwrap.indent(textwrap.dedent(ns["DEMO"]).strip("\n"), "    "))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexec /opt/venv/bin/python "$HERE/demo.py"\n')
    shutil.copy(os.path.join(VERIF, "lib", "bridge.py"), os.path.join(d, "bridge.py"))
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = demo(d)
    ok = True
    if r.returncode != 0:
        print("DEMO FAILS ON CLEAN", r.stdout[-800:], r.stderr[-1500:]); ok = False
    for f, old, new in ns["EDITS"]:
        p = os.path.join(SD, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"edit in {f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    diff = run(["git", "-C", SD, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    cur = None; orig = 0; mine = []
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            cur = set(run(["git", "-C", "/repo", "show", f"{BASE}:{l[6:]}"]).stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:] in cur: orig += 1
            else: mine.append(l)
    if mine or not orig:
        print("LINES NOT ORIGINAL", mine, "original:", orig)
        ok = ok and orig > 0
    r = demo(d)
    if r.returncode == 0:
        print("DEMO PASSES WITH PATCH"); ok = False
    else:
        print("demo with patch:", (r.stderr.strip().split("\n") or [""])[-1][:200])
    t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {SD}").replace("export PYTHONDONT", f"export PYTHONPATH={SD} PYTHONDONT")
    run(["bash", "-c", t, "test.sh", "/tmp/w/sd.json"])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [x for x in stable if x not in set(json.load(open("/tmp/w/sd.json"))["passed"])]
    if miss:
        print("STABLE TESTS BROKEN", miss); ok = False
    print(name, "VALID" if ok else "INVALID")
    if "--nocheck" not in sys.argv:
        for c in [ns["PROPERTY"]] + ns.get("CHECKS", []):
            r = run([sys.executable, os.path.join(VERIF, "run.py"), c], cwd=VERIF, env={**os.environ, "VERIF_REPO": SD, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            print(c, "rc", r.returncode, [l for l in r.stdout.split("\n") if "VIOLATION" in l or "iolated" in l][:2], r.stderr[-300:] if r.returncode not in (0, 1) else "")
            if r.returncode == 1:
                for l in r.stdout.split("\n"):
                    if "replay=" in l:
                        rp = l.split("replay=")[1].strip()
                        if os.path.exists(rp): print("   ", open(rp).read()[:500].replace("\n", " "))
                        break
    if "--keep" not in sys.argv:
        run(["git", "-C", SD, "checkout", "-q", "--", "."])
    if not ok:
        print("removing", d); shutil.rmtree(d)


main()
