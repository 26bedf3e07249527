#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).

  seedbug.py make SPEC.py          write seeded/<id>/ from a spec (edits are applied to a scratch copy of /repo)
  seedbug.py verify ID... [-t]     apply each patch to a scratch copy, run its demo on both trees (-t: and the tests)
  seedbug.py check ID...           run the property's check against the patched scratch copy
"""
import json, os, shutil, subprocess, sys, runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = os.environ.get("SCRATCH", "/tmp/seedwt")
ENV = "PYTHONDONTWRITEBYTECODE=1"


def sh(cmd, cwd=None, timeout=1500, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, env=e, capture_output=True, text=True)


def copy(dest):
    shutil.rmtree(dest, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", dest])
    subprocess.check_call(["git", "-C", dest, "checkout", "-q", "--", "."])


def make(spec):
    s = runpy.run_path(spec)
    for b in s["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        copy(SCRATCH)
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, f)
            t = open(p).read()
            n = t.count(old)
            assert n == 1, f"{b['id']}: {f}: {n} matches for {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=SCRATCH).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as o:
            o.write('#!/bin/bash\n# run with cwd = repository root\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                    'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENMDAO_REPORTS=0 PYTHONWARNINGS=ignore OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n'
                    'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
                    'work="$(mktemp -d)"; trap \'rm -r "$work"\' EXIT\n'
                    'REPO="$PWD"; export REPO; cd "$work"\n'
                    'PYTHONPATH="$REPO" "$PY" "$here/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"], len(diff.splitlines()), "lines")
    shutil.rmtree(SCRATCH, ignore_errors=True)


def apply(i):
    copy(SCRATCH)
    subprocess.check_call(["git", "-C", SCRATCH, "apply", os.path.join(SEEDED, i, "patch.diff")])


def verify(ids, tests):
    for i in ids:
        demo = os.path.join(SEEDED, i, "demo.sh")
        copy(SCRATCH)
        a = sh(f"timeout 300 bash {demo}", cwd=SCRATCH)
        apply(i)
        b = sh(f"timeout 300 bash {demo}", cwd=SCRATCH)
        ok = a.returncode == 0 and b.returncode not in (0, 124)
        print(i, "demo", a.returncode, b.returncode, "OK" if ok else "BAD", "|", (b.stdout + b.stderr).strip().splitlines()[-1:], flush=True)
        if a.returncode:
            print(a.stdout[-800:], a.stderr[-1500:])
        if ok and tests:
            r = sh(f". /opt/vp/env.sh; rm -f {SCRATCH}.xml; timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --disable-warnings --tb=line -n 8 --timeout=300 "
                   f"-o junit_family=xunit2 --junitxml={SCRATCH}.xml openconcept", cwd=SCRATCH, env={"PYTHONPATH": SCRATCH, "PYTHONDONTWRITEBYTECODE": "1"})
            import xml.etree.ElementTree as ET
            base = json.load(open("/opt/vp/BASELINE.json"))
            bad = []
            n = 0
            for c in ET.parse(SCRATCH + ".xml").getroot().iter("testcase"):
                n += 1
                if c.find("failure") is not None or c.find("error") is not None:
                    bad.append(c.get("classname") + "::" + c.get("name"))
            print("   tests", n, "failed:", bad, flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


def check(ids):
    for i in ids:
        prop = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
        apply(i)
        r = sh(f"{VERIF}/check {prop}", env={"DST_REPO": SCRATCH, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
        lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, prop, "rc", r.returncode, "violations", len(lines), (lines[:1] or r.stderr.strip().splitlines()[-1:]), flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    t = "-t" in args
    args = [a for a in args if a != "-t"]
    if args == ["all"]:
        args = sorted(os.listdir(SEEDED))
    {"make": lambda: [make(a) for a in args], "verify": lambda: verify(args, t), "check": lambda: check(args)}[cmd]()
