#!/usr/bin/env python3
"""mkseed.py ID PROP --what TEXT --needs TEXT [--n N] [--seed S] < patch
Tries a planted bug: applies it to a scratch copy of /repo, lets PROP's check
look for it there, and on success writes seeded/ID with a demonstration (the
simulator sources, the minimised plan and its oracle)."""
import argparse, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("prop"); ap.add_argument("--what", default=""); ap.add_argument("--needs", default="")
ap.add_argument("--n", type=int, default=0); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--secs", type=float, default=120)
ap.add_argument("--others", default=""); ap.add_argument("--patch")
a = ap.parse_args()
C, B = "/tmp/seedrepo", "/tmp/seedbuild"
out = os.path.join(V, "seeded", a.id)
patch = open(a.patch).read() if a.patch else sys.stdin.read()
subprocess.run(["rsync", "-a", "--delete", "--exclude=/_build", "/repo/", C + "/"], check=True)
r = subprocess.run(["git", "-C", C, "apply", "-"], input=patch, text=True)
if r.returncode:
    sys.exit("patch does not apply")
env = dict(os.environ, DST_REPO=C, DST_BUILD=B)
def check(p, n):
    return subprocess.run([sys.executable, "-m", "dst.main", "check", p] + (["--n", str(n)] if n else []) + ["--seed", str(a.seed), "--secs", str(a.secs)],
                          cwd=V, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
r = check(a.prop, a.n)
line = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
print(a.id, a.prop, "rc", r.returncode, "\n".join(l[:300] for l in r.stdout.strip().split("\n")[-4:]))
for o in a.others.split(","):
    if o:
        r2 = check(o, 0)
        print("   also", o, r2.returncode)
if not line:
    sys.exit(1)
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "patch.diff"), "w").write(patch)
json.dump(dict(property=a.prop, needs=a.needs, what_it_breaks=a.what), open(os.path.join(out, "meta.json"), "w"), indent=1)
k = os.path.join(out, "kit")
shutil.rmtree(k, ignore_errors=True)
shutil.copytree(os.path.join(V, "dst"), os.path.join(k, "dst"), ignore=shutil.ignore_patterns("__pycache__"))
shutil.copytree(os.path.join(V, "sim"), os.path.join(k, "sim"))
shutil.move(line[0].split("replay=")[1], os.path.join(out, "case.json"))
open(os.path.join(out, "demo.sh"), "w").write('''#!/bin/bash
# Runs one fixed scenario (case.json) on the sources in the current folder and
# exits nonzero when it breaks the property.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp -r "$here/kit" "$w/kit" || exit 3
export DST_REPO="$PWD" DST_BUILD="$w/build" DST_SCRATCH="$w" PYTHONDONTWRITEBYTECODE=1
cd "$w/kit" || exit 3
python3 -m dst.main replay "$here/case.json"
exit $?
''')
os.chmod(os.path.join(out, "demo.sh"), 0o755)
for repo, want in (("/repo", 0), (C, 1)):
    e = dict(os.environ); e.pop("DST_REPO", None)
    r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=repo, env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print("demo on", repo, r.returncode, r.stdout.strip().split("\n")[-1][:200])
    if r.returncode != want:
        print("DEMO WRONG\n" + r.stdout[-2000:])
