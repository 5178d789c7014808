#!/usr/bin/env python3
"""Plant a bug, confirm it, keep it under /verif/seeded/<id>.

  seed.py FILE.py [id...]   FILE.py defines SEEDS = [dict(id, property, edits=[(path, old, new)], demo, libs, flags, needs, breaks)]
  --check                   also run the property's quick check against the planted bug
Everything happens in /repo itself and is undone straight afterwards; nothing of it is committed there.
"""
import json, os, shutil, subprocess, sys
V, R = "/verif", "/repo"
sys.path.insert(0, V)
from registry import PKG_DEPS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def closure(pkgs):
    out, todo = [], list(pkgs)
    while todo:
        p = todo.pop(0)
        if p not in out:
            out.append(p)
            todo += PKG_DEPS.get(p, [])
    return out


def demo_sh(e):
    libs = " ".join(closure(e.get("libs", [])))
    return f"""#!/bin/bash
# Builds demo.cpp against the sources of the working directory and runs it: 0 = the property holds.
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d /tmp/demo.XXXXXX)
inc="-I$d/compat"; for i in "$r"/ecl_*/include; do inc="$inc -I$i"; done
src=""; for p in {libs}; do for f in $(find "$r/$p/src/lib" -name '*.cpp' 2>/dev/null); do case "$f" in *_w32*|*_win*) ;; *) src="$src $f";; esac; done; done
g++ -std=c++14 -w -g -O1 {e.get('flags', '')} $inc -isystem /usr/include/eigen3 "$d/demo.cpp" $src -lpthread -lrt -o "$t/demo" || exit 3
cd "$t" && timeout {e.get('timeout', 60)} ./demo
"""


def stable():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "build failed\n" + b.stdout[-800:] + b.stderr[-800:]
    sh("bash /opt/vp/test.sh /tmp/seed_o.json")
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/seed_o.json"))["passed"])
    return f"tests fail: {sorted(miss)}" if miss else ""


def alien(patch):
    """lines the patch removes must be lines of the original repository"""
    base = sh("git rev-list --max-parents=0 HEAD", cwd=R).stdout.split()[-1]
    path, orig = "", []
    removed = 0
    for line in open(patch):
        if line.startswith("--- a/"):
            path = line[6:].strip()
            orig = sh(["git", "show", f"{base}:{path}"], cwd=R).stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            removed += 1
            if line[1:].rstrip("\n") not in orig:
                return f"not an original line: {line.strip()}"
    return "" if removed else "changes no original line"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    ns = {}
    exec(open(args[0]).read(), ns)
    assert not sh("git status --porcelain", cwd=R).stdout, "/repo is not clean"
    for e in ns["SEEDS"]:
        if args[1:] and e["id"] not in args[1:]:
            continue
        d = f"{V}/seeded/{e['id']}"
        os.makedirs(d, exist_ok=True)
        try:
            for p, old, new in e["edits"]:
                t = open(f"{R}/{p}").read()
                assert t.count(old) == 1, (p, old, t.count(old))
                open(f"{R}/{p}", "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
            open(d + "/demo.cpp", "w").write(e["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(demo_sh(e))
            shutil.copytree(V + "/compat/include", d + "/compat", dirs_exist_ok=True)
            json.dump({"property": e["property"], "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            why = stable() or alien(d + "/patch.diff")
            bad = sh(["bash", d + "/demo.sh"], cwd=R)
            caught = "-"
            if check and not why and bad.returncode not in (0, 3):
                r = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 880 python3 {V}/run.py {e['property']}", cwd=V)
                caught = "CAUGHT" if f"VIOLATION property={e['property']}" in r.stdout and r.returncode == 1 else "MISSED " + r.stdout[-300:]
                if "CAUGHT" in caught:
                    ls = r.stdout.splitlines()
                    caught += " " + next((ls[i + 1].strip()[:110] for i, x in enumerate(ls[:-1]) if "# failure" in x), "")
        finally:
            sh("git checkout -q -- .", cwd=R)
        good = sh(["bash", d + "/demo.sh"], cwd=R)
        ok = not why and good.returncode == 0 and bad.returncode not in (0, 3)
        print(e["id"], "ok" if ok else "REJECTED", why, f"demo clean={good.returncode} planted={bad.returncode}", caught, flush=True)
        if not ok:
            print((good.stderr + bad.stderr + good.stdout + bad.stdout)[:800])
            shutil.rmtree(d)
    sh("bash /opt/vp/build.sh")


main()
