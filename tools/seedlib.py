"""Creates and confirms a planted bug: seed(id, prop, edits, demo, needs, breaks)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
WT = "/tmp/seedwt"
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$d/main.go" "$t/" && cd "$t" || exit 3
printf 'module demo\\n\\ngo 1.22\\n\\nrequire github.com/exascience/pargo v0.0.0\\n\\nreplace github.com/exascience/pargo => %s\\n' "$r" > go.mod
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
go build @RACE@-o demo . || exit 3
timeout 120 ./demo
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)
def seed(id, prop, edits, demo, needs, breaks, race=False):
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", WT])
    for f, old, new, *n in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        k = n[0] if n else None
        if k is None:
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
        else:  # replace the k-th occurrence (0-based)
            parts = s.split(old)
            assert len(parts) > k + 1, (id, f, len(parts))
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)
    env = dict(os.environ, HOME="/root", GOFLAGS="-mod=readonly", GOPROXY="off")
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = sh(["git", "diff"], cwd=WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.go", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SH.replace("@RACE@", "-race " if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    def fail(m, o=""):
        nonlocal ok
        ok = False
        print("SEED", id, "BAD:", m, o[-1500:])
    b = sh("go build ./... && go vet ./... 2>&1 | head -5", cwd=WT, env=env)
    if b.returncode: fail("build", b.stdout + b.stderr)
    t = sh("go test ./... 2>&1", cwd=WT, env=env)
    if t.returncode: fail("tests", t.stdout)
    for k in range(3):
        a = sh([d + "/demo.sh"], cwd="/repo")
        if a.returncode: fail("demo fails on clean tree", a.stdout + a.stderr); break
    for k in range(3):
        a = sh([d + "/demo.sh"], cwd=WT)
        if a.returncode in (0, 3): fail("demo passes with patch: %d" % a.returncode, a.stdout + a.stderr); break
    print("SEED", id, prop, "ok" if ok else "NOT OK", "|", (a.stdout + a.stderr).strip()[-150:].replace("\n", " / "))
    shutil.rmtree(WT, ignore_errors=True)
    if not ok: shutil.move(d, "/tmp/badseed-" + id) if not os.path.exists("/tmp/badseed-" + id) else shutil.rmtree(d)
    return ok
