#!/usr/bin/env python3
"""mkseed.py [id...]: build /verif/seeded/<id> from tools/seeds.py; each change is confirmed in a scratch copy
(builds, demo passes without and fails with it; --tests also runs the stable tests)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
def seed(id, prop, needs, breaks, edits, pkg, test, libs=(), timeout=120):
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, libs=libs, timeout=timeout)
exec(open(os.path.join(V, "tools", "seeds.py")).read())
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
{ echo '{"Replace": {'; sep=""
for f in "$here"/*_test.go; do printf '%%s"%%s/%s/zz_demo_%%s": "%%s"' "$sep" "$repo" "$(basename "$f")" "$f"; sep=","; done
echo '}}'; } > "$tmp/overlay.json"
exec_dir="$tmp/run"; mkdir -p "$exec_dir"
go test -vet=off -count=1 -timeout %ds -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tests = "--tests" in sys.argv
    ids = args or list(S)
    for id in ids:
        s = S[id]; d = os.path.join(V, "seeded", id)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        w = tempfile.mkdtemp(prefix="seed")
        try:
            sh(f"cp -a {os.environ.get("REPO", "/repo")} {w}/r", "/"); r = w + "/r"
            sh("git checkout -q -- .", r)
            for f, old, new in s["edits"]:
                p = os.path.join(r, f); t = open(p).read()
                assert t.count(old) == 1, f"{id}: {f}: {t.count(old)} matches of {old!r}"
                open(p, "w").write(t.replace(old, new))
            patch = sh("git diff", r).stdout
            open(d + "/patch.diff", "w").write(patch)
            for l in s["libs"]:
                shutil.copy(os.path.join(V, "tools", "seedlib", l), d)
            open(d + "/bug_test.go", "w").write(s["test"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(DEMO % (s["pkg"], s["timeout"], s["pkg"]))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            b = sh("go build ./...", r, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
            m = sh(f"bash {d}/demo.sh", r)
            sh("git checkout -q -- .", r)
            o = sh(f"bash {d}/demo.sh", r)
            ok = b.returncode == 0 and m.returncode != 0 and o.returncode == 0 and "build failed" not in m.stdout
            print(id, "OK" if ok else f"BAD build={b.returncode} with={m.returncode} without={o.returncode}", flush=True)
            if not ok: print(b.stderr[-800:], m.stdout[-1500:], m.stderr[-500:], "-----", o.stdout[-1500:], o.stderr[-500:])
            if tests:
                sh(f"git apply {d}/patch.diff", r)
                x = sh(f"cd {r} && go vet ./gossiper >/dev/null 2>&1; true", r)
        finally:
            shutil.rmtree(w, ignore_errors=True)
main()
