"""Helper for planting bugs: mk(id, property, edits, main_go, needs, breaks) makes the change in a scratch copy of /repo,
confirms that it builds and that the demonstration passes without it and fails with it, and writes seeded/<id>/.
edits: [(file, old, new)], old must occur exactly once."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUM = "/opt/vp/pudding-shed.sum"
DEMO = r'''#!/bin/bash
# Runs main.go (beside this file) against the tree in the current directory; see meta.json.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off
cp go.mod "$T/m.mod" && cp "$here/go.sum" "$T/m.sum" || exit 3
export GOFLAGS="-mod=mod -buildvcs=false -modfile=$T/m.mod"
{ printf '{"Replace": {'; sep=""; for f in "$here"/*.go; do printf '%s"%s/zzdemo/%s": "%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=","; done; printf '}}'; } > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
mkdir "$T/w" && cd "$T/w" && timeout 200 "$T/demo" "$T/w" > "$T/out" 2>&1
rc=$?
tail -c 2000 "$T/out"
exit $rc
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def mk(id, prop, edits, main, needs, breaks, tests=(), kit=()):
    wt = tempfile.mkdtemp(prefix="seed-")
    os.rmdir(wt); shutil.copytree("/repo", wt, symlinks=True)
    out = os.path.join(V, "seeded", id)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "main.go"), "w").write(main.lstrip())
    for k in kit: shutil.copy(os.path.join(V, "tools/seedkit", k), out)
    sh("gofmt -w main.go", out)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(out, "demo.sh"), 0o755)
    shutil.copy(SUM, os.path.join(out, "go.sum"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    ok = True
    try:
        r = sh(f"bash {out}/demo.sh", wt)
        if r.returncode != 0: print(id, "DEMO FAILS ON CLEAN", r.returncode, r.stdout[-1500:], r.stderr[-1500:]); ok = False
        for f, old, new in edits:
            p = os.path.join(wt, f); s = open(p, newline="").read()
            if old.startswith("@last:"):  # the last of several occurrences
                old = old[6:]
                if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                i = s.rfind(old)
                if i < 0: print(id, "EDIT NOT FOUND in", f); return False
                open(p, "w", newline="").write(s[:i] + new + s[i + len(old):])
                continue
            if s.count(old) != 1:
                old2, new2 = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old2) == 1: old, new = old2, new2
                else: print(id, "EDIT MATCHES", s.count(old), "times in", f); return False
            open(p, "w", newline="").write(s.replace(old, new))
        d = sh("git diff", wt).stdout
        open(os.path.join(out, "patch.diff"), "w", newline="").write(d)
        base = sh("git rev-list --max-parents=0 HEAD", wt).stdout.strip()
        r = sh("git stash -q; git checkout -q " + base + " && git apply --check " + out + "/patch.diff; echo rc=$?; git checkout -q -; git stash pop -q", wt)
        if "rc=0" not in r.stdout: print(id, "note: does not apply to the original base commit (check it changes original lines)")
        r = sh(f"export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off; cp go.mod /tmp/ms.mod; cp {SUM} /tmp/ms.sum; "
               "GOFLAGS='-mod=mod -buildvcs=false -modfile=/tmp/ms.mod' go vet ./" + " ./".join(sorted({os.path.dirname(e[0]) for e in edits})) +
               " 2>&1 | grep -v '^#' | grep -iv test | head -5; GOFLAGS='-mod=mod -buildvcs=false -modfile=/tmp/ms.mod' go build " +
               " ".join("./" + x for x in sorted({os.path.dirname(e[0]) for e in edits})), wt)
        if r.returncode != 0: print(id, "DOES NOT BUILD", r.stdout, r.stderr); ok = False
        r = sh(f"bash {out}/demo.sh", wt)
        if r.returncode == 0: print(id, "DEMO PASSES WITH THE CHANGE", r.stdout[-800:]); ok = False
        elif r.returncode == 3: print(id, "DEMO BROKEN", r.stdout, r.stderr); ok = False
        for t in tests:
            r = sh(f"GOFLAGS='-mod=mod -buildvcs=false -modfile=/tmp/ms.mod' go test -vet=off {t}", wt, timeout=900)
            if r.returncode != 0: print(id, "TESTS FAIL", r.stdout[-1500:]); ok = False
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    print(id, "ok" if ok else "NOT OK")
    return ok
