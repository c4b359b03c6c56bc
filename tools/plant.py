#!/usr/bin/env python3
"""Turns the planted bugs described in tools/seeds/*.py into seeded/<id>/ after
confirming them in a scratch copy: the patch applies and builds, the stable
tests pass with it, and the demonstration tells patched from unpatched.

usage: plant.py [--no-tests] ID..."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])

DEMO_SH = r'''#!/bin/bash
# Runs main.go against the repository in the current directory (by an overlay,
# so that nothing is written there). Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/cmd/zz_demo/main.go": "%s/main.go.txt"}}' "$PWD" "$here" >"$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zz_demo || exit 2
cd "$tmp" && timeout 120 ./demo
'''

PLAN_HELPER = '''
func plan(mode schema.GeneratorMode, desired, current string) []string {
	ddls, err := schema.GenerateIdempotentDDLs(mode, desired, current)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(1)
	}
	return ddls
}

func expect(got []string, want ...string) {
	if len(got) != len(want) {
		fmt.Printf("got  %q\\nwant %q\\n", got, want)
		os.Exit(1)
	}
	for i := range got {
		if got[i] != want[i] {
			fmt.Printf("got  %q\\nwant %q\\n", got, want)
			os.Exit(1)
		}
	}
}
'''

def load():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS:
            out[s["id"]] = s
    return out

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

def main():
    seeds = load()
    args = sys.argv[1:]
    tests = "--no-tests" not in args
    ids = [a for a in args if not a.startswith("--")] or list(seeds)
    bad = 0
    for i in ids:
        s = seeds[i]
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/r", "HEAD"])
            r = tmp + "/r"
            d = V + "/seeded/" + i
            os.makedirs(d, exist_ok=True)
            open(d + "/demo.sh", "w").write(s.get("demo_sh", DEMO_SH)); os.chmod(d + "/demo.sh", 0o755)
            if "demo" in s:
                code = s["demo"]
                if "package main" not in code:
                    imports = s.get("imports", ["fmt", "os", "github.com/k0kubun/sqldef/schema"])
                    code = "package main\n\nimport (\n" + "".join('\t"%s"\n' % x for x in imports) + ")\n" + (PLAN_HELPER if "plan(" in code else "") + "\nfunc main() {\n" + code.rstrip() + "\n}\n"
                open(d + "/main.go.txt", "w").write(code)
            for n, c in s.get("files", {}).items():
                open(d + "/" + n, "w").write(c)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            p = run(["bash", d + "/demo.sh"], r)
            if p.returncode != 0:
                print(i, "DEMO FAILS UNPATCHED", p.returncode, p.stdout[-1500:], p.stderr[-1500:]); bad += 1; continue
            for f, old, new in s["edits"]:
                src = open(r + "/" + f).read()
                if src.count(old) != 1:
                    print(i, "EDIT MATCHES", src.count(old), "TIMES:", old[:80]); bad += 1; break
                open(r + "/" + f, "w").write(src.replace(old, new))
            else:
                diff = run(["git", "diff"], r).stdout
                open(d + "/patch.diff", "w").write(diff)
                b = run("go build ./... ", r)
                if b.returncode != 0:
                    print(i, "DOES NOT BUILD", b.stderr[-1500:]); bad += 1; continue
                p = run(["bash", d + "/demo.sh"], r)
                if p.returncode == 0:
                    print(i, "DEMO PASSES PATCHED"); bad += 1; continue
                if p.returncode != 1:
                    print(i, "DEMO ENDS WITH", p.returncode, p.stdout[-1000:], p.stderr[-1000:]); bad += 1; continue
                if tests:
                    e = dict(ENV); e["PATH"] = r + "/cmd/sqlite3def:" + e["PATH"]
                    t = subprocess.run("go test -vet=off -count=1 ./cmd/sqlite3def ./sqlparser/... 2>&1 | grep -v '^ok\\|no test files'", cwd=r, env=e, shell=True, capture_output=True, text=True)
                    fails = [l for l in t.stdout.splitlines() if l.startswith("--- FAIL")]
                    if fails or "build failed" in t.stdout:
                        print(i, "TESTS FAIL", t.stdout[-800:]); bad += 1; continue
                print(i, "ok")
        finally:
            subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/r"])
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(1 if bad else 0)

main()
