#!/usr/bin/env python3
"""mutrun.py MUTANTS.jsonl RESULTS.jsonl [start [step]]: which of the listed changes do the checks detect, and which the tests?

Each change is made in a scratch copy of the repository; the checks of its file are run (with a small budget) until
one reports a violation; what none reports is given to the existing tests."""
import json, os, subprocess, sys, time, shutil
muts = [json.loads(l) for l in open(sys.argv[1])]
res = sys.argv[2]
start, step = (int(sys.argv[3]) if len(sys.argv) > 3 else 0), (int(sys.argv[4]) if len(sys.argv) > 4 else 1)
tag = f"{start}"
base = f"/tmp/mut{tag}"
src = os.environ.get("MC_SRC", "/verif")
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOCACHE="/root/.cache/go-build",
           GOMODCACHE="/root/go/pkg/mod", MC_REPO=f"{base}/repo", MC_FIRST="1", MC_BUDGET=os.environ.get("BUDGET", "25"))
P = {"actions.go": "C22", "main.go": "C22", "common/keypair.go": "C01 C05 C04 C08 C21", "common/outputs.go": "C20", "common/parallelize.go": "C17 C16",
     "common/utils.go": "C10 C04 C08", "keys/keys.go": "C12 C13 C14 C25 C26 C18 C19 C20", "lagrange/g1.go": "C10 C16", "lagrange/g2.go": "C10 C16",
     "phase1/contribution.go": "C01 C02 C09 C04 C18", "phase1/header.go": "C01 C18", "phase1/phase1.go": "C01 C02 C15 C04 C03 C09 C18 C19 C23 C20",
     "phase1/utils.go": "C01 C02 C15 C04 C03 C24 C18 C19 C21", "phase2/header.go": "C05 C07 C18", "phase2/contribution.go": "C05 C06 C09 C08 C18",
     "phase2/phase2.go": "C05 C06 C10 C08 C07 C09 C18 C19 C20", "phase2/lagrange.go": "C10 C19 C18", "phase2/parted.go": "C11 C14 C22 C23 C18 C19 C20",
     "phase2/utils.go": "C05 C06 C10 C14 C08 C07 C23 C24 C18 C19 C21"}
for f in P:
    if f.startswith(("phase", "keys")): P[f] += " C29 C28"
def sh(cmd, cwd=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, str(e.stdout)[-500:]
def setup():
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    sh(f"cp -a /repo {base}/repo; cp -r {src}/mc {base}/mc; mkdir {base}/root; cp -r {src}/mc {src}/check.sh {src}/known-findings.json {base}/root/; sed -i 's#=> /repo$#=> {base}/repo#' {base}/mc/go.mod")
    sh(f"go build -buildvcs=false -o {base}/mcgen . && MC_GOROOT=$(go env GOROOT) {base}/mcgen rewriteos {base}/ov", cwd=f"{base}/mc")
setup()
done = set()
if os.path.exists(res):
    done = {json.loads(l)["id"] for l in open(res)}
for i, m in enumerate(muts):
    if i % step != start or i in done: continue
    if "defer " in m["old"] or "BytesWritten" in m["old"] or "Println" in m["old"] and "Hash" not in m["old"]: continue # unobservable
    f = f"{base}/repo/{m['file']}"
    orig = open(f"/repo/{m['file']}", "rb").read()
    assert orig[m["start"]:m["end"]].decode() == m["old"]
    open(f, "wb").write(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
    t = time.time()
    r = dict(id=i, **m)
    rc, o = sh("go build -o zkbnb-setup .", cwd=f"{base}/repo")
    if rc:
        r["result"] = "nobuild"
    else:
        rc, o = sh(f"go build -buildvcs=false -tags osfault -overlay {base}/ov/overlay.json -o {base}/mcbin . && go build -buildvcs=false -o {base}/cli github.com/bnb-chain/zkbnb-setup", cwd=f"{base}/mc")
        if rc: r["result"] = "checker doesn't build"
        else:
            r["result"] = "missed"
            for c in (os.environ.get("CHECKS") or P[m["file"]]).split():
                if c in ("C16", "C17", "C27", "C24", "C21"):
                    rc, o = sh(f"bash check.sh {c} quick", cwd=f"{base}/root")
                else:
                    rc, o = sh(f"MC_CLI={base}/cli {base}/mcbin check {c} quick {base}/root", cwd=f"{base}/root")
                if rc == 1:
                    r["result"] = c
                    break
                if rc != 0:
                    r.setdefault("odd", []).append([c, rc, o[-300:]])
            if r["result"] == "missed":
                r["tests"] = "pass"
                sh("rm -f test/?.ph1 test/?.ph2 test/circuit.r1cs test/evals test/srs.lag test/pk test/vk test/Foo.*.save", cwd=f"{base}/repo")
                for tn in ["TestSetup", "TestProveAndVerify", "TestSetupFromPartedR1CS", "TestProveFromSplitPK"]:
                    rc, o = sh(f"go test -vet=off -count=1 -timeout 2m -run '^{tn}$' ./test", cwd=f"{base}/repo")
                    if rc:
                        r["tests"] = tn
                        break
    open(f, "wb").write(orig)
    r["s"] = round(time.time() - t, 1)
    with open(res, "a") as out: out.write(json.dumps(r) + "\n")
    print(i, m["file"], m["line"], m["kind"], repr(m["old"][:40]), "->", repr(m["new"][:40]), r["result"], r.get("tests", ""), r["s"], flush=True)
shutil.rmtree(base, ignore_errors=True)
