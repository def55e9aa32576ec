#!/usr/local/bin/python3
"""seed.py DIR  - DIR/spec.py defines PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], PKG=(module,pkgdir), and DIR/demo_test.go.txt is the demonstration.
Makes patch.diff, demo.sh, meta.json; confirms: builds, stable tests pass, demo passes clean / fails patched; runs the property's quick check against the changed copy."""
import sys,os,json,subprocess,shutil
D=os.path.abspath(sys.argv[1]); S="/tmp/seedwork-%s"%os.path.basename(D)
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns={}; exec(open(D+"/spec.py").read(),ns)
def sh(c,**k): return subprocess.run(["bash","-c",c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if os.path.exists(S): shutil.rmtree(S)
sh("git -C /repo worktree prune; cp -a /repo "+S)
sh("git -C %s checkout -q -- ."%S)
mod,pkg=ns["PKG"]
open(D+"/demo.sh","w").write('''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken.  Runs in a checkout of the repository.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/seeddemo.XXXXXX); trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/demo_test.go"
cp "$R/%s/go.mod" "$T/go.mod"; cp "$R/%s/go.sum" "$T/go.sum"
sed -i "s#=> \\.\\./#=> $R/#" "$T/go.mod"
echo "{\\"Replace\\":{\\"$R/%s/%s/zz_seed_demo_test.go\\":\\"$T/demo_test.go\\"}}" > "$T/o.json"
cd "$R/%s" && TMPDIR=$T go test -modfile "$T/go.mod" -overlay "$T/o.json" -vet=off -count=1 -timeout 200s %s -run 'TestSeedDemo' ./%s
'''%(mod,mod,mod,pkg,mod,ns.get("FLAGS",""),pkg))
json.dump({"property":ns["PROP"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(D+"/meta.json","w"),indent=1)
def demo():
    r=sh("bash %s/demo.sh"%D,cwd=S); return r.returncode,r.stdout
rc,out=demo()
print("demo clean:",rc)
if rc: print(out[-2500:]); sys.exit(1)
for f,o,n in ns["EDITS"]:
    p=S+"/"+f; t=open(p).read()
    assert t.count(o)==1,(f,t.count(o),o)
    open(p,"w").write(t.replace(o,n))
d=sh("git -C %s diff"%S).stdout
open(D+"/patch.diff","w").write(d)
rc,out=demo()
print("demo patched:",rc)
if rc==0 or "build failed" in out or "TestSeedDemo" not in out: print(out[-2500:])
if rc==0: sys.exit(1)
r=sh("git -C /repo apply --check %s/patch.diff"%D); print("apply:",r.returncode,r.stdout)
if "--notest" not in sys.argv:
    b=json.load(open("/opt/vp/BASELINE.json"))
    mods=sorted({f.split("/")[0] for f,_,_ in ns["EDITS"]}|({"gateway","client","provider","register","gateway-admin","provider-admin"} if any(f.startswith("common/") for f,_,_ in ns["EDITS"]) else set()))
    for m in mods:
        r=sh(". /opt/vp/env.sh; cd %s/%s && go build ./... && go test -count=1 ./... 2>&1 | grep -v 'no test files'"%(S,m))
        bad=[l for l in r.stdout.splitlines() if "FAIL" in l or "cannot" in l or "error" in l.lower()]
        print("tests",m,"ok" if not bad else bad[:6])
for p in [ns["PROP"]]+ns.get("ALSO",[]):
    if "--nocheck" in sys.argv: break
    if os.path.exists(V+"/checks/%s.json"%p):
        import time; t=time.time()
        r=sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick bin/vrun %s quick"%(S,p),cwd=V)
        print("check",p,"rc",r.returncode,"%.0fs"%(time.time()-t),[l[:200] for l in r.stdout.splitlines() if "VIOLATION" in l][:2])
        if r.returncode not in (0,1): print(r.stdout[-1500:])
shutil.rmtree(S)
