#!/usr/bin/env python3
# plant.py: helper to plant a bug (import plant and call plant(...)). Makes the patch in a scratch copy
# of /repo, confirms that it builds, passes the stable tests, and that the demo
# fails with it and passes without it; writes /verif/seeded/<id>/.
import os,subprocess,json,shutil,sys
V=os.environ.get("SEEDED","/verif/seeded/")
DEMO='''#!/bin/bash
# Run in /repo: exit 0 when the behaviour is right, non-zero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/sardir"; export SARDIR="$tmp/sardir" DEMO_TMP="$tmp" DEMO_REPO="$repo"
python3 - "$tmp/o.json" "$repo" "$here" <<'P'
import json,sys,os
out,repo,here=sys.argv[1:4]
r={}
base="/opt/vp/gomod/overlay.json"
if os.path.exists(base): r.update(json.load(open(base)).get("Replace",{}))
r[repo+"/@PKG@/zz_demo_test.go"]=here+"/demo_test.go"
json.dump({"Replace":r},open(out,"w"))
P
export GOFLAGS=-overlay="$tmp/o.json"
cd "$repo/@PKG@" && timeout 250 go test -vet=off -count=1 -run TestZZDemo@EXTRA@ .
'''
def sh(c,cwd=None,env=None,**k):
    return subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def runin(repo,demo):
    # demos name /repo through $PWD; the go.work overlay needs /repo itself
    return sh("bash %s"%demo,cwd="/repo")
def plant(id,prop,edits,pkg,demo,needs,breaks,extra="",demosh=None):
    d=V+id; os.makedirs(d,exist_ok=True)
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(),"dirty repo"
    if demo: open(d+"/demo_test.go","w").write(demo)
    open(d+"/demo.sh","w").write((demosh or DEMO).replace("@PKG@",pkg).replace("@EXTRA@",extra))
    os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    ok=True
    r=sh("bash %s/demo.sh"%d,cwd="/repo")
    if r.returncode!=0: print(id,"demo FAILS on unchanged tree\n",r.stdout[-1500:]); ok=False
    try:
        for path,old,new in edits:
            p="/repo/"+path; s=open(p).read()
            if s.count(old)<1: raise Exception("text not found in %s: %r"%(path,old))
            if s.count(old)>1: raise Exception("text %d times in %s: %r"%(s.count(old),path,old))
            open(p,"w").write(s.replace(old,new))
        diff=sh("git -C /repo diff").stdout
        open(d+"/patch.diff","w").write(diff)
        b=sh("bash /opt/vp/build.sh")
        if b.returncode: print(id,"does not build\n",b.stdout[-1500:]); ok=False
        t=sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        o=json.load(open("/tmp/plant_out.json")); base=json.load(open("/opt/vp/BASELINE.json"))
        st=base.get("stable") or base.get("passed") or base
        passed=set(o.get("passed",[]))
        names=[x for x in (st if isinstance(st,list) else [])]
        miss=[n for n in names if n not in passed]
        if miss: print(id,"breaks tests",miss); ok=False
        r=sh("bash %s/demo.sh"%d,cwd="/repo")
        if r.returncode==0: print(id,"demo PASSES with the change"); ok=False
        else: print(id,"demo fails as it should:",[l for l in r.stdout.splitlines() if "demo" in l.lower() or "panic" in l][:2])
    finally:
        sh("git -C /repo checkout -- .")
    print(id,"OK" if ok else "NOT OK")
    return ok
