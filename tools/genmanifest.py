#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the harnesses
# present: a property with a harness is claimed, one without is listed under
# not_applicable with the reason given here.
import json, os, re, glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}
bounds={}
# the texts given to sym.Bound: literals and package constants joined by +
LIT=r'"(?:[^"\\]|\\.)*"'
def texts(body,consts):
    out=[]
    for m in re.finditer(r'sym\.Bound\(((?:%s|(?:vh\.)?\w+|\s*\+\s*)+)\)'%LIT,body):
        t=""
        for part in re.findall(r'%s|(?:vh\.)?\w+'%LIT,m.group(1)):
            t+=json.loads(part) if part[0]=='"' else consts[part]
        out.append(t)
    assert len(out)==body.count("sym.Bound("),body
    return out
VH={"vh."+m.group(1):json.loads(m.group(2)) for m in re.finditer(r'const (\w+)\s+=\s+(%s)\n'%LIT,open(here+"/zzverif/vh/long.go").read())}
for d in sorted(set(os.path.dirname(f) for f in glob.glob(here+"/harness/**/*.go",recursive=True))):
    fs=sorted(glob.glob(d+"/*.go")); consts=dict(VH)
    for f in fs:
        for m in re.finditer(r'(?:const )?(\w+)\s+=\s+(%s)\n'%LIT,open(f).read()): consts[m.group(1)]=json.loads(m.group(2))
    for f in fs:
        for m in re.finditer(r'^func (Verif_(C\d+)_\w+)\(\) \{(.*?)^\}',open(f).read(),re.S|re.M):
            bounds.setdefault(m.group(2),[]).extend(texts(m.group(3),consts))
checks=[];na=[]
for l in open(here+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    if i not in bounds:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet"))); continue
    sched=" with the schedule as a symbolic choice" if "schedules" in p["quantifier"]["over"] else ""
    checks.append(dict(property=i,
      quick_cmd="bash check.sh %s quick"%i, thorough_cmd="bash check.sh %s thorough"%i,
      technique="symbolic execution of the repository's Go SSA%s, assertions decided by cvc5 (thorough: cross-checked with z3), counterexamples replayed on the real code"%sched,
      level="model_checking",
      level_note="Decided by the solver for every value within these bounds, nothing outside them: "+"; ".join(dict.fromkeys(bounds[i]))+". Trusts the SSA interpreter (checked on each run by executing sampled paths natively), the stubs for os, time, json, hashes, net and gocui, and the solver."))
m=dict(version=1,setup_cmd="bash gosym/build.sh",checks=checks,not_applicable=na,
  notes="No hooks are needed in /repo: harnesses are laid over the packages with a Go build overlay. Known findings and fixed defects: known-findings.txt.")
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
print(len(checks),"claimed;",[x["property"] for x in na])
