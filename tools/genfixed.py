#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known-findings.txt from /repo's fix commits.
import subprocess,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","363ba41.."],text=True).splitlines()
RT={"data":"C01","status":"C02","metadata":"C03","request":"C04","beacon":"C05","dirent":"C06","timestamp":"C07"}
out=[]
for l in log:
    h,s=l.split(" ",1)
    m=re.match(r"fix: (?:(\w+): )?(.*)",s); pkg,w=m.group(1) or "saratoga",m.group(2)
    P=[]
    m2=re.search(r"\[(C\d+(?:,C\d+)*)\]",s)
    if m2: P=m2.group(1).split(",")
    elif pkg=="sarflags": P=["C21"] if "ReadConfig" in w else ["C19"] if "CopyCli" in w else ["C20"] if "list" in w else ["C08"]
    elif pkg=="fileio": P=["C23"] if "outside" in w else ["C22"]
    elif "NewPeer" in w: P=["C15"]
    elif pkg in("sarwin","trans","saratoga"):
        P=["C18"] if re.search("command|txwilling|line",w,re.I) else ["C14"] if "WriteStatus" in w or "status" in w.lower() and pkg=="sarwin" else ["C16"] if "NewInitiator" in w else ["C17"] if pkg=="sarwin" else ["C24"] if pkg=="trans" else ["C25"]
    elif "too short" in w or "shorter than" in w: P=["C08"]
    elif "earlier frame" in w and "Decode" in w: P=["C09"]
    elif "modification time" in w or "file name it is given" in w or "checksum type" in w or "kind and size" in w or "without a csumtype" in w: P=["C27"]
    elif "free space that fits 64" in w: P=["C26"]
    elif re.search(r"^(New|Make)",w) and pkg!="timestamp" : P=["C12"]
    else: P=[RT.get(pkg,"C08")]
    for p in P: out.append("fixed: property=%s %s %s: %s"%(p,h,pkg,re.sub(r" ?\[C[\d,C]+\]","",w)))
f=here+"/known-findings.txt"
keep=[l for l in (open(f).read().splitlines() if os.path.exists(f) else []) if not l.startswith("fixed:")]
if not keep: keep=["# open:  genuine defects recorded and not repaired: the exact harness and assertion that fails","# fixed: defects repaired by a fix: commit in /repo; these suppress nothing"]
open(f,"w").write("\n".join(keep+out)+"\n")
