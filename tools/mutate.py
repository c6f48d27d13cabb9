#!/usr/bin/env python3
# mutate.py FILE [-j N] [ids...]: FILE defines M=[(id, prop, path, old, new)...].
# An entry may also be (id, prop, [(path, old, new)...]).
# Applies each change to a copy of /repo, in a mount namespace of its own in
# which the copies stand where /repo and /verif do, and runs the property's
# quick check. Prints what was caught. For development: not a check.
import sys,subprocess,os,shutil,threading,queue,time
a=sys.argv[1:]; j=2
if '-j' in a: i=a.index('-j'); j=int(a[i+1]); del a[i:i+2]
ns={}; exec(open(a[0]).read(),ns); M=ns['M']
if a[1:]: M=[m for m in M if m[0] in a[1:] or m[1] in a[1:]]
q=queue.Queue()
for m in M: q.put(m)
def work(i):
    w='/tmp/mw/%d'%i
    os.makedirs(w,exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude','/work','--exclude','/seeded','/verif/',w+'/verif/'] if shutil.which('rsync') else ['bash','-c','rm -rf %s/verif; cp -a /verif %s/verif'%(w,w)])
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        id,prop=m[:2]
        edits=m[2] if isinstance(m[2],list) else [m[2:5]]
        subprocess.run(['bash','-c','rm -rf %s/repo; cp -a /repo %s/repo'%(w,w)])
        n=m[5] if len(m)>5 else 1
        bad=False
        for path,old,new in edits:
            p=w+'/repo/'+path; s=open(p).read()
            if s.count(old)!=n: print(id,'EDIT DOES NOT APPLY',s.count(old),flush=True); bad=True; break
            open(p,'w').write(s.replace(old,new))
        if bad: continue
        t=time.time()
        r=subprocess.run(['unshare','-m','bash','-c','mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif; bash check.sh %s quick'%(w,w,prop)],capture_output=True,text=True)
        v=[l for l in r.stdout.splitlines() if l.startswith('  Verif_')]
        print(id,prop,{0:'MISSED',1:'caught'}.get(r.returncode,'ERROR %d'%r.returncode),'%.0fs'%(time.time()-t),(v[0].strip()[:110] if v else (r.stdout+r.stderr)[-300:] if r.returncode!=1 else ''),flush=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(j)]
[t.start() for t in ts];[t.join() for t in ts]
subprocess.run(['rm','-rf','/tmp/mw'])
