#!/usr/bin/env python3
"""catch.py [seed|refac] [ID...]: runs the checks on each planted bug of seeded/ (or each behaviour-keeping edit of bin/refacs.py),
in a copy of /verif and of /repo under /tmp/catch. Appends to /tmp/catch-<kind>.log; with no ID, those not yet logged."""
import sys,os,subprocess,re,json,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/bin')
kind=sys.argv[1]; ids=sys.argv[2:]
W=os.environ.get('CATCH_DIR','/tmp/catch-'+kind); R=W+'/repo'; C=W+'/verif'
def run(cmd,cwd=None,env=None): return subprocess.run(cmd,cwd=cwd,capture_output=True,text=True,env=dict(os.environ,**(env or {})))
run(['mkdir','-p',W]); run(['rm','-rf',R,C]); run(['cp','-a','/repo',R]); run(['rm','-rf',R+'/target']) ; run(['mkdir','-p',C]); subprocess.run('git -C %s archive HEAD | tar x -C %s; mkdir -p %s/evidence; cp -a %s/extract/target %s/extract/ ; cp -a %s/harness/target %s/harness/'%(V,C,C,V,C,V,C),shell=True)
t=open(C+'/harness/Cargo.toml').read().replace('"/repo"','"%s"'%R); open(C+'/harness/Cargo.toml','w').write(t)
log=open('/tmp/catch-%s.log'%kind,'a')
done=open('/tmp/catch-%s.log'%kind).read()
jobs=[]
if kind=='seed':
    for i in sorted(os.listdir(V+'/seeded')):
        if ids and i not in ids or not ids and i+' ' in done: continue
        jobs.append((i,[json.load(open(V+'/seeded/'+i+'/meta.json'))['property']],None))
else:
    import refacs
    for i,props,edits in refacs.R:
        if ids and i not in ids or not ids and i+' ' in done: continue
        jobs.append((i,props,edits))
for i,props,edits in jobs:
    run(['git','checkout','--','.'],R); run(['git','clean','-fdq'],R)
    if edits is None: r=run(['git','apply',V+'/seeded/'+i+'/patch.diff'],R); bad=r.returncode
    else:
        bad=0
        for f,old,new in edits:
            p=R+'/'+f; t=open(p).read()
            if old not in t: bad=1; print(i,'NOT FOUND',old[:60],file=log,flush=True); break
            open(p,'w').write(t.replace(old,new,1))
        if not bad:
            t=run(['cargo','test','--all-features','--offline','--lib'],R)
            if t.returncode: bad=1; print(i,'BUILD/TEST FAILS',(t.stdout+t.stderr)[-600:],file=log,flush=True)
    if bad:
        if edits is None: print(i,'patch does not apply',file=log,flush=True)
        continue
    for p in props:
        t0=time.time(); c=run(['python3',C+'/bin/check.py',p],C,{'VERIF_REPO':R}); o=c.stdout
        v='noinput' if 'no-failing-input-found' in o else 'INPUT' if 'VIOLATION' in o else 'undecided' if 'UNDECIDED' in o else 'proved'
        print(i,p,'rc',c.returncode,v,'%ds'%(time.time()-t0),'|',(re.findall(r'UNDECIDED.*',o) or [''])[0][:300] if v=='undecided' else '' if v=='proved' else ' / '.join(o.splitlines()[:4])[:420] or c.stderr[-300:],file=log,flush=True)
run(['rm','-rf',W])
