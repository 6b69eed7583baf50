#!/usr/bin/env python3
"""seed.py ID... : makes seeded/<ID>/ from bin/seeds.py after confirming it in a scratch copy of /repo."""
import sys,os,subprocess,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/bin')
import seeds
S='/tmp/seedcopy'
DEMO='''#!/bin/bash
# exit 0 when the crate in the current directory behaves as the property says
set -e
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; [ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rphonetic = { path = "$repo", features = ["embedded"] }
[profile.dev]
opt-level = 1
[workspace]
T
cd "$d"
CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline --quiet
'''
def run(cmd,cwd=None,t=900): return subprocess.run(cmd,cwd=cwd,capture_output=True,text=True,timeout=t)
def sync():
    if os.path.exists(S): subprocess.run(['rm','-rf',S])
    subprocess.run(['cp','-a','/repo',S],check=True)
def probe(exprs,pre):
    """the values of the expressions on the unchanged tree, as a demo asserting them"""
    body='use rphonetic::*;\n'+pre+'fn main() {\n'
    d='/tmp/seedprobe'; os.makedirs(d+'/src',exist_ok=True); shutil.copy('/repo/Cargo.lock',d+'/Cargo.lock')
    open(d+'/Cargo.toml','w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nrphonetic = { path = "/repo", features = ["embedded"] }\n[workspace]\n')
    open(d+'/src/main.rs','w').write(body+''.join('    println!("{:?}", %s);\n'%e for e in exprs)+'}\n')
    r=run(['cargo','run','--offline','--quiet'],d)
    if r.returncode!=0: print(r.stderr[-2000:])
    v=r.stdout.split('\n')
    for e,x in zip(exprs,v): print('   ',e,'=>',x[:200])
    return body+''.join('    assert_eq!(format!("{:?}", %s), r###"%s"###);\n'%(e,x) for e,x in zip(exprs,v))+'}\n'
def main():
    ids=sys.argv[1:] or [i for i in seeds.SEEDS if not os.path.exists(V+'/seeded/'+i)]; sync()
    base=set(x for x in json.load(open('/opt/vp/BASELINE.json')).get('tests',[])) if False else None
    for i in ids:
        s=seeds.SEEDS[i]
        run(['git','checkout','--','.'],S)
        for f,old,new in s['edits']:
            p=S+'/'+f; t=open(p).read()
            if t.count(old)<1: print(i,'EDIT NOT FOUND',f,old[:60]); break
            if t.count(old)>1 and not s.get('multi'): print(i,'EDIT AMBIGUOUS',t.count(old),old[:60]); break
            open(p,'w').write(t.replace(old,new,1))
        else:
            d=V+'/seeded/'+i; os.makedirs(d,exist_ok=True)
            if isinstance(s['demo'],list): s['demo']=probe(s['demo'],seeds.BM if s.get('bm') else '')
            diff=run(['git','diff'],S).stdout
            open(d+'/patch.diff','w').write(diff); open(d+'/demo.sh','w').write(DEMO); open(d+'/demo.rs','w').write(s['demo']); os.chmod(d+'/demo.sh',0o755)
            json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
            t=run(['cargo','test','--workspace','--all-features','--offline','--','--test-threads','8'],S)
            t2=run(['cargo','test','--workspace','--offline','--','--test-threads','8'],S) if t.returncode==0 else t
            dm=run(['bash',d+'/demo.sh'],S)
            dc=run(['bash',d+'/demo.sh'],'/repo')
            ok=t.returncode==0 and t2.returncode==0 and dm.returncode!=0 and dc.returncode==0
            print(i,'OK' if ok else 'BAD','tests',t.returncode,t2.returncode,'demo mutated',dm.returncode,'clean',dc.returncode)
            if not ok: print((t.stdout[-1500:] if t.returncode else '')+(dc.stdout+dc.stderr)[-800:] if dc.returncode else '')
            if not ok: shutil.rmtree(d)
        run(['git','checkout','--','.'],S)
    subprocess.run(['rm','-rf',S,'/tmp/seedprobe'])
main()
