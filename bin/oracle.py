#!/usr/bin/env python3
"""Compile verus/spec/*.rs (the specification text the verifier reads) into ordinary Rust for the harness."""
import re, os, glob, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# the specification functions of the prelude (the vocabulary of the contracts of std items): compiled for the conformance tests
VDEF=[('core',['sfilter','smap','sflatten','senum','szip','sspan','ssplit','sfind','swords','sinsert','sstable','alow','aup','is_az','is_AZ','is_09','clen','blen','sindices','cidx','is_ascii_seq','sstarts','sends','sreplace','sreplace1','scontains','strim_start','strim_end','strim','sjoin','srange']),('sets',['slt']),('nom',['nom_tag','nom_span'])]
def rustify(t):
    t=re.sub(r'^\s*#\[verifier[^\n]*\n','',t,flags=re.M)
    t=t.replace('pub open spec fn','pub fn')
    t=re.sub(r'spec_fn\((\w+)\) -> (\w+)',r'impl Fn(\1) -> \2 + Copy',t)
    t=re.sub(r'^\s*decreases [^\n]*\n','',t,flags=re.M)
    t=re.sub(r'seq!\[',r'sq![',t)
    t=t.replace('<T>(','<T: Copy + \'static>(').replace('<T, U>(','<T: Copy + \'static, U: Copy + \'static>(')
    t=t.replace('forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80','(0..s.len()).all(|i| (s[i] as u32) < 0x80)').replace('1 <= n <= s.len()','1 <= n && n <= s.len()').replace(' as nat','').replace('((c as u32) + 32) as char','char::from_u32((c as u32) + 32).unwrap()').replace('((c as u32) - 32) as char','char::from_u32((c as u32) - 32).unwrap()')
    return t
def gen_vdef():
    out=["// GENERATED from verus/prelude by bin/oracle.py - do not edit\nuse crate::rt::{Seq, int, sq, is_ws};\n"]
    for f,names in VDEF:
        t=open(V+'/verus/prelude/%s.rs'%f).read()
        for n in names:
            m=re.search(r'pub open spec fn %s\b.*?(?=\n(?:pub|///|//|#|impl|\}|\n))'%n,t,flags=re.S)
            body=m.group(0)
            if body.count('{')!=body.count('}') or '{' not in body:
                i=m.start(); j=t.index('{',t.index('\n{',i)-0) if body.count('{')==0 else t.index('{',i); d=0
                for k in range(j,len(t)):
                    d+=(t[k]=='{')-(t[k]=='}')
                    if d==0: break
                body=t[i:k+1]
            out.append(rustify(body))
    write(V+'/harness/gen/vdef.rs',"\n".join(out))
def write(p,s):
    os.makedirs(os.path.dirname(p),exist_ok=True)
    if not os.path.exists(p) or open(p).read()!=s: open(p,'w').write(s)
def gen():
    gen_vdef()
    out=["// GENERATED from verus/spec/*.rs by bin/oracle.py - do not edit\nuse crate::rt::*;\nuse crate::S;\n"]
    for f in sorted(glob.glob(V+'/verus/spec/*.rs')):
        t=open(f).read()
        if t.startswith('// no-oracle'): continue
        t=re.sub(r'// verus-only-begin.*?// verus-only-end','',t,flags=re.S)
        t=re.sub(r'//#rust ','',t)
        t=re.sub(r'^#\[verifier[^\n]*\n','',t,flags=re.M)
        t=t.replace('pub open spec fn','pub fn').replace('spec_fn','impl Fn')
        t=re.sub(r'^\s*decreases [^\n]*\n','',t,flags=re.M)
        t=re.sub(r'one_of\(((?:[^()",]|\([^()]*\)|\[[^\]]*\])*), ("[^"]*")\)',r'\2.contains(\1)',t)
        t=re.sub(r'seq!\[',r'sq![',t)
        t=re.sub(r'\b(\d+)int\b',r'\1',t)
        out.append("// ---- %s ----\n%s"%(os.path.basename(f),t))
    s="\n".join(out)
    p=V+'/harness/gen/oracle.rs'
    os.makedirs(os.path.dirname(p),exist_ok=True)
    if not os.path.exists(p) or open(p).read()!=s: open(p,'w').write(s)
if __name__=='__main__': gen()
