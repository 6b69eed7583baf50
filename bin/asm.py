#!/usr/bin/env python3
"""Assemble a Verus file: prelude + spec + extracted code.  usage: asm.py UNIT OUT"""
import sys, subprocess, re, os, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def char_lit(c):
    return {"'":"'\\''","\\":"'\\\\'","\n":"'\\n'","\r":"'\\r'","\t":"'\\t'"}.get(c,"'%s'"%c)
def expand_S(t, view=False):
    def f(m):
        s=m.group(1).encode().decode('unicode_escape').encode('latin1').decode('utf8') if '\\' in m.group(1) else m.group(1)
        if view and len(s)>1: return '"%s"@'%m.group(1)
        return "Seq::<char>::empty()" if s=="" else "seq![%s]"%", ".join(char_lit(c) for c in s)
    def g(m):
        return "("+" || ".join("%s == %s"%(m.group(1),char_lit(c)) for c in m.group(2))+")"
    t=re.sub(r'one_of\(((?:[^()",]|\([^()]*\)|\[[^\]]*\])*), "([^"]*)"\)',g,t)
    return re.sub(r'S!\("((?:[^"\\]|\\.)*)"\)',f,t)
STR_IMPL=None
def macros(t):
    def sigs(trait):
        m=re.search(r'pub trait %s(?:<T>)? \{(.*?)\n\}'%trait,t,re.S)
        out=[]
        for l in m.group(1).splitlines():
            l=l.strip()
            if not l.startswith('fn '): continue
            l=re.sub(r' (requires|ensures) .*','',l).rstrip(';')
            out.append('    #[verifier::external_body] '+l+' { unimplemented!() }')
        return '\n'.join(out)
    def f(m):
        return 'impl VxStr for %s {\n    open spec fn sv(&self) -> Seq<char> { self@ }\n    open spec fn vs_len(&self) -> int { blen(self@) }\n    open spec fn vs_contains<P: VxPat>(&self, p: P) -> bool { scontains(self@, p.pv()) }\n    open spec fn vs_starts_with<P: VxPat>(&self, p: P) -> bool { sstarts(self@, p.pv()) }\n    open spec fn vs_ends_with<P: VxPat>(&self, p: P) -> bool { sends(self@, p.pv()) }\n    open spec fn vs_is_empty(&self) -> bool { self@.len() == 0 }\n%s\n}'%(m.group(1),sigs('VxStr'))
    def g(m):
        a=m.group(1).split(', '); ty=a[0]; gen=''
        if len(a)>1: gen=', '+a[1]
        return 'impl<T%s> VxSlice<T> for %s {\n    open spec fn slv(&self) -> Seq<T> { self@ }\n%s\n}'%(gen,ty,sigs('VxSlice'))
    def h(m):
        ty,body=m.group(1),m.group(2); body='self@.contains(*x)' if body.startswith('contains') else 'has_str(self@, *x)'
        return '\n'.join("impl<'a%s> VxContains<%s> for %s { open spec fn vs_contains(&self, x: &%s) -> bool { %s } #[verifier::external_body] fn vx_contains(&self, x: &%s) -> (r: bool) { unimplemented!() } }"%(g,ty,s,ty,body,ty) for g,s in ((', const N: usize','[%s; N]'%ty),('','Vec<%s>'%ty),('','[%s]'%ty)))
    t=re.sub(r'MACRO_CONTAINS!\((.*), (.*\))\)',h,t)
    t=re.sub(r'MACRO_STR!\((.*)\)',f,t)
    return re.sub(r'MACRO_SLICE!\((.*)\)',g,t)
def read(p): return macros(open(os.path.join(V,'verus',p)).read())
def assemble(unit, out, repo='/repo', vacuity=False):
    ux=os.path.join(V,'verus/units',unit+'.vx')
    use=[l.split()[1:] for l in open(ux) if l.startswith('@use')]
    use=[x for u in use for x in u]
    view='@litview' in open(ux).read()
    tmp=out+'.ext'
    r=subprocess.run([os.path.join(V,'extract/target/release/extract'),'--repo',repo,'--contracts',ux,'--out',tmp,'--meta',out+'.json','--base',os.path.join(V,'verus/baseline_fns.txt')]+(['--vacuity'] if vacuity else []),capture_output=True,text=True)
    lost=[l for l in r.stderr.splitlines()]
    parts=["#![allow(non_snake_case, unused)]\nuse vstd::prelude::*;\n#[allow(unused_imports)] use vstd::slice::*;\nverus! {\n"]
    for p in ['prelude/core.rs','prelude/seq.rs']+[u for u in use]:
        parts.append("// ======== %s ========\n"%p+expand_S(read(p),view))
    if view:
        import json as _j
        L=sorted(set(x for u in use for x in re.findall(r'S!\("((?:[^"\\]|\\.)+)"\)',read(u)) if len(x)>1))
        parts.append("pub proof fn vx_spec_lits() ensures true, %s { %s }"%(" ".join('"%s"@.len() == %d, "%s"@[0] == %s, "%s"@.last() == %s, is_ascii_seq("%s"@),'%(x,len(x),x,char_lit(x[0]),x,char_lit(x[-1]),x) for x in L)," ".join('reveal_strlit("%s"); assert("%s"@ =~= seq![%s]); assert(is_ascii_seq("%s"@)) by { reveal(is_ascii_seq); }'%(x,x,", ".join(char_lit(c) for c in x),x) for x in L)))
    body=open(tmp).read()
    if vacuity:
        import itertools
        n=itertools.count()
        body="pub uninterp spec fn vx_vac(n: int) -> bool;\n"+re.sub('VXVACID',lambda m: str(next(n)),body)
    parts.append("// ======== extracted ========\n"+body)
    parts.append("\nfn main() {}\n}\n")
    open(out,'w').write("\n".join(parts))
    return lost,r.returncode
if __name__=='__main__':
    l,rc=assemble(sys.argv[1],sys.argv[2])
    print("\n".join(l)); sys.exit(rc)
