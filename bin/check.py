#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's current working tree.

1. extract the functions under contract from /repo (extract/), assemble them with the prelude,
   the specifications and the contracts (verus/), and let Verus discharge every obligation;
2. run the specification functions, compiled as Rust, against the real crate (harness/) to replay
   violations and to stand in, bounded, for a unit the verifier could not read.

exit 0: every obligation discharged (or, when the unit could not be decided, nothing found: evidence says so)
exit 1: VIOLATION line.
"""
import sys, os, json, subprocess, time, re, threading, hashlib, shutil, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'bin'))
import asm, oracle, table
REPO=os.environ.get('VERIF_REPO','/repo')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
TIER=os.environ.get('VERIF_TIER','quick')
if TIER not in ('quick','thorough'): TIER='quick'
NCPU=os.cpu_count() or 8
SEMANTIC=('postcondition not satisfied','precondition not satisfied','invariant not satisfied','assertion failed','possible arithmetic','decreases not satisfied','loop ensures not satisfied','possible division by zero','possible bit shift','could not prove termination','unable to prove assertion','recommendation not met','failed this postcondition','fails to satisfy')
PANIC=('precondition not satisfied','possible arithmetic','decreases not satisfied','possible division by zero','could not prove termination','possible bit shift')
ENV=dict(os.environ,CARGO_NET_OFFLINE='true')
def sh(cmd,timeout=None,cwd=None):
    try:
        r=subprocess.run(cmd,capture_output=True,text=True,timeout=timeout,cwd=cwd,env=ENV)
        return r.returncode,r.stdout,r.stderr
    except subprocess.TimeoutExpired as e:
        return 124,(e.stdout or b'').decode() if isinstance(e.stdout,bytes) else (e.stdout or ''),'timeout'
def build_extract():
    rc,o,e=sh(['cargo','build','--release','--offline','--quiet'],600,os.path.join(V,'extract'))
    if rc!=0: print(e[-3000:]); sys.exit(3)
def build_harness():
    oracle.gen()
    rc,o,e=sh(['cargo','build','--release','--offline','--quiet'],800,os.path.join(V,'harness'))
    if rc!=0: return False,(e or o)[-4000:],None
    rc,o,e=sh([os.path.join(V,'harness/target/release/harness'),'conform','--seed',str(SEED),'--seconds','3' if TIER=='quick' else '60','--repo',REPO],300)
    try: c=json.loads(o)
    except Exception: c={'contracts':0,'evaluations':0,'names':[],'failures':['conformance tests ended: '+(e or o)[-300:]]}
    return True,'',c
def is_semantic(m): return any(x in m for x in SEMANTIC)
def is_panic(m): return any(x in m for x in PANIC)
def fn_of_line(lines,n):
    """(origin 'src/x.rs:12' or None, function name) enclosing line n (1-based) of the assembled file"""
    name=None
    for i in range(min(n,len(lines))-1,-1,-1):
        m=re.match(r'\s*(?:pub\s+|broadcast\s+|open\s+|closed\s+|proof\s+|spec\s+)*fn\s+(\w+)',lines[i])
        if m and name is None: name=m.group(1)
        m2=re.match(r'// (src/\S+:\d+)',lines[i])
        if name is not None and m2: return m2.group(1),name
        if lines[i].startswith('// ======== ') and name is not None: return None,name
    return None,name or '?'
def fn_head(lines,n):
    for i in range(min(n,len(lines))-1,-1,-1):
        if re.match(r'\s*(?:pub\s+|broadcast\s+|open\s+|closed\s+|proof\s+|spec\s+)*fn\s+\w+',lines[i]): return lines[i]
    return ''
def drop_asserts(t,places):
    """the text without the assertions that stand at (or right before) these places; None when one is not found"""
    starts=[0]
    for m in re.finditer('\n',t): starts.append(m.end())
    cut=set()
    for l,c in places:
        p=starts[l-1]+c-1
        a=max(t.rfind('assert(',0,p+7),t.rfind('assert forall',0,p+13))
        if a<0 or p-a>2000: return None
        i=a; d=0
        while i<len(t):
            ch=t[i]
            if ch=="'":
                m=re.match(r"'(\\.[^']*|[^\\])'",t[i:])
                if m: i+=m.end(); continue
            if ch=='"':
                m=re.match(r'"(\\.|[^"\\])*"',t[i:])
                if m: i+=m.end(); continue
            if t.startswith('//',i): i=t.index('\n',i); continue
            if ch in '([{': d+=1
            elif ch in ')]}':
                d-=1
                if d==0 and ch=='}' and re.match(r'\s*;?',t[i+1:]) and not t[i+1:].lstrip().startswith((';',')')): i+=1; break
            elif ch==';' and d==0: i+=1; break
            i+=1
        cut.add((a,i))
    for a,i in sorted(cut,reverse=True): t=t[:a]+'/* dropped */'+'\n'*t[a:i].count('\n')+t[i:]
    return t
class Unit:
    def __init__(s,name): s.name=name; s.lost=[]; s.fns=[]; s.errors=[]; s.other=[]; s.verified=0; s.smt_ms=0; s.wall=0; s.vac=[]; s.vac_checked=0; s.vac_unknown=0; s.trusted=[]; s.rlimit=False; s.inlined=[]; s.renamed=[]; s.dropped=0; s.misfit=[]; s.text=''; s.raw=''
    def run(s,work):
        t0=time.time()
        out=os.path.join(work,s.name+'.rs')
        s.lost,rc=asm.assemble(s.name,out,REPO)
        s.lost=[l for l in s.lost if l.strip()]
        if rc!=0: s.other.append('extraction failed'); s.wall=time.time()-t0; return
        meta=json.load(open(out+'.json'))
        s.fns=meta['fns']; s.inlined=meta.get('inlined',[]); s.renamed=meta.get('renamed',[])
        s.text=open(out).read(); lines=s.text.split('\n')
        s.verify(out,lines)
        # a hint of ours that fails says nothing by itself: whether the contracts follow without it does
        for _ in range(4):
            bad=[e for e in s.errors if e['hint']]
            if not bad or s.other or time.time()-t0>150: break
            keep=(s.errors,s.other,s.rlimit,s.verified,s.smt_ms,s.raw)
            t=drop_asserts(open(out).read(),[e['hint'] for e in bad])
            if t is None: break
            open(out,'w').write(t); s.text=t; lines=t.split('\n')
            s.verify(out,lines)
            if s.other:
                s.errors,s.other,s.rlimit,s.verified,s.smt_ms,s.raw=keep; break
            s.dropped+=len(bad)
        # an invariant of a loop that has another form now fits nothing any more
        inv=[e for e in s.errors if e['function'] in meta.get('loops_changed',[]) and e['origin'] and re.search('invariant not satisfied|decreases not satisfied|loop ensures not satisfied',e['kind'])]
        if inv:
            # what else fails in such a function fails for want of these invariants
            lost={e['function'] for e in inv}
            inv=[e for e in s.errors if e['function'] in lost]
            s.errors=[e for e in s.errors if e['function'] not in lost]
            if not s.errors: s.misfit=['%s: %s'%(e['function'],e['kind']) for e in inv]
        s.trusted=sorted(set(re.findall(r'external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)',s.text)))
        s.assumes=len(re.findall(r'\b(assume|admit)\s*\(',re.sub(r'//[^\n]*','',s.text)))
        s.wall=time.time()-t0
    def verify(s,out,lines):
        s.errors=[]; s.other=[]; s.rlimit=False
        rlimit='100' if TIER=='quick' else '300'
        rc,o,e=sh(['verus',out,'--rlimit',rlimit,'--multiple-errors','8','--output-json','--time','--error-format=json','--num-threads','4'],420 if TIER=='quick' else 1500)
        s.raw=e[-20000:]
        if rc==124: s.rlimit=True; s.other.append('verifier timeout')
        try:
            j=json.loads(o[o.index('{'):])
            vr=j.get('verification-results',{})
            s.verified=vr.get('verified',0)
            s.smt_ms=j.get('times-ms',{}).get('smt',{}).get('total',0) if isinstance(j.get('times-ms'),dict) else 0
            s.encountered=vr.get('encountered-vir-error',False)
        except Exception: s.encountered=True
        for l in e.splitlines():
            try: d=json.loads(l)
            except Exception: continue
            if d.get('level')!='error': continue
            m=d.get('message','')
            if m.startswith('aborting due to'): continue
            sp=d.get('spans',[])
            prim=[x for x in sp if x.get('is_primary')] or sp
            loc=None
            best=None
            for x in sp:
                if os.path.basename(x.get('file_name',''))!=s.name+'.rs': continue
                org,fn=fn_of_line(lines,x['line_start'])
                src=lines[x['line_start']-1].strip() if x['line_start']<=len(lines) else ''
                cand=(org,fn,x['line_start'],src,x.get('label') or '')
                if org and (best is None or not best[0] or 'at the end of' in cand[4] or x.get('is_primary')): best=best if (best and best[0] and not x.get('is_primary') and 'at the end' not in cand[4]) else cand
                elif best is None: best=cand
            spans=[{'line':x['line_start'],'label':x.get('label') or '','text':(lines[x['line_start']-1].strip() if x['line_start']<=len(lines) else '')[:200]} for x in sp if os.path.basename(x.get('file_name',''))==s.name+'.rs']
            rec={'unit':s.name,'kind':m,'function':best[1] if best else '?','origin':best[0] if best else None,'at':best[3][:200] if best else '','spans':spans}
            rec['hint']=(prim[0]['line_start'],prim[0]['column_start']) if m.startswith('assertion failed') and prim and rec['origin'] and os.path.basename(prim[0]['file_name'])==s.name+'.rs' and not re.search(r'\bproof fn|\bbroadcast',fn_head(lines,prim[0]['line_start'])) else None
            if 'rlimit' in m or 'Resource limit' in m: s.rlimit=True; s.other.append(m); continue
            if is_semantic(m): s.errors.append(rec)
            else: s.other.append(m+' @ '+rec['at'])
        if rc!=0 and not s.errors and not s.other and rc!=124: s.other.append('verifier exit %d: %s'%(rc,e[-400:]))
    def vacuity(s,work):
        """every function entry and loop head must be reachable: assert(false) there has to fail"""
        out=os.path.join(work,s.name+'_vac.rs')
        asm.assemble(s.name,out,REPO,vacuity=True)
        t=open(out).read(); marks={}
        for i,l in enumerate(t.split('\n')):
            for m in re.finditer(r'/\*VXVAC (\S+) (\S+)\*/',l): marks[i+1]=(m.group(1),m.group(2))
        rc,o,e=sh(['verus',out,'--rlimit','5','--multiple-errors','60','--error-format=json','--num-threads','4'],150)
        hit=set(); incomplete=False; unknown=set()
        vl=t.split('\n')
        for l in e.splitlines():
            try: d=json.loads(l)
            except Exception: continue
            if d.get('level')!='error': continue
            m=d.get('message','')
            if 'assertion failed' in m:
                for x in d.get('spans',[]): hit.add(x['line_start'])
            elif 'rlimit' in m or 'Resource limit' in m:
                for x in d.get('spans',[]): unknown.add(fn_of_line(vl,x['line_end'])[1]); unknown.add(fn_of_line(vl,x['line_start']+1)[1])
            elif not is_semantic(m) and not m.startswith('aborting'): incomplete=True
        s.vac_checked=len(marks)
        if rc==124: incomplete=True
        left=[(k,v) for k,v in marks.items() if k not in hit and not (unknown and fn_of_line(vl,k)[1] in unknown)]
        s.vac_unknown=len(marks) if incomplete else len([k for k in marks if k not in hit])-len(left)
        s.vac=[] if incomplete else ['%s %s'%v for k,v in left]
    @property
    def baseline_fns(s): return set(BASE.get(s.name,{}).get('uncontracted',[]))
    def new_helpers(s):
        return [f['name'] for f in s.fns if not f['contract'] and f['name'] not in s.baseline_fns]+s.inlined
    def status(s):
        if s.other and (s.encountered_error() or not s.rlimit): return 'undecided'
        if s.misfit: return 'undecided'
        # a hint or an invariant that found no place to stand says nothing when everything is proved without it; a contract that is gone does
        hints=[l for l in s.lost if re.search(r'anchor not found|(loop|closure) \d+ not found|loops in the code|closure \d+: \d+ param|loop in a function without',l)]
        if s.lost or s.new_helpers(): return 'undecided' if s.errors or s.rlimit or s.other or len(hints)<len(s.lost) else 'proved'
        if s.errors: return 'failed'
        if s.rlimit or s.other: return 'undecided'
        if s.verified==0: return 'undecided'
        return 'proved'
    def encountered_error(s): return any('rlimit' not in x and 'Resource limit' not in x for x in s.other)
try: BASE=json.load(open(os.path.join(V,'verus/baseline.json')))
except Exception: BASE={}
def known():
    out=[]
    p=os.path.join(V,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'finding: property=(\S+) (\{.*\}) (.*)',l.strip())
            if m: out.append((m.group(1),json.loads(m.group(2)),m.group(3)))
    return out
def main():
    pid=sys.argv[1]; P=table.PROPS[pid]
    t0=time.time()
    work=tempfile.mkdtemp(prefix='verif-%s-'%pid)
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True)
    try: return decide(pid,P,work,t0)
    finally: shutil.rmtree(work,ignore_errors=True)
def decide(pid,P,work,t0):
    hb={}
    th=threading.Thread(target=lambda: hb.update(zip(('ok','log','conform'),build_harness())))
    th.start()
    build_extract()
    units=[Unit(u) for u in P['units']]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        fs=[ex.submit(u.run,work) for u in units]
        [f.result() for f in fs]
        fs=[ex.submit(u.vacuity,work) for u in units if u.status()=='proved' and P.get('vacuity',True)]
        [f.result() for f in fs]
    th.join()
    kinds=P.get('kinds','all')
    fails=[]; undecided=[]
    for u in units:
        st=u.status()
        if st=='undecided': undecided.append({'unit':u.name,'lost':(u.lost+u.misfit)[:10],'new_helpers':u.new_helpers()[:10],'other':u.other[:5],'errors':len(u.errors)})
        if u.vac: undecided.append({'unit':u.name,'vacuous':u.vac[:10]})
        for e in u.errors:
            if st=='failed' and kinds=='all': fails.append(e)
        # totality: only when everything else about the unit is proved is a panic obligation that fails one for itself
        if st=='failed' and kinds=='panic':
            pn=[e for e in u.errors if is_panic(e['kind'])]
            if len(pn)==len(u.errors): fails+=pn
            else: undecided.append({'unit':u.name,'other obligations fail':len(u.errors)-len(pn)})
        # lemmas over the contracts of the encoders (the first unit): a code that changed need not break them
        if st=='failed' and kinds=='own':
            if u is units[0]: fails+=u.errors
            else: undecided.append({'unit':u.name,'obligations fail':len(u.errors)})
    # assumed contracts, tested against the items themselves
    conform=hb.get('conform') or {}
    if conform.get('failures'): undecided.append({'assumed contracts that do not conform':conform['failures'][:5]})
    # differential evaluation / replay search
    diff=P.get('diff',[pid]); runs=[]; found=[]
    hard=bool(fails) or bool(undecided)
    secs=P.get('secs',8)*(1 if TIER=='quick' else 12) if not hard else max(80,P.get('secs',8)*4)*(1 if TIER=='quick' else 4)
    focus=['--focus',','.join(sorted({p for u in units if u.status()!='proved' for p in table.FOCUS.get(u.name,[])}))]
    if diff:
        if not hb.get('ok'):
            undecided.append({'harness':'does not build','log':hb.get('log','')[-1500:]})
        else:
            for d in diff:
                o=os.path.join(work,'run-%s.json'%d)
                rc,so,se=sh([os.path.join(V,'harness/target/release/harness'),'run','--property',d,'--seconds',str(secs/len(diff)),'--seed',str(SEED),'--repo',REPO,'--out',o]+focus,secs/len(diff)+120)
                if os.path.exists(o):
                    j=json.load(open(o)); runs.append(j); found+=j['failures']
                elif rc<0 and rc!=-9: found.append({'property':d,'cfg':'','a':'','b':'','what':'the process died: '+(se or '')[-300:]})
                # killed from outside (memory, operator), or an exit code: nothing is known
                else: undecided.append({'harness':'exit %d %s'%(rc,(se or '')[-300:])})
    kn=[]
    for k in known():
        if k[0]==pid: kn.append(k); print('KNOWN-FINDING: property=%s %s'%(pid,k[2]))
    found=[f for f in found if not any(all(f.get(x)==v for x,v in k[1].items()) for k in kn)]
    found=[f for f in found if not f['what'].startswith('harness panic')] 
    # evidence
    level=P.get('level','proof') if not undecided and not fails else 'exploration'
    fn_list=[]
    for u in units:
        for f in u.fns:
            if f['contract']: fn_list.append('%s (%s)%s'%(f['name'],f['file'],' TRUSTED' if f['trusted'] else ''))
    fn_list=sorted(set(fn_list))
    ev=sum(r['evaluations'] for r in runs); dn=sum(r['distinct'] for r in runs)
    samples=[s for r in runs for s in r['samples']][:6]
    trusted=sorted({t for u in units for t in u.trusted})
    cov={'units':[{'unit':u.name,'status':u.status(),'verified':u.verified,'failed':len(u.errors),'hints_dropped':u.dropped,'smt_ms':u.smt_ms,'wall_s':round(u.wall,1),'vacuity_probes':u.vac_checked,'vacuity_probes_undecided':u.vac_unknown} for u in units],
         'functions_under_contract':fn_list,'functions_without_contract':sorted({f['name'] for u in units for f in u.fns if not f['contract']}),
         'obligations':sum(u.verified+len(u.errors) for u in units),'discharged':sum(u.verified for u in units),
         'checker_cmd':'python3 bin/check.py %s (verus --rlimit %s on each unit, back end Z3)'%(pid,'100' if TIER=='quick' else '300'),
         'solver':'Z3 via Verus','solver_time_ms':sum(u.smt_ms for u in units),
         'trusted_base':['Verus, Z3, rustc front end','the extraction rules of extract/ (DESIGN.md)','64-bit usize; no object longer than 2^61','contracts of std items in verus/prelude/core.rs, assumed: '+', '.join(t for t in trusted if t.startswith('vx_')),'other external_body items: '+', '.join(t for t in trusted if not t.startswith('vx_'))]+P.get('trusted',[]),
         'assumed_contracts_tested':{'contracts':conform.get('contracts',0),'evaluations':conform.get('evaluations',0),'names':conform.get('names',[])},
         'assume_statements':sum(getattr(u,'assumes',0) for u in units),
         'evaluations':ev,'distinct_nontrivial':dn,'rule':'differential: the real crate against the compiled specification text; distinct (configuration, inputs, output) with a non-empty output','samples':samples if samples else [{'note':'no differential run for this property'}],
         'exhaustive':['%s: %d/%d short strings, %d/%d literal contexts'%(r['property'],r['exhaustive_done'],r['exhaustive_total'],r['context_done'],r['context_total']) for r in runs],
         'undecided':undecided[:8]}
    E={'property':pid,'tier':TIER,'seed':SEED,'level':level,'coverage':cov,'wall_s':round(time.time()-t0,1),'assumptions':cov['trusted_base'][1:3]+P.get('assume',[]),'violations':0}
    rc=0
    if found:
        f=found[0]
        h=hashlib.sha1(json.dumps(f,sort_keys=True).encode()).hexdigest()[:10]
        rp=os.path.join(V,'evidence','replay-%s-%s.json'%(pid,h))
        json.dump(dict(f,check=pid,failed_obligations=fails[:6],replay_with='harness/target/release/harness replay '+rp),open(rp,'w'),indent=1)
        print('%s: %s'%(f['property'],f['what']))
        for e in fails[:4]: print('  failed obligation: %s in %s (%s): %s'%(e['kind'],e['function'],e['origin'],e['at']))
        print('VIOLATION property=%s replay=%s'%(pid,rp)); rc=1; E['violations']=len(found)
    elif fails:
        rp=os.path.join(V,'evidence','replay-%s-obligation.json'%pid)
        raw={u.name:u.raw[-6000:] for u in units if u.errors}
        json.dump({'property':pid,'failed_obligations':fails[:10],'verifier_output':raw,'note':'no failing input found in %d evaluations'%ev},open(rp,'w'),indent=1)
        for e in fails[:4]: print('  failed obligation: %s in %s (%s): %s'%(e['kind'],e['function'],e['origin'],e['at']))
        print('VIOLATION property=%s replay=%s no-failing-input-found'%(pid,rp)); rc=1; E['violations']=len(fails)
    else:
        for x in undecided: print('UNDECIDED (bounded evaluation instead): %s'%json.dumps(x)[:600])
        print('%s: %d obligations discharged in %d units, %d evaluations; %.1f s'%(pid,cov['discharged'],len(units),ev,time.time()-t0))
    json.dump(E,open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
    return rc
if __name__=='__main__': sys.exit(main())
