#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/props_text.py and bin/table.py."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/bin')
import props_text, table
ps=[];ch=[];na=[]
for p in props_text.PROPS:
    ps.append({'id':p['id'],'title':p['title'],'statement':p['statement'],'quantifier':{'over':p['over'],'text':p['qtext']},'why_tests_cant':p['why'],'anchors':{'files':p['files'],'mechanism':[{'name':n,'where':w} for n,w in p['mech']],'hook_needed':p.get('hook')}})
    if p['id'] in table.PROPS:
        t=table.PROPS[p['id']]
        c={'property':p['id'],'quick_cmd':'python3 bin/check.py '+p['id'],'thorough_cmd':'VERIF_TIER=thorough python3 bin/check.py '+p['id'],'technique':'contract-based deductive verification of the extracted source (Verus/Z3)'+t.get('tech',''),'level':t.get('level','proof'),'level_note':t.get('note','')+' Assumes the contracts of the std items in verus/prelude/core.rs, 64-bit usize, and the extraction rules listed in DESIGN.md; when the verifier cannot read a changed unit the run falls back to bounded differential evaluation and its evidence says so.'}
        if t.get('theorems'): c['theorems']=t['theorems']
        ch.append(c)
    else: na.append({'property':p['id'],'reason':p['na']})
open(V+'/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in ps))
m={'version':1,'setup_cmd':'bash bin/setup.sh','checks':ch,'not_applicable':na,'notes':'See DESIGN.md. bin/check.py decides one property; verus/ holds specifications and contracts; extract/ is the mechanical extraction; harness/ replays against the real crate.'}
if getattr(props_text,'HOOKS',None): m['hooks']=props_text.HOOKS
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json')); [jsonschema.validate(p,S) for p in ps]
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
