#!/usr/bin/env python3
"""Writes verus/baseline.json: per unit, the extracted functions that have no contract on the committed tree."""
import json,os,sys,tempfile,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/bin')
import asm,table
B={}
os.system(V+'/extract/target/release/extract --dump-fns '+V+'/verus/baseline_fns.txt')
for u in sorted({x for p in table.PROPS.values() for x in p['units']}):
    d=tempfile.mkdtemp(); o=d+'/x.rs'; l,rc=asm.assemble(u,o); m=json.load(open(o+'.json'))
    B[u]={'uncontracted':sorted(f['name'] for f in m['fns'] if not f['contract']),'contracted':sorted(f['name'] for f in m['fns'] if f['contract'])}
    if l: print(u,l)
    os.system('rm -rf '+d)
json.dump(B,open(V+'/verus/baseline.json','w'),indent=1)
