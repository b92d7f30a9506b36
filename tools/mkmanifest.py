#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when its id is in CLAIMED."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
T={
'C01':('reference-parser oracle monitoring the real parser over generated and edited documents','random sampling; nesting up to 80'),
'C02':('reference-parser oracle monitoring the real schema parser over generated and edited schemas','random sampling; nesting up to 80'),
'C03':('reference decoder oracle over generated literals','random sampling plus boundary literals'),
'C09':('reference validator oracle (section 5) over generated and semantically edited documents','random schemas and documents'),
'C10':('reference FieldsInSetCanMerge oracle over colliding selections and single planted second paths','random schemas and documents'),
'C11':('reference variable-rule oracle over generated and edited documents','random schemas and documents'),
'C12':('reference coercion oracle over the coercion API and document literals','random schemas and values'),
'C04':('panic/abort/hang supervisor around the whole pipeline on hostile inputs','random inputs of bounded nesting and size'),
'C05':('offset oracle over reported, converted and rendered errors','random erroneous inputs in random layouts'),
'C06':('round-trip monitor against the AST model','random documents and values'),
'C07':('round-trip monitor against the schema view','random schemas'),
'C08':('reference resolver oracle over generated and edited schemas','random schemas'),
'C13':('reference JSON coercion oracle over payloads','random operations and payloads'),
'C14':('reference expander oracle','random operations'),
'C15':('reference cost oracle by concrete type enumeration, with rewriting invariance','random operations'),
'C16':('reference list walker with two-sided bounds','random operations and payloads'),
'C17':('reference usage walker with two-sided bounds','random operations and payloads'),
'C18':('differential monitor: alone / combined / threads / repeated','random operations; 4-thread runs'),
'C19':('edit-script oracle: known edits against the reported changes','random schemas and edits'),
'C20':('client oracle: operations re-validated after comparison','random schemas, edits and operations'),
'C21':('leak oracle: reference visible set against every access path','random schemas and wardens'),
'C22':('reference filtered view and access-order differential','random schemas and wardens'),
'C23':('reference oracle for definition rules','random schemas and edits'),
'C24':('generated modules compiled and run against reference decoding','batches of generated schemas and queries'),
'C25':('event log of a recording visitor checked against the reference traversal','random documents'),
'C26':('Miri, ThreadSanitizer and AddressSanitizer over the harness workloads','fixed and random workloads under sanitizers'),
}
CLAIMED=sorted(T)
checks=[]
for p in props:
    i=p['id']
    if i not in CLAIMED: continue
    t,n=T[i]
    checks.append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}','evidence_file':f'evidence/{i}.json','technique':'runtime monitoring: '+t,'level':'exploration','level_note':n+'; quick tier is seeded and deterministic'})
m={'version':1,'setup_cmd':'true','checks':checks,'not_applicable':[{'property':p['id'],'reason':'check not built yet'} for p in props if p['id'] not in CLAIMED]}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
