import json,sys
sys.path.insert(0,'/verif/harness')
from checks import CHECKS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE='Held on the executions reported in the evidence file; says nothing about executions not produced. Trusts the compiler, the sanitizer runtimes and the reference models in /verif/harness.'
m=dict(version=1,setup_cmd='true',checks=[],not_applicable=[])
NA={}
for p in props:
    i=p['id']
    if i in CHECKS:
        c=CHECKS[i]
        m['checks'].append(dict(property=i,quick_cmd='bin/check %s --tier quick'%i,thorough_cmd='bin/check %s --tier thorough'%i,
            technique=c['technique'],level=c.get('level','exploration'),level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,'check not built yet')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m['checks']),len(m['not_applicable']))
