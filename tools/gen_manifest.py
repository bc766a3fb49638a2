import json
TECH="stateless model checking of the real code: exhaustive enumeration of bounded behaviours against a reference model"
D={}
def c(id,note,tech=TECH,level="model_checking"):
    D[id]=dict(property=id,quick_cmd=f"./check.sh {id}",thorough_cmd=f"./check.sh {id} thorough",evidence_file=f"evidence/{id}.json",technique=tech,level=level,level_note=note)
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd="./setup.sh",
  hooks=dict(guard="none",enable="no hooks: the checks use the public interface of /repo's crates only",source_commits=[]),
  checks=[D[p] for p in props if p in D],
  not_applicable=[dict(property=p,reason="machinery under construction") for p in props if p not in D],
  notes="known findings and repaired defects: known-findings.txt; replay a violation with ./check.sh replay <file>")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print(len(D),'claimed')
