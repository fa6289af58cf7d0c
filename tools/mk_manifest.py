import json
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
import sys; sys.path.insert(0,'/verif/tools')
from machines import MACHINES
notes=json.load(open('/verif/tools/notes.json'))
m=dict(version=1,setup_cmd="./setup.sh",
 checks=[dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",
   technique="explicit TLA+ specification model-checked with TLC; every reached state replayed on the library"+(", and recorded executions of the library validated by TLC" if any(x.get("record") for x in MACHINES[p]) else ""),
   level="model_checking",level_note=notes.get(p,"bounded inputs, see DESIGN.md")) for p in props if p in MACHINES],
 not_applicable=[dict(property=p,reason="check under construction") for p in props if p not in MACHINES])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
