import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props_data import P
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for e in P:
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P), "properties")
