"""known_findings.jsonl: one JSON object per line.
{"kind": "known", "property": id, "key": ..., "what": text}            a recorded, unrepaired defect
{"kind": "fixed", "property": id, "commit": sha, "what": text}          a repaired one (suppresses nothing)"""
import json, os
from vh import core

PATH = os.path.join(core.VERIF, 'known_findings.jsonl')

def load(prop_id):
    out = []
    if os.path.exists(PATH):
        with open(PATH) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e['property'] == prop_id and e['kind'] == 'known':
                        out.append(e)
    return out
