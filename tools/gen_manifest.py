import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + i,
        technique=P.get('technique', 'contract-based deductive verification (Verus) of the mechanically extracted source; failing obligations replayed and uncovered functions bounded by a harness on the real crate'),
        level=P['level'], level_note=P['note'] + '. Trusted: ' + '; '.join(P['trusted']) + ('. Bounded, not proved: ' + '; '.join(P['bounded']) if P['bounded'] else '')))
m = dict(version=1, setup_cmd='python3 bin/check.py --setup', checks=checks, not_applicable=getattr(props, 'NA', []), notes='No hooks: /repo carries only fix: commits. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
