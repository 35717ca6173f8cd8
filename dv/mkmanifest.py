"""writes properties.jsonl and MANIFEST.json from props_text.py and props/catalog.py"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props_text
import props.catalog as cat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props_text.P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in props_text.P:
    i = p['id']
    if i in cat.PROPS:
        q = cat.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt dv/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt dv/check.py ' + i,
                       'technique': 'contract-based deductive verification of the functions in /repo (own verifier over clang ASTs, z3/cvc5)' + ('; bounded stand-in: ' + q['bounded'] if q.get('bounded') else ''),
                       'level': q['level'], 'level_note': q['note']})
    else:
        na.append({'property': i, 'reason': getattr(cat, 'NA', {}).get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt dv/setup.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
