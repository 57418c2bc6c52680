"""MANIFEST.json from engine/registry.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/engine')
import registry
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    c = registry.CHECKS.get(i)
    if c:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': c.get('technique', 'path-sensitive abstract interpretation of MIR against a reference definition'),
            'level': 'other',
            'level_note': c.get('note', 'Static: every path of the listed functions is interpreted abstractly for arbitrary inputs, child parsers and callbacks; '
                                        'loops and recursion are followed up to the unrolling bound recorded in the evidence. Paths or constructs outside the '
                                        'modelled fragment are reported as undecided in the evidence and raise no alarm. Trusts rustc\'s MIR and the standard-library models.'),
        })
    else:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'not yet analysed')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis of rustc MIR; see DESIGN.md. /repo carries fix: commits only, no hooks.'},
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
