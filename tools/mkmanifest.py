"""Regenerates MANIFEST.json from the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {}
def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and any(getattr(t, 'id', None) == name for t in n.targets):
            return ast.literal_eval(n.value)
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'] + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    t = ast.parse(open(f).read())
    checks.append({'property': p['id'],
                   'quick_cmd': 'bash run.sh %s quick' % p['id'],
                   'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': const(t, 'TECHNIQUE') or 'explicit-state bounded-exhaustive exploration of the real code against a reference model',
                   'level': 'model_checking',
                   'level_note': const(t, 'LEVEL_NOTE') or ('Every case within the stated bounds is executed on the code in /repo and compared with an independently written reference model; nothing outside the bounds is claimed. Bounds: ' + const(t, 'BOUNDS')['quick'])})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks drive the public API of the unmodified library, imported from source.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
