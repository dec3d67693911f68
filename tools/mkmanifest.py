"""writes MANIFEST.json from LEVELS (property -> (level, note))"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ('Obligations of the functions under contract are generated from the '
        'current source and discharged by z3/cvc5 for all inputs; the rest of '
        'the mechanism is covered by bounded runtime contracts on the real '
        'code (labelled bounded in the evidence, not counted as proved). '
        'Trusted: the Python semantics of the verifier, the models of the '
        'built-ins and the assumptions listed in the evidence.')
LEVELS = {}
try:
    exec(open(os.path.join(HERE, 'levels.py')).read())
except IOError:
    pass
checks = []
for line in open(os.path.join(HERE, '..', 'properties.jsonl')):
    p = json.loads(line)['id']
    level, note = LEVELS.get(p, ('other', NOTE))
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'technique': 'contracts on the real functions, deductive verifier '
        '(symbolic execution of the AST + SMT) with bounded runtime '
        'contracts as stand-in',
        'level': level, 'level_note': note or NOTE})
json.dump({'version': 1,
           'setup_cmd': 'python3-vt -c "import z3"',
           'checks': checks, 'not_applicable': [],
           'notes': 'see DESIGN.md'},
          open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
