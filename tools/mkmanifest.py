"""Write MANIFEST.json: one check per property that has a harness (run by hand; no check writes it)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
def bounds(src):
    import ast
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'BOUNDS':
            return ast.literal_eval(n.value)
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    f = '%s/harness/%s.py' % (V, i.lower())
    if os.path.exists(f):
        checks.append(dict(
            property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
            technique="symbolic execution of symfit's own code, assertions decided by z3 for all values; counterexamples replayed concretely",
            level='model_checking',
            level_note='Bounded: the solver decides every assertion for all real values (floating point is taken as real '
                       'arithmetic) on every path within: ' + bounds(open(f).read()) +
                       '. Trusted: the engine in symx/ (values, numpy and scipy stand-ins), sympy and numpy.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet: in progress')))
json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo. See DESIGN.md; known_findings.json lists what was found.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
