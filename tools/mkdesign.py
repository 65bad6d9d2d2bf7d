"""Write DESIGN.md (run by hand; no check writes it): hand-written parts from design/, bounds from the harnesses."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(i, name):
    f = '%s/harness/%s.py' % (V, i.lower())
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)


notes = json.load(open(V + '/design/properties.json'))
out = [open(V + '/design/head.md').read()]
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    n = notes[i]
    out.append('### %s %s\n' % (i, p['title']))
    out.append('- Executed symbolically: %s' % n['runs'])
    out.append('- Oracle: %s' % n['oracle'])
    out.append('- Bounds: %s.' % const(i, 'BOUNDS'))
    a = const(i, 'ASSUMPTIONS')
    if a:
        out.append('- Assumed: %s.' % '; '.join(a))
    out.append('- Beyond the tests: %s' % p['why_tests_cant'])
    if n.get('note'):
        out.append('- Note: %s' % n['note'])
    out.append('- Cost: %s' % n['cost'])
    out.append('')
tail = open(V + '/design/tail.md').read()
rows = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m.get('caught_by', '?')))
out.append(tail.replace('@SEEDS@', '\n'.join(rows)))
k = json.load(open(V + '/known_findings.json'))['findings']
text = '\n'.join(out).replace('@KNOWN@', '\n'.join('- %s: %s' % (f['property'], f['text']) for f in k if f['status'] == 'known'))
text = text.replace('@FIXED@', '\n'.join('- %s' % f['text'] for f in k if f['status'] == 'fixed'))
open(V + '/DESIGN.md', 'w').write(text)
