"""DESIGN.md = tools/design_head.md + one section per property (docstring of its rule) + the table of planted bugs + tools/design_tail.md."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(V, p)).read()
out = [R('tools/design_head.md')]
props = sorted((json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))), key=lambda d: d['id'])
for d in props:
    p = 'sa/rules/%s.py' % d['id'].lower()
    doc = ' '.join((ast.get_docstring(ast.parse(R(p))) or '').split()) if os.path.exists(os.path.join(V, p)) else 'not claimed'
    out.append('**%s %s.** %s\n' % (d['id'], d['title'], doc))
out.append('\n## 5. Planted bugs (`seeded/`)\n\nEach passes the test suite; its demonstration fails with it and passes without it.\n\n| id | property | needs | caught by |\n|---|---|---|---|')
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.loads(R('seeded/%s/meta.json' % i))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m.get('caught', m['property'])))
out.append(R('tools/design_tail.md'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
