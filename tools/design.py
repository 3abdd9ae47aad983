"""Dev helper: fills the property and planted-bug sections of DESIGN.md from contracts/*.py docstrings and seeded/*/meta.json."""
import ast, json, os, re
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
try:
    import sys; sys.path.insert(0, V); from tools.notes import NA
except ImportError:
    NA = {}
out = []
for p in props:
    f = V + '/contracts/%s.py' % p['id']
    out.append('### %s %s' % (p['id'], p['title']))
    if not os.path.isfile(f) or p['id'] in NA:
        out.append('Not applicable / not claimed: ' + NA.get(p['id'], 'no contract module yet.')); out.append(''); continue
    src = open(f).read(); tree = ast.parse(src)
    doc = (ast.get_docstring(tree) or '').strip()
    units = re.findall(r"@unit\((?:'([^'\n]*)'|\"([^\"\n]*)\")", src)
    out.append(doc); out.append('')
    names = [a or b for a, b in units]
    out.append('Units: ' + '; '.join(names) + '.')
    ev = V + '/evidence/%s.json' % p['id']
    if os.path.isfile(ev):
        e = json.load(open(ev)); c = e['coverage']
        out.append('')
        out.append('Obligations: %s (%s). Functions executed: %d. %s' % (c['obligations'], ', '.join('%s %s' % kv for kv in sorted(c['backends'].items())), len(c['functions_under_contract']),
                   'Assumptions: ' + '; '.join(e['assumptions']) + '.' if e['assumptions'] else 'No further assumption.'))
    out.append('')
bugs = ['| bug | property | needs | check |', '|---|---|---|---|']
try: res = json.load(open(V + '/tools/bug_results.json'))
except Exception: res = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    bugs.append('| %s | %s | %s: %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], res.get(d, 'caught')))
s = open(V + '/tools/DESIGN.in.md').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@BUGS@@', '\n'.join(bugs))
open(V + '/DESIGN.md', 'w').write(s)
