"""Writes DESIGN.md from docs/, properties.jsonl, the docstrings of the checks, known_findings.jsonl and seeded/*/meta.json (run by hand)."""
import ast, json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
props = [json.loads(l) for l in open('properties.jsonl')]
man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
out = [open('docs/head.md').read().rstrip(), '']
for p in props:
    f = 'checks/%s.py' % p['id'].lower()
    v = {}
    tests = []
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('RULE', 'ASSUMPTIONS'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and n.targets[0].id == 'TESTS':
            tests = [(e.args[0].value, e.args[3].value if isinstance(e.args[3], ast.Constant) else '?') for e in n.value.elts]
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
            '* Technique and oracle: %s.' % man[p['id']]['technique'],
            '* Generated: ' + ' '.join(v['RULE'].split()),
            '* Domain and tolerances: ' + '; '.join(v['ASSUMPTIONS']) + '.',
            '* Tests (cases in quick; thorough: 12 times as many): ' + ', '.join('%s %s' % t for t in tests) + '.',
            '* Why the tests cannot settle it: ' + p['why_tests_cant'], '']
tail = open('docs/tail.md').read()
fixes = [json.loads(l) for l in open('known_findings.jsonl')]
tail = tail.replace('@FIXES@', '\n'.join('* %s %s: %s' % (f['property'], f['commit'], f['entry'].split(' ', 3)[3]) for f in fixes))
rows = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m))
    i = m.split('/')[1]
    rows.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), d.get('caught_by', '?')))
tail = tail.replace('@SEEDED@', '## Planted bugs\n\nEach is in `seeded/<id>/` (patch, demonstration, description); none is ever committed in `/repo`, no check reads the folder.\n\n'
                    '| id | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) if rows else '')
out.append(tail)
open('DESIGN.md', 'w').write('\n'.join(out))
