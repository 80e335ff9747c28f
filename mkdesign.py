"""Writes DESIGN.md from design/head.md, design/notes.py, the contracts, the
property list, the known findings and the table of planted bugs."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'design'))
from notes import NOTES


def contracts(pid):
    tree = ast.parse(open(os.path.join(HERE, 'contracts', pid + '.py')).read())
    consts = {}
    out = []
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ('TRUSTED', 'ASSUMPTIONS'):
                consts[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, (ast.FunctionDef,)) and any(
                isinstance(d, ast.Call) and getattr(d.func, 'id', '') ==
                'contract' for d in n.decorator_list):
            out.append((n.name, ' '.join((ast.get_docstring(n) or '').split())))
    return out, consts


def name_of(x):
    return x if isinstance(x, str) else x.get('name') or x.get('contract')


def main():
    out = [open(os.path.join(HERE, 'design', 'head.md')).read()]
    props = [json.loads(l) for l in open(os.path.join(
        HERE, 'properties.jsonl'))]
    claims = {c['property_id']: c for c in json.load(open(os.path.join(
        HERE, 'MANIFEST.json')))['checks']} if False else {}
    modes = json.load(open(os.path.join(HERE, 'design', 'modes.json')))
    out.append('\n## The properties\n\nModes: **[proved]** for any number of '
               'everything; **[bounded]** as stated, with all amounts '
               'arbitrary; **[evaluated]** on random inputs only.\n')
    for p in props:
        pid = p['id']
        m = modes.get(pid, {})
        out.append('### %s %s\n\n%s\n' % (pid, p['title'], p['statement']))
        out.append('*Code*: %s. *Why tests cannot settle it*: %s.\n' % (
            ', '.join('`%s`' % f for f in p['anchors']['files']),
            p['why_tests_cant'].rstrip('.')))
        oracle, limits = NOTES[pid]
        out.append('*Oracle*: %s\n' % oracle)
        out.append('*Range*: %s *Cost*: %s.\n' % (limits, m.get('cost', '')))
        cs, consts = contracts(pid)
        other = [k for k in m.get('modes', {}) if k not in dict(cs)]
        for name, doc in cs:
            out.append('- `%s` [%s] %s' % (
                name, m.get('modes', {}).get(name, '?'), doc))
        if other:
            kinds = {}
            for k in other:
                kinds.setdefault(m['modes'][k], []).append('`%s`' % k)
            for k, v in sorted(kinds.items()):
                out.append('- [%s] (made from shapes) %s' % (k, ', '.join(v)))
        for k, title in (('TRUSTED', 'Trusted'), ('ASSUMPTIONS', 'Assumed')):
            for x in consts.get(k, []):
                out.append('- %s: %s.' % (title, x.rstrip('.')))
        out.append('')
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    out.append('## Known findings (recorded, not repaired)\n')
    for f in kf['findings']:
        out.append('- **%s %s**: %s Where: %s. Not repaired: %s' % (
            f['property'], f['id'], f['what'].rstrip('.') + '.',
            f.get('where', ''), f.get('why_not_repaired', '')))
    out.append('\n## Defects found and repaired\n\nEach by a `fix:` commit in '
               '/repo; the check that found it passes on the repaired tree '
               'and reports the defect if it returns.\n')
    for s in kf['fixed']:
        s = s.replace('fixed: property=', '')
        out.append('- ' + s)
    out.append('\n## Planted bugs\n\nIn `seeded/`; each builds, passes the '
               '973 stable tests and fails its own demonstration. (*): no '
               'failing input found.\n')
    table = json.load(open(os.path.join(HERE, 'design', 'seeds.json')))
    out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        meta = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
        r = table.get(i, {})
        out.append('| %s | %s | %s | %s |' % (
            i, meta['property'], meta['needs'].replace('|', '/'),
            ', '.join('`%s`' % x for x in r.get('by', [])) or
            ('**missed**' if r else 'not run')))
    out.append('')
    out.append(open(os.path.join(HERE, 'design', 'tail.md')).read())
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    if '--modes' in sys.argv:       # from the evidence of the last runs
        modes = {}
        for i in range(1, 25):
            pid = 'P%02d' % i
            e = json.load(open(os.path.join(HERE, 'evidence', pid + '.json')))
            c = e['coverage']
            d = {}
            for key, word in (('contracts_proved_without_bound', 'proved'),
                              ('contracts_bounded', 'bounded'),
                              ('contracts_evaluated_only', 'evaluated'),
                              ('contracts_not_decided', 'not decided')):
                for x in c.get(key, []):
                    d[name_of(x)] = word
            modes[pid] = {'modes': d, 'cost': 'about %d s on 8 cores' % max(
                1, round(e['wall_s']))}
        json.dump(modes, open(os.path.join(HERE, 'design', 'modes.json'),
                              'w'), indent=1, sort_keys=True)
    main()
