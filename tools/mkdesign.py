"""Writes DESIGN.md: tools/design/head.md, the rules of the properties, findings, planted bugs, tools/design/tail.md."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
sys.path.insert(0, ROOT)


def read(p):
    p = os.path.join(ROOT, p)
    return open(p).read() if os.path.exists(p) else ''


def main():
    out = [read('tools/design/head.md').rstrip(), '', '## 4. Properties and their rules', '']
    manifest = json.loads(read('MANIFEST.json'))
    na = {x['property']: x['reason'] for x in manifest['not_applicable']}
    tech = {x['property']: x['technique'] for x in manifest['checks']}
    notes = {}
    cur = None
    for l in read('tools/design/notes.md').splitlines():
        if l.startswith('## '):
            cur = l[3:].strip()
            notes[cur] = []
        elif cur:
            notes[cur].append(l)
    for l in read('properties.jsonl').splitlines():
        p = json.loads(l)
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '']
        if i in na:
            out += ['*Not applicable.* ' + na[i], '']
            continue
        m = importlib.import_module('props.' + i.lower())
        ev = read('evidence/%s.json' % i)
        out += ['*%s.*' % tech[i].replace('static analysis: ', '').capitalize(), '', m.RULE.strip(), '']
        if i in notes:
            out += ['\n'.join(notes[i]).strip(), '']
    out += ['## 5. Genuine defects found', '', 'Repaired (one `fix:` commit each) and recorded:', '']
    for l in read('known-findings').splitlines():
        if l.startswith('fixed:') or l.startswith('finding:'):
            out.append('* ' + l)
    out += ['', '## 6. Planted bugs', '', 'Each applies, builds, passes the tests and fails its demonstration; the last column is what the checks said.', '',
            '| planted | property | what it breaks | caught by |', '|---|---|---|---|']
    caught = {}
    for l in read('tools/design/caught').splitlines():
        f = l.split()
        if f:
            caught[f[0]] = ' '.join(f[1:])
    base = os.path.join(ROOT, 'seeded')
    for d in sorted(os.listdir(base)):
        m = json.loads(read('seeded/%s/meta.json' % d))
        out.append('| %s | %s | %s | %s |' % (d, m['property'], ' '.join(m['what_it_breaks'].split()), caught.get(d, '?')))
    out += ['', read('tools/design/tail.md').rstrip()]
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out).rstrip() + '\n')


main()
