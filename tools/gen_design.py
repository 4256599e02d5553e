#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (between <!-- begin X --> and <!-- end X -->)."""
import importlib, json, os, re, sys, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

def fill(text):
    return '\n'.join(textwrap.wrap(text, 150))

def props():
    out = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(line)
        if d['id'].startswith('N'):
            continue
        m = importlib.import_module('sa.props.' + d['id'].lower())
        ev = os.path.join(HERE, 'evidence', d['id'] + '.json')
        size = ''
        out.append('### %s – %s\n' % (d['id'], d['title']))
        out.append(fill('*What is decided.* ' + m.EXPLANATION.strip()) + '\n')
        b = getattr(m, 'BOUNDS', None)
        if b:
            out.append(fill('*Bounds.* ' + b) + '\n')
        out.append(fill('*Why tests do not settle it.* ' + d['why_tests_cant']) + '\n')
        out.append(fill('*Anchors.* ' + '; '.join(a['where'] for a in d['anchors']['mechanism']) +
                        '. Thorough tier: %d in-memory variants of the source.' % len(getattr(m, 'MUTANTS', []))) + '\n')
    return '\n'.join(out)

def seeded():
    caught = {}
    p = os.path.join(HERE, 'tools', 'caught.json')
    if os.path.exists(p):
        caught = json.load(open(p))
    out = ['| planted bug | needs | caught by |', '|---|---|---|']
    d = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        out.append('| `%s` | %s | %s |' % (n, m['needs'].replace('|', '/'), ', '.join(caught.get(n, [])) or '–'))
    return '\n'.join(out)

f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
for k, fn in (('props', props), ('seeded', seeded)):
    s = re.sub(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (k, k), lambda m: m.group(1) + fn() + '\n' + m.group(2), s, flags=re.S)
open(f, 'w').write(s)
