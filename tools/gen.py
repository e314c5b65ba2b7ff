#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from rules/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import explicit, props  # noqa: E402

for p in props.PROPS:
    p['rules'] = [r for r in p['rules'] if r in explicit.RULES]

TECH = 'static analysis: guarded value-graph dataflow over the syntax tree, compared with the confirmed mechanism; '
out = []
for p in props.PROPS:
    a = {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe']}
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier={'over': p['over'], 'text': p['text']}, why_tests_cant=p['why'], anchors=a))
for i, t, s, over, text, why, files, where, reason in props.NOT_APPLICABLE:
    out.append(dict(id=i, title=t, statement=s, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                    anchors={'files': files, 'mechanism': [{'name': 'implementation', 'where': 'tensorflow_transform/' + where}]}))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for o in out:
        assert len(o['title']) <= 80, o['title']
        f.write(json.dumps(o) + '\n')
checks = []
for p in props.PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py ' + p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': TECH + ('rules: ' + ', '.join(p['rules']) if p['rules'] else 'no extra rule'),
        'level': 'other',
        'level_note': 'Decides a structural necessary part: ' + p['decided'] + '. Numerical results and external engines are not decided.',
    })
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules check.py', 'checks': checks,
     'not_applicable': [{'property': n[0], 'reason': n[-1]} for n in props.NOT_APPLICABLE]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


# DESIGN.md sections
D = os.path.join(HERE, 'DESIGN.md')
d = open(D).read()


def section(d, tag, text):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    i, j = d.index(a) + len(a), d.index(b)
    return d[:i] + '\n' + text.rstrip() + '\n' + d[j:]


t = []
for p in props.PROPS:
    t.append('**%s %s.** Decided: %s.%s Anchors: %s.' % (
        p['id'], p['title'], p['decided'].rstrip('.'),
        ' Explicit rules: %s.' % '; '.join('%s (%s)' % (r, explicit.RULES[r][1]) for r in p['rules']) if p['rules'] else '',
        ', '.join(f.replace('tensorflow_transform/', '') for f in p['files'])))
t.append('Not applicable:')
t.append('\n'.join('* **%s %s**: %s.' % (n[0], n[1], n[-1]) for n in props.NOT_APPLICABLE))
d = section(d, 'props', '\n\n'.join(t))
rows = []
S = os.path.join(HERE, 'seeded')
if os.path.isdir(S):
    missed = set(open(os.path.join(HERE, 'tools', 'seeds_missed.txt')).read().split())
    rows = ['| change | property | breaks | reported |', '|---|---|---|---|']
    for i in sorted(os.listdir(S)):
        mt = json.load(open(os.path.join(S, i, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (i, mt['property'], mt['what_it_breaks'], 'no' if i in missed else 'yes'))
    d = section(d, 'seeds', '\n'.join(rows))
with open(D, 'w') as f:
    f.write(d)
