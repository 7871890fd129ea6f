#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from the evidence of the last quick runs, known_findings.txt and a log of
tools/catch.sh (argument)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
text = open(root + '/DESIGN.md').read()

def fill(tag, body):
    global text
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + '\n' + body + text[j:]

how = json.load(open(root + '/tools/design_props.json'))
out = ''
for p in props:
    e = json.load(open(root + '/evidence/%s.json' % p['id']))
    cov = e['coverage']
    out += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], how[p['id']])
    out += '| scenario | enumerated | executions | operations |\n|---|---|---:|---:|\n'
    for s in cov['scenarios']:
        note = s['note']
        if s.get('deviation_bound'):
            note += ' (deviation bound %d)' % s['deviation_bound']
        out += '| %s | %s | %d | %d |\n' % (s['scenario'].split('/', 1)[1], note.replace('|', '/'), s['executions'], s['operations'])
    out += '\n'
fill('scenarios', out)

fx = {}
for l in open(root + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fx.setdefault((m[2], m[3]), []).append(m[1])
fill('fixes', ''.join('* %s — %s (`%s`)\n' % (', '.join(v), k[1], k[0]) for k, v in fx.items()))

if len(sys.argv) > 1:
    last, c = {}, {}
    for l in open(sys.argv[1]):
        m = re.match(r'(\S+) (C\d\d) rc=(\d) ', l)
        if m and os.path.isdir(root + '/seeded/' + m[1]):
            sc = re.search(r':: (C\d\d/[\w-]+)', l)
            last[m[1]] = (m[2], m[3], sc[1].split('/')[1] if sc else '?')
    for b, (p, rc, sc) in last.items():
        c.setdefault(p, []).append((b, rc, sc))
    body = '| check | planted bugs, with the scenario that reports first |\n|---|---|\n'
    for k in sorted(c):
        body += '| %s | %s |\n' % (k, ', '.join('%s (%s)' % (b, s) if rc == '1' else '**%s missed**' % b for b, rc, s in sorted(c[k])))
    n = sum(len(v) for v in c.values()); m = sum(rc == '1' for v in c.values() for _, rc, _ in v)
    fill('catches', '%d of %d.\n\n' % (m, n) + body)
open(root + '/DESIGN.md', 'w').write(text)
