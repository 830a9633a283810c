#!/usr/bin/env python3
"""Refresh the generated tables of DESIGN.md (between the markers) from known_findings.txt and seeded/."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'; t = open(p).read()
fx = ['| property | commit | what failed |', '|---|---|---|']
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fx.append('| %s | %s | %s |' % m.groups())
first = {'not-least-tick', 'hint-lower-one'} | set((open(V + '/tools/first_missed').read().split()) if os.path.exists(V + '/tools/first_missed') else [])
sd = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    sd.append('| %s | %s | %s | %s quick%s |' % (n, d['property'], d['needs'].replace('|', '/'), d['property'], ' (first missed)' if n in first else ''))
def put(t, tag, rows):
    body = '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(rows), tag)
    if '@%s@' % tag in t: return t.replace('@%s@' % tag, body)
    return re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: body, t, flags=re.S)
t = put(t, 'FIXES', fx); t = put(t, 'SEEDED', sd)
open(p, 'w').write(t)
