#!/usr/bin/env python3
"""Regenerates the tables of DESIGN.md (between the AUTO markers) from the harness options, the evidence and seeded/."""
import json, os, re, shlex, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
ents = {}
for f in sorted(os.listdir(V + '/harness')):
    if not f.endswith('.cpp'): continue
    fo = {}
    for l in open(V + '/harness/' + f):
        m = re.match(r'//@(file)?\s+(.*)', l)
        if not m: continue
        kv = dict(t.partition('=')[::2] for t in shlex.split(m.group(2)))
        if m.group(1): fo = kv; continue
        o = dict(fo); o.update(kv); o['harness'] = f
        for p in o.get('prop', '').split(','): ents.setdefault(p, []).append(o)
out = []
for p in props:
    out.append('**%s %s**' % (p['id'], p['title'])); out.append('')
    ev = V + '/evidence/%s.json' % p['id']
    es = ents.get(p['id'], [])
    for tier in ('quick', 'thorough'):
        t = [e for e in es if e.get('tier', 'quick') == tier]
        if not t: continue
        out.append('- %s: ' % tier + '; '.join('`%s` (%s%s)' % (e['entry'], e.get('bound', ''), (', preemptions <= ' + e.get('pb', '2') + (', race check' if e.get('hb') == '1' else '')) if e.get('mt') == '1' else '') for e in t))
    out.append('')
seeds = ['| change | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); seeds.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
s = open(V + '/DESIGN.md').read()
for tag, txt in (('ENTRIES', '\n'.join(out)), ('SEEDS', '\n'.join(seeds))):
    s = re.sub(r'(<!-- AUTO %s -->\n).*?(<!-- END %s -->)' % (tag, tag), lambda m: m.group(1) + txt + '\n' + m.group(2), s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
