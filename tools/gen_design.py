#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, design_how.json, the harness annotations, properties.jsonl and
tools/design_tail.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = json.load(open(V + '/tools/design_how.json'))
out = open(V + '/tools/design_head.md').read()
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    h = open(f'{V}/harness/{i}.cpp').read()
    b = re.findall(r'^\s*//@ bound (.*)', h, re.M); a = re.findall(r'^\s*//@ assume (.*)', h, re.M)
    modes = sorted(set(re.findall(r'^\s*//@ mode (\w+)', h, re.M)))
    out += f"### {i} {p['title']}\n{how[i]}\n* arithmetic: {' and '.join(dict(fp='bit-precise doubles', real='exact reals')[m] for m in modes)}\n"
    out += ''.join(f'* bounds: {x}\n' for x in b) + ''.join(f'* assumes: {x}\n' for x in a) + '\n'
out += open(V + '/tools/design_tail.md').read()
res = json.load(open(V + '/tools/seeded_results.json'))
out += '| change | property | what it breaks | caught by |\n|---|---|---|---|\n'
for k in sorted(res, key=lambda k: (res[k]['property'], k)):
    m = json.load(open(f'{V}/seeded/{k}/meta.json'))
    w = re.sub(r'\s+', ' ', m['what_it_breaks']).replace('|', '/')
    out += f"| {k} | {m['property']} | {w} | {'check ' + m['property'] + ', ' + str(res[k]['seconds']) + ' s' if res[k]['caught'] else '**missed**'} |\n"
open(V + '/DESIGN.md', 'w').write(out)
