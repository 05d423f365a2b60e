#!/usr/bin/env python3
"""vshow.py PROP|FILE [n]: print the violations of a check with shortened site names."""
import json, re, sys
f = sys.argv[1]
if '/' not in f:
    f = '/verif/evidence/%s.violations.json' % f
def short(l):
    l = re.sub(r'(?:/[\w\[\]<>.$:-]+)+/', '', l)
    l = re.sub(r'calloc:\S*?\(\)\d+', '', l)
    return l
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 99
for v in json.load(open(f))[:lim]:
    print(v['where'], v['key'])
    for l in v.get('path', []):
        print('    ' + short(l)[:300])
