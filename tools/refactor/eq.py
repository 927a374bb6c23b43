#!/usr/bin/env python3
"""eq.py OUT [--each]: mechanical behaviour-keeping rewrites of /repo/src (tools/eqmut), one diff per
file and class (--each: per place), for survey.py and tools/seed/catch.py -d"""
import sys, os, subprocess, collections, difflib
out = sys.argv[1]
each = '--each' in sys.argv
only = [a for a in sys.argv[2:] if not a.startswith('--')]
os.makedirs(out, exist_ok=True)
PROPS = {'sha256': 'C01,C02', 'hmac': 'C03,C02', 'pbkdf2': 'C04', 'salsa20': 'C05', 'scrypt': 'C06,C07', 'aes': 'C08,C09,C10', 'pkcs7': 'C11,C12,C13', 'aes_cbc': 'C10,C11,C12,C13'}
for f in sorted(os.listdir('/repo/src')):
    m = f[:-3]
    if m not in PROPS: continue
    src = open('/repo/src/' + f, 'rb').read()
    sites = collections.defaultdict(list)
    for l in subprocess.run(['/tmp/eqmut-target/release/eqmut', '/repo/src/' + f], capture_output=True, text=True, check=True).stdout.splitlines():
        c, line, a, b, t = l.split('\t', 4)
        sites[c].append((int(a), -int(b), int(line), t))
    for c, v in sites.items():
        if only and c not in only: continue
        v.sort()
        groups = [(str(x[2]) + '-' + str(i), [x]) for i, x in enumerate(v)] if each else [('', v)]
        for tag, g in groups:
            n = src; last = len(src) + 1; take = []; end = -1
            for a, b, _, t in g:
                if a >= end:
                    take.append((a, -b, t)); end = -b
            for a, b, t in reversed(take):
                n = n[:a] + t.encode() + n[b:]
            d = ''.join(difflib.unified_diff(src.decode().splitlines(True), n.decode().splitlines(True), 'a/src/' + f, 'b/src/' + f))
            name = '%s/%s-%s%s' % (out, m, c, '-' + tag if tag else '')
            open(name + '.diff', 'w').write(d)
            open(name + '.props', 'w').write(PROPS[m])
