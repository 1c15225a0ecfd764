#!/usr/bin/env python3
"""tools/patchorig.py: does every planted bug change lines of the original repository (not only lines of fix: commits)?"""
import subprocess, re, glob, os
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = None; orig = mine = 0; n = None
    for l in open(d):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            bl = [x.split()[0] for x in subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.splitlines()]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif n and l.startswith('-'):
            if bl[n - 1].startswith('^dc8d30b'): orig += 1
            else: mine += 1
            n += 1
        elif n and l.startswith(' '):
            n += 1
    print(os.path.basename(os.path.dirname(d)), 'original', orig, 'own', mine, '' if orig else '  <---')
