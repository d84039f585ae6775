#!/usr/bin/env python3
"""List a fix: tools/kf.py PROPERTY 'words of the commit subject' 'what failed'."""
import json, subprocess, sys
prop, words, what = sys.argv[1:]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n')
h = [l.split()[0] for l in log if words in l]
assert len(h) == 1, h
path = '/verif/known-findings.json'
k = json.load(open(path))
assert not any(h[0] in f for f in k['fixed'])
k['fixed'].append('fixed: property=%s %s %s' % (prop, h[0], what))
json.dump(k, open(path, 'w'), indent=1)
