#!/usr/bin/env python3
"""Make and try the planted bugs in seeded/.

  seeds.py make ID...   write seeded/ID from the table in tools/seedtab.py
  seeds.py try ID...    in a scratch copy: apply, build, test, demo, blame, check
  (no ID: all of the table / of seeded/)"""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
BASE = 'ef9d872'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def copy():
    d = tempfile.mkdtemp(prefix='seed.')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    for n in ('build', 'test'):
        t = open('/opt/vp/%s.sh' % n).read().replace('/opt/vp/build.sh', d + '/build.sh').replace('/repo', r).replace(' /tmp/bic.cpp.*', '')
        open('%s/%s.sh' % (d, n), 'w').write(t)
    return d, r


def head(f):
    return subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True)


def make(s):
    out = os.path.join(V, 'seeded', s['id'])
    os.makedirs(out, exist_ok=True)
    d = tempfile.mkdtemp(prefix='mk.')
    diff = ''
    byfile = {}
    for f, old, new in s['edits']:
        byfile.setdefault(f, []).append((old, new))
    for f, eds in byfile.items():
        a = b = head(f)
        for old, new in eds:
            n = b.count(old)
            if n != 1:
                print(s['id'], f, 'matches', n, 'times:', old); sys.exit(1)
            b = b.replace(old, new)
        for n, t in (('a', a), ('b', b)):
            p = os.path.join(d, n, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(t)
        r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        lines = r.split('\n')
        lines[0], lines[1] = '--- a/' + f, '+++ b/' + f
        diff += '\n'.join(lines)
    shutil.rmtree(d)
    open(out + '/patch.diff', 'w').write(diff)
    demo = s['demo']
    if not demo.startswith('#!'):
        demo = HEAD + demo
    open(out + '/demo.sh', 'w').write(demo)
    os.chmod(out + '/demo.sh', 0o755)
    for n, t in s.get('files', {}).items():
        open(os.path.join(out, n), 'w').write(t)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(out + '/meta.json', 'w'), indent=1)


HEAD = '''#!/bin/bash
# Run in the root of the repository after a build.
B=$PWD/_build/src/bic
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "${d:?}"' EXIT
export HOME=$d TERM=dumb LC_ALL=C INPUTRC=/dev/null
'''


def blame(patch):
    """Are the changed lines those of the original?"""
    n = bad = 0
    f = None
    for l in patch.split('\n'):
        if l.startswith('+++ b/'):
            f = l[6:]
            bl = sh('git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f).stdout.split('\n')
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            bad += not bl[ln - 1].startswith('^' + BASE[:7])
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return '%d lines replaced%s' % (n, ', %d NOT ORIGINAL' % bad if bad else '')


def trial(i, checks=True):
    p = os.path.join(V, 'seeded', i)
    meta = json.load(open(p + '/meta.json'))
    d, r = copy()
    res = [i, meta['property'], blame(open(p + '/patch.diff').read())]
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
        f = os.path.join(d, 'x'); shutil.copytree(p, f)
        demo = f + '/demo.sh'
        def rundemo():
            try:
                return sh('bash', demo, cwd=r, timeout=300)
            except subprocess.TimeoutExpired:
                return subprocess.CompletedProcess([], 'TIMEOUT', '')
        b = sh('bash', d + '/build.sh')
        g = rundemo()
        res.append('clean demo %s%s' % (g.returncode, '' if g.returncode == 0 else ' BAD\n' + g.stdout[-1500:]))
        a = sh('git', '-C', r, 'apply', p + '/patch.diff')
        if a.returncode:
            res.append('DOES NOT APPLY ' + a.stdout); return res
        b = sh('bash', d + '/build.sh')
        if b.returncode:
            res.append('BUILD FAILS\n' + b.stdout[-1500:]); return res
        t = sh('flock', '/tmp/seeds.lock', 'bash', d + '/test.sh', d + '/out.json')
        o = json.load(open(d + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base['stable'])
        lost = {os.path.basename(x) for x in want} - {os.path.basename(x) for x in o['passed']}
        res.append('tests %d%s' % (len(o['passed']), ' LOST %s' % sorted(lost)[:5] if lost or not want else ''))
        g = rundemo()
        res.append('planted demo %s%s' % (g.returncode, ' BAD' if g.returncode == 0 else ''))
        if checks:
            env['BIC_REPO'] = r
            for c in [meta['property']]:
                k = sh(V + '/check.py', c, env=env)
                m = re.findall(r'VIOLATION property=(\S+)', k.stdout)
                res.append('%s exit %d %s%s' % (c, k.returncode, 'caught' if k.returncode == 1 and m else 'MISSED',
                                                '' if k.returncode in (0, 1) else '\n' + k.stdout[-800:]))
                w = [l for l in k.stdout.split('\n') if l.strip()][:3]
                res.append(' | '.join(x[:150] for x in w))
    finally:
        shutil.rmtree(d, True)
    return res


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        import seedtab
        for s in seedtab.T:
            if not ids or s['id'] in ids:
                make(s)
    else:
        for i in ids or sorted(os.listdir(os.path.join(V, 'seeded'))):
            print('; '.join(trial(i, cmd != 'demo')), flush=True)
