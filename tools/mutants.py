#!/usr/bin/env python3
"""Small random changes of the C sources, to find out what the checks miss.

  mutants.py gen N SEED OUT.jsonl      N changes that compile and pass the tests
  mutants.py run IN.jsonl OUT.jsonl [FROM TO]   run the checks against each until one reports it
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import seeds
FILES = {'src/evaluate.c': 60, 'src/function-call.c': 8, 'src/gc.c': 4, 'src/cscript.c': 5, 'src/repl.c': 7, 'src/preprocess.c': 4, 'src/inspect.c': 3, 'src/pretty-printer.c': 4,
         'src/main.c': 3, 'src/typename.c': 2, 'src/hash_table.c': 2, 'src/tree.c': 1, 'src/list.c': 1, 'src/util.c': 1,
         'src/gendump.cpp': 1, 'src/gendot.cpp': 2, 'src/gengc.cpp': 1, 'src/genspecresolver.cpp': 2, 'src/tree-dump-primitives.h': 1, 'src/list.h': 1}
ORDER = 'C03 C04 C05 C08 C18 C22 C02 C19 C20 C21 C01 C17 C23 C12 C15 C14 C16 C09 C24 C06 C07 C13 C10 C11'.split()
FIRST = {'inspect': 'C16', 'pretty-printer': 'C15 C16', 'repl': 'C17 C14 C18', 'preprocess': 'C23 C19 C11', 'gendot': 'C20', 'gendump': 'C20', 'tree-dump-primitives': 'C20',
         'function-call': 'C09 C08 C13', 'gc': 'C10 C11', 'gengc': 'C10', 'cscript': 'C19 C20', 'typename': 'C23 C14', 'genspecresolver': 'C22'}


def mutate(rng, text):
    """(line number, old, new)"""
    lines = text.split('\n')
    for _ in range(400):
        i = rng.randrange(len(lines))
        l = lines[i]
        if not l.strip() or l.lstrip().startswith(('#', '/*', '*', '//')) or not l.startswith((' ', '\t')):
            continue
        k = rng.choice(['op', 'op', 'const', 'neg', 'neg', 'del', 'del', 'del', 'call', 'break', 'arg', 'case'])
        n = None
        if k == 'op':
            ops = [('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('&&', '||'), ('||', '&&'), (' + ', ' - '), (' - ', ' + '), ('++', '--'), (' & ', ' | '), ('true', 'false'), ('false', 'true'),
                   ('<<', '>>'), ('NULL', '(void *)1') if 0 else (' * ', ' / '), ('depth + 1', 'depth'), ('unsigned', 'signed'), ('ui(', 'si('), ('int64_t', 'int32_t'), ('size_t', 'unsigned char')]
            c = [(a, b) for a, b in ops if a in l]
            if c:
                a, b = rng.choice(c)
                p = [m.start() for m in re.finditer(re.escape(a), l)]
                q = rng.choice(p)
                n = l[:q] + b + l[q + len(a):]
        elif k == 'const':
            p = [m for m in re.finditer(r'\b\d+\b', l)]
            if p:
                m = rng.choice(p)
                v = int(m.group(0))
                n = l[:m.start()] + str(rng.choice([v + 1, max(0, v - 1), 0, 1])) + l[m.end():]
        elif k == 'neg':
            m = re.match(r'(\s*(?:\} else )?(?:else )?if \()(.*)(\)\s*\{?)$', l)
            if m and m.group(2).count('(') == m.group(2).count(')'):
                n = rng.choice(['%s!(%s)%s', '%s0 && (%s)%s', '%s1 || (%s)%s']) % m.groups()
        elif k == 'del':
            if re.match(r'\s+[\w>\-.\[\]()*]+( =|\(|\+\+|--| [-+|&]=).*;$', l) and l.count('(') == l.count(')') and not re.match(r'\s+(return|tree|int|size_t|char|struct|bool|void)\b [^=]*$', l):
                n = ''
        elif k == 'call':
            m = re.match(r'(\s+)(\w+)( = )(\w+)\((.*)\);$', l)
            if m and ',' in m.group(5):
                a = re.split(r',\s*', m.group(5))
                if len(a) == 2:
                    n = '%s%s%s%s(%s, %s);' % (*m.groups()[:4], a[1], a[0])
        elif k == 'break' and l.strip() in ('break;', 'continue;'):
            n = ''
        elif k == 'arg':
            ids = re.findall(r'\b(left|right|lhs|rhs|src|dest|from|to|a|b|i|j|begin|end)\b', l)
            pairs = dict(left='right', right='left', lhs='rhs', rhs='lhs', src='dest', dest='src', a='b', b='a', i='j', j='i', begin='end', end='begin')
            ids = [x for x in ids if x in pairs]
            if ids:
                x = rng.choice(ids)
                n = re.sub(r'\b%s\b' % x, pairs[x], l, 1)
        elif k == 'case' and re.match(r'\s+case \w+:$', l):
            n = ''
        if n is not None and n != l:
            return i + 1, l, n
    return None


def worker_copy():
    return seeds.copy()


def gen(n, seed, out):
    rng = random.Random(seed)
    W = 8
    copies = [worker_copy() for _ in range(W)]
    todo = []
    seen = set()
    src = {f: seeds.head(f) for f in FILES}
    while len(todo) < n:
        f = rng.choices(list(FILES), list(FILES.values()))[0]
        m = mutate(rng, src[f])
        if m and (f,) + m not in seen:
            seen.add((f,) + m)
            todo.append((f,) + m)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    import queue
    q = queue.Queue()
    for c in copies:
        q.put(c)
    stats = dict(build=0, tests=0, kept=0)
    fo = open(out, 'w')

    def one(t):
        f, ln, old, new = t
        d, r = q.get()
        try:
            lines = src[f].split('\n')
            lines[ln - 1] = new
            open(r + '/' + f, 'w').write('\n'.join(lines))
            b = seeds.sh('bash', d + '/build.sh')
            if b.returncode:
                stats['build'] += 1
                return
            try:
                t = seeds.sh('timeout', '-k', '1', '90', 'bash', d + '/test.sh', d + '/out.json', timeout=120)
                o = json.load(open(d + '/out.json'))
                os.unlink(d + '/out.json')
            except Exception:
                stats['tests'] += 1
                return
            if {os.path.basename(x) for x in base} - {os.path.basename(x) for x in o['passed']}:
                stats['tests'] += 1
                return
            stats['kept'] += 1
            fo.write(json.dumps(dict(file=f, line=ln, old=old, new=new)) + '\n')
            fo.flush()
        finally:
            open(r + '/' + f, 'w').write(src[f])
            q.put((d, r))
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, todo))
    print(stats)
    for d, r in copies:
        shutil.rmtree(d, True)


def run(inp, out, a=0, b=10**9):
    ms = [json.loads(l) for l in open(inp)][a:b]
    d, r = worker_copy()
    vd = tempfile.mkdtemp(prefix='mv.')
    subprocess.check_call('cp -a %s/check.py %s/checks %s/lib %s/support %s/known-findings.json %s/properties.jsonl %s/MANIFEST.json %s/' % ((V,) * 7 + (vd,)), shell=True)
    os.makedirs(vd + '/evidence', exist_ok=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
    env['BIC_REPO'] = r
    env['VERIF_JOBS'] = os.environ.get('MUT_JOBS', '8')
    env['BIC_STOP'] = '1'
    fo = open(out, 'a')
    for m in ms:
        text = seeds.head(m['file'])
        lines = text.split('\n')
        at = [i for i, l in enumerate(lines) if l == m['old']]
        if not at:
            continue
        lines[min(at, key=lambda i: abs(i + 1 - m['line']))] = m['new']
        open(r + '/' + m['file'], 'w').write('\n'.join(lines))
        t0 = time.time()
        m['by'] = None
        m['odd'] = []
        first = FIRST.get(m['file'][4:].split('.')[0], '').split()
        for c in first + [c for c in ORDER if c not in first]:
            try:
                k = seeds.sh('timeout', '-k', '5', '400', vd + '/check.py', c, env=env)
            except Exception as e:
                m['odd'].append([c, str(e)])
                continue
            if k.returncode == 1 and 'VIOLATION property=' in k.stdout:
                m['by'] = c
                m['what'] = [l for l in k.stdout.split('\n') if l.strip()][1:2]
                break
            if k.returncode:
                m['odd'].append([c, k.returncode, k.stdout[-300:]])
        m['t'] = round(time.time() - t0)
        fo.write(json.dumps(m) + '\n')
        fo.flush()
        open(r + '/' + m['file'], 'w').write(text)
    shutil.rmtree(d, True)
    shutil.rmtree(vd, True)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else:
        run(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:]))
