"""No input makes bic crash or misuse memory."""
import glob, os, random, re
from lib import common as K
from checks import c01, c02, c03, c04, c05, c10, c12

KW = ('int char short long unsigned signed float double void struct union enum typedef static extern const volatile if else '
      'for while return break sizeof do switch case default goto continue auto register inline restrict _Bool').split()
OP = ('+ - * / % & | ^ ~ ! < > = , ; : ? . ( ) [ ] { } ++ -- -> << >> <= >= == != && || += -= *= /= %= &= |= ^= <<= >>= ... # ## '
      '@ $ ` \\ " \' /* */ //').split()
LIT = ['0', '1', '017', '0x', '0xfffffffffffffffffff', '09', '1.5', '1e', '.', '1..2', "'a'", "''", "'\\", "'ab'", '"s"', '"\\777"', '"\\x"', '"', '1u', '2L',
       '99999999999999999999999999', '1.0e999', "'\\0'", '0b1', '1e-400', '3.']
IDS = 'a b x main f s argc printf T nosuch sizeof_ int1 _'.split()


def mutate(rng, text, pieces):
    k = rng.choice([1, 1, 1, 2, 3])
    toks = re.findall(r'\w+|\s+|"[^"\n]*"|[^\w\s]', text)
    for _ in range(k):
        if not toks:
            break
        i = rng.randrange(len(toks))
        j = min(len(toks), i + rng.randint(1, 6))
        m = rng.randint(0, 9)
        if m == 0:
            del toks[i:j]
        elif m == 1:
            toks[i:i] = toks[i:j] * rng.choice([1, 2, 5, 50])
        elif m == 2:
            toks[i] = rng.choice(KW + OP + LIT + IDS)
        elif m == 3:
            toks.insert(i, ' ' + rng.choice(KW + OP + LIT + IDS) + ' ')
        elif m == 4:
            l = rng.randrange(len(toks))
            toks[i], toks[l] = toks[l], toks[i]
        elif m == 5:
            p = rng.choice(pieces)
            a = rng.randrange(max(1, len(p)))
            toks.insert(i, p[a:a + rng.randint(1, 60)])
        elif m == 6:
            toks[i] = ''.join(chr(rng.randrange(256)) for _ in range(rng.randint(1, 5)))
        elif m == 7:
            toks = toks[:i]
        elif m == 8:
            t = toks[i]
            if t:
                q = rng.randrange(len(t))
                toks[i] = t[:q] + chr(ord(t[q]) ^ (1 << rng.randrange(8))) + t[q + 1:]
        else:
            toks[i:j] = toks[i:j][::-1]
    return ''.join(toks)


def garbage(rng):
    k = rng.randint(0, 3)
    if k == 0:
        return ''.join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 400)))
    if k == 1:
        return ' '.join(rng.choice(KW + OP + LIT + IDS) for _ in range(rng.randint(0, 80)))
    if k == 2:
        return '\n'.join(' '.join(rng.choice(KW[:14] + OP[:30] + IDS + LIT[:3]) for _ in range(rng.randint(1, 8))) + ';' for _ in range(rng.randint(1, 12)))
    return rng.choice(['#', '# 1 "', '# 1 "x" 9', '#line 3 "a\\b"', '# 99999999999999999999 "f"', '#pragma x', '# 0', '/*', '//', '"', "'", '\\', '\0', '\xff' * 50,
                       '#line 2147483647', '/**/', ' ', '\n\n', '\r\n', '\t', '{', '}', ';', ';;;', '(', 'int', 'int;', 'struct', 'struct s;', 'typedef int', 'enum {', '#define X X\nX',
                       '#include', '#include <', '#if', '<REPL>', '<REPL>;', '?', '?x']) + rng.choice(['', '\n', ' int a;', '\nint main() { return 0; }'])


def dump(c, text, how, corpus):
    d = K.scratch()
    K.write(d + '/p.c', text.encode('latin-1'))
    args = {'dot': ['-D', '-T'], 'text': ['-T']}[how] + ['-s', 'p.c']
    r = K.bic(args, cwd=d, timeout=40)
    c.case('parse\0' + text if corpus else None)
    c.count('inputs that were parsed' if r.rc == 0 else 'inputs that were rejected')
    why = r.crashed()
    if not why and r.timeout:
        r = K.bic(args, cwd=d, timeout=150)
        why = r.timeout and 'does not end'
    if not why and r.rc not in (0, 1):
        why = 'exit status %d' % r.rc
    if not why and r.rc == 1 and not r.err.strip():
        why = 'rejected without a diagnostic'
    if why:
        c.violation('parsing: %s' % why, {'p.c': text.encode('latin-1'), 'stderr.txt': r.err[:20000], 'args.txt': ' '.join(args)})


# ------------------------------------------------ execution of arbitrary expressions
ATOMS = ['gi', 'gc', 'gl', 'gu', 'gd', 'gf', 'gs', 'ps', 'arr', 'str', 'fp', 'f1', 'v', 'pp', 'gun', 'EA', '0', '1', '-1', '7', '2.5', '"txt"', "'c'", 'gs.a', 'gs.n', 'gs.nm',
         'ps->a', 'ps->b', 'arr[1]', 'arr[gi]', '*arr', '*ps', '&gi', '&gs', '&arr', '&f1', 'f1(gi)', 'f1(3)', 'v()', 'fp(3)', '(*fp)(3)', 'sizeof gs', 'sizeof(int)', 'abs(gi)',
         'gs.nosuch', 'nosuch', 'nosuch()', '&v', 'f1()', 'f1(1, 2)', 'sa[0]', 'sa[1].a', 'gun.c', 'gun.i', '&gs.a', '*pp', '&sa[1]', '&gd', '*&gi', 'sizeof arr', 'abs', '&abs', 'printf', 'sizeof(struct s)',
         'sizeof(struct nosuch)', 'main', '&main', 'fs(&gs)', 'fa(arr)', 'argc', 'argv', 'lo', '&lo', 'st', '99999999999999999999999', '1e300']
GOOD = ['gi', 'gc', 'gl', 'gu', 'gs.a', 'ps->a', 'arr[1]', '*arr', 'f1(gi)', 'f1(3)', 'fp(3)', '(*fp)(3)', '3', '1', '40', 'EA', "'c'", 'sizeof gs', 'abs(gi)', 'sa[1].a', 'gun.c', '*pp', '*&gi', 'fs(&gs)', 'fa(arr)', 'lo', 'st', 'gi++', 'gs.nm[1]', 'sizeof(struct s)']
BIN = '+ - * / % << >> < > <= >= == != && || & | ^ ,'.split()
SAFE_LV = ['gi', 'gc', 'gl', 'gu', 'gd', 'gf', 'gs.a', 'ps->a', 'arr[1]', 'sa[1].a', 'gun.c', 'lo', 'st', 'gs', '3', 'f1', 'f1(1)', 'v()', 'EA', 'nosuch', '"txt"', 'sa[0]', '(gi + 1)']
TYPES = ['char', 'int', 'long', 'unsigned char', 'short', 'double', 'float', 'long double', 'char *', 'void *', 'struct s *', 'void', 'struct s', 'enum en', 'union u', 'struct nosuch', 'int **']
PRE = '''int printf(const char *f, ...); int abs(int x);
union u { int i; char c; }; enum en { EA = 3, EB };
struct s { int a; double b; struct s *n; char nm[4]; };
int gi; char gc; long gl; unsigned gu; double gd; float gf; struct s gs; struct s *ps; int arr[12]; char *str; int *pp; union u gun; struct s sa[2];
int f1(int a) { return a + 1; }
void v() { }
int fs(struct s *p) { return p->a; }
int fa(int *p) { return p[1]; }
int (*fp)(int);
'''


def expr(rng, depth):
    if depth <= 0 or rng.random() < .15:
        return rng.choice(ATOMS if rng.random() < .2 else GOOD)
    k = rng.randint(0, 12)
    if k == 12 and rng.random() < .7:
        k = 0
    e = lambda: expr(rng, depth - 1)
    if k < 5:
        return '(%s %s %s)' % (e(), rng.choice(BIN), e())
    if k == 5:
        return '(%s%s)' % (rng.choice(['-', '!', '~', '- -', '! !']), e())
    if k == 6:
        return '((%s)%s)' % (rng.choice(TYPES), e())
    if k == 7:
        return '(%s ? %s : %s)' % (e(), e(), e())
    if k == 8:
        return '(%s %s %s)' % (rng.choice(SAFE_LV), rng.choice(['=', '=', '+=', '-=', '/=', '^=', '<<=', '>>=']), e())
    if k == 9:
        return rng.choice(['(%s++)', '(%s--)', '(++%s)', '(--%s)']) % rng.choice(SAFE_LV)
    if k == 10:
        return 'f1(%s)' % e()
    if k == 11:
        return rng.choice(['sizeof(%s)', '(sizeof %s)', 'abs(%s)', '(%s, %s)']).replace('%s', '\0').replace('\0', e(), 1).replace('\0', e(), 1)
    # An access to something that's no pointer at all.
    return rng.choice(['*%s', '%s[0]', '%s->a', '%s.a', '%s()', '%s(1)', '&%s', '%s.nm[1]', '%s.b']) % rng.choice(
        ['gi', 'gd', 'gs', 'EA', '3', '2.5', 'v()', 'f1(1)', 'gun', 'gc', 'fp', 'f1', 'gs.a', '(gi + 1)', '(gs)', 'v', 'sa[0]', 'nosuch'])


def stmt(rng, depth):
    e = lambda d=3: expr(rng, rng.randint(0, d))
    s = lambda: stmt(rng, depth - 1)
    k = rng.randint(0, 15)
    if depth <= 0 or k < 6:
        return e() + ';'
    return [
        lambda: 'if (%s) { %s } else { %s }' % (e(), s(), s()), lambda: 'while (%s) { if (bud-- < 0) return 1; %s }' % (e(), s()),
        lambda: 'for (%s; %s; %s) { if (bud-- < 0) return 1; %s }' % (e(1), e(), e(1), s()), lambda: 'if (%s) %s' % (e(), s()),
        lambda: '{ %s %s }' % (s(), s()), lambda: '{ %s x%d = %s; x%d; }' % (rng.choice(TYPES), rng.randint(0, 3), e(), rng.randint(0, 3)),
        lambda: '{ %s x0; %s x1; x0 = %s; x1 = %s; }' % (rng.choice(TYPES), rng.choice(TYPES), e(), e()), lambda: 'return %s;' % e(),
        lambda: '{ static %s z = %s; z; }' % (rng.choice(TYPES), e()), lambda: '{ %s q[%s]; sizeof q; }' % (rng.choice(TYPES), rng.choice(['3', '0', '-1', 'EA', 'gi', 'nosuch', '2.5', '(1 - 3)'])),
    ][k - 6]()


def chaos(c, i, seed):
    rng = random.Random(seed)
    body = '\n  '.join(stmt(rng, 2) for _ in range(rng.randint(1, 6)))
    src = PRE + 'int main(int argc, char **argv) { int lo; static int st; int bud = 50; lo = 4; gi = 3; gl = 5; ps = &gs; str = "hello"; fp = &f1; pp = &gi;\n  %s\n  printf("done\\n"); return 0; }\n' % body
    d = K.scratch()
    K.write(d + '/p.c', src)
    gc = rng.choice([None, None, '23', '3'])
    r = K.bic(['-s', 'p.c'], gc=gc, cwd=d, timeout=40)
    c.case('run\0' + src)
    c.count('programs that ran to their end' if 'done' in r.out else 'programs that were stopped by an error' if r.rc == 1 else 'others')
    why = r.crashed()
    if not why and r.timeout:
        r = K.bic(['-s', 'p.c'], gc=gc, cwd=d, timeout=150)
        why = r.timeout and 'does not end'
    if not why and r.rc == 1 and not re.match(r'(p\.c:\d+:\d+: error: |Parser Error: p\.c:\d+ )', r.err) and 'done' not in r.out and not re.search('return', body):
        why = 'status 1 without a located diagnostic: %r' % r.err[:200]
    if why:
        c.violation('running: %s; %s' % (why, r.err[:300]), {'p.c': src, 'stderr.txt': r.err[:20000], 'gc.txt': str(gc)})


def session(c, i, seed):
    rng = random.Random(seed)
    lines = ['#include <stdio.h>'] if rng.random() < .4 else []
    lines += ['int gi = 3;', 'struct s { int a; double b; struct s *n; char nm[4]; };', 'struct s gs;', 'struct s *ps;', 'ps = &gs;', 'int arr[12];', 'double gd;', 'char *str;', 'str = "hello";']
    for _ in range(rng.randint(4, 14)):
        k = rng.randint(0, 9)
        g = garbage(rng)
        g = re.sub(r'[\n\0]', ' ', g)
        safe = [a for a in ATOMS if not re.search(r'fp|f1|pp|sa\[|gun|fs|fa|argv|argc|main|\blo|\bst\b|\*|\bv\b|gf|gl|gu|gc|printf', a)]
        a = rng.choice(safe)
        if k < 3:
            lines.append(g)
        elif k == 3:
            lines.append('?' + rng.choice(['gi', 'gs', 'ps', 'arr', 'gd', 'str', 'nosuch', '', ' ', 'printf', '3', 'gs.a', '?', g[:20], 'FILE', 'stdout', 'argc', 'argv', 's']))
        elif k == 4:
            lines.append('\x01' + rng.choice(['', 'g', 'gs.', 'ps->', 'ps->n', 'gs.nm.', 'arr.', 'nosuch.', 'nosuch->', '.', '->', '..', '->->', 'gi->', '3.', '"x".', 'gs.a.', 'ps->n->', '(', ')', '(gs).', 'gi + gs.',
                                              'ps->a + gs.', 'if (gs.', '{ gs.', 'gs . ', 'gs.a.b.c', a + '.', a + '->', g[:30], g[:10] + '->', 'x' * 5000, 'gs.' + 'x' * 5000]))
        elif k == 5:
            lines.append(a + ';')
        elif k == 6:
            lines.append(rng.choice(['int', 'char *', 'double', 'struct s']) + ' n%d' % rng.randint(0, 4) + rng.choice(['', ' = 3', '[4]', '()', ' = nosuch', '[', ' ;']) + ';')
        elif k == 7:
            lines.append('#include ' + rng.choice(['<stddef.h>', '<limits.h>', '"stdio.h"', '<', '<>', '""', 'x', '', '<string.h> junk', '<errno.h>']))
        else:
            lines.append(mutate(rng, 'gs.a = gi + 3 * (arr[1] - 2); ', ['int q; ']).replace('\n', ' ').replace('\0', ' '))
    text = '\n'.join(lines) + rng.choice(['\n', ''])
    d = K.scratch()
    home = {}
    if rng.random() < .2:
        K.write(d + '/.bic', garbage(rng).encode('latin-1') if rng.random() < .5 else 'int fromhome; fromhome = 4;')
    gc = rng.choice([None, '7'])
    r = K.bic([], text, gc=gc, cwd=d, home=d, rl=True, timeout=60)
    c.case('session\0' + text)
    c.count('lines entered', r.out.count('\x02L'))
    why = r.crashed()
    if not why and r.timeout:
        r = K.bic([], text, gc=gc, cwd=d, home=d, rl=True, timeout=200)
        why = r.timeout and 'does not end'
    if not why and r.rc not in (0, 1):
        why = 'exit status %d' % r.rc
    if not why and r.rc == 1 and not re.sub(r'\x02.\n', '', r.err).strip():
        why = 'ended without a diagnostic'
    if why:
        c.violation('session: %s %s' % (why, r.err[-300:]), {'session.txt': text.encode('latin-1'), 'stderr.txt': r.err[:20000]})


def args(c, i, seed):
    rng = random.Random(seed)
    d = K.scratch()
    K.write(d + '/ok.c', 'int printf(const char *f, ...); int main(int argc, char **argv) { int i; for (i = 0; i < argc; i++) printf("%s\\n", argv[i]); return 0; }')
    K.write(d + '/empty.c', '')
    K.write(d + '/bin.c', bytes(rng.randrange(256) for _ in range(300)))
    os.mkdir(d + '/dir.c')
    pool = ['-s', '-T', '-D', '-v', '-l', '-I', 'ok.c', 'empty.c', 'bin.c', 'dir.c', 'nosuch.c', 'm', 'c', '', '-', '--', '-x', '-sok.c', '-Iinc', '-lnosuch', '-TD', '--help', 'a b', "it's",
            '$HOME', '`x`', 'x' * 3000, '-I', '-s', 'ok.c', '"', '\xff']
    a = [rng.choice(pool) for _ in range(rng.randint(0, 6))]
    a = [x.encode('latin-1') for x in a]
    r = K.bic(a, b'', cwd=d, timeout=60)
    c.case('args\0' + repr(a))
    why = r.crashed() or (r.timeout and 'does not end')
    if not why and r.rc not in (0, 1):
        why = 'exit status %d' % r.rc
    if not why and r.rc == 1 and not r.err.strip():
        why = 'status 1 without a diagnostic'
    if why:
        c.violation('arguments %r: %s %s' % (a, why, r.err[:300]), {'args.txt': repr(a), 'stderr.txt': r.err[:20000]})


def extreme(rng):
    N = rng.choice([300, 1500])
    return [
        ('nested parentheses', 'int main() { int a; a = ' + '(' * N + '1' + ')' * N + '; return a - 1; }'),
        ('nested blocks', 'int main() ' + '{' * N + '}' * N),
        ('nested ifs', 'int main() { ' + 'if (1) ' * N + ';  return 0; }'),
        ('else chain', 'int main() { int a; a = 5; ' + ''.join('if (a == %d) return 1; else ' % (i + 100) for i in range(N)) + '; return 0; }'),
        ('unary chain', 'int main() { return ' + '!' * N * 2 + '0; }'),
        ('minus chain', 'int main() { return ' + '- ' * N * 2 + '0; }'),
        ('long sum', 'int main() { return 0' + ' + 0' * (N * 4) + '; }'),
        ('many statements', 'int main() { int a; ' + 'a = 1;\n' * (N * 10) + 'return 0; }'),
        ('many functions', ''.join('int f%d(int a) { return a; }\n' % i for i in range(N)) + 'int main() { return f%d(0); }' % (N - 1)),
        ('many globals', ''.join('int g%d = %d;\n' % (i, i) for i in range(N)) + 'int main() { return g0; }'),
        ('long identifier', 'int %s; int main() { return %s; }' % ('a' * 40000, 'a' * 40000)),
        ('long string', 'int main() { char *s; s = "%s"; return 0; }' % ('x' * 300000)),
        ('long comment', '/*' + '* x /' * 50000 + '*/ int main() { return 0; }'),
        ('long line', 'int main() { int a;' + ' ' * 300000 + 'return 0; }'),
        ('many lines', '\n' * 200000 + 'int main() { return 0; }'),
        ('many arguments', 'int printf(const char *f, ...); int main() { printf("%d"' + ', 1' * 200 + '); return 0; }'),
        ('many parameters', 'int f(' + ', '.join('int a%d' % i for i in range(150)) + ') { return a149; } int main() { return f(' + ', '.join(str(i) for i in range(150)) + ') - 149; }'),
        ('pointer levels', 'int ' + '*' * 200 + 'p; int main() { return 0; }'),
        ('comma chain', 'int main() { return (' + '1, ' * N + '0); }'),
        ('declarator list', 'int main() { int ' + ', '.join('v%d = %d' % (i, i) for i in range(N)) + '; return v0; }'),
        ('member chain', 'struct s { struct s *n; int v; }; int main() { struct s x; x.n = &x; x.v = 0; return x' + '.n->n->n'.replace('.n->n->n', '.n') + '->n' * N + '->v; }'),
        ('large struct', 'struct s { ' + ''.join('int m%d; ' % i for i in range(N)) + '}; struct s g; int main() { return g.m%d; }' % (N - 1)),
        ('large enum', 'enum e { ' + ', '.join('E%d' % i for i in range(N)) + ' }; int main() { return E0; }'),
        ('nested calls', 'int f(int a) { return a; } int main() { return ' + 'f(' * 150 + '0' + ')' * 150 + '; }'),
        ('ternary chain', 'int main() { return ' + '0 ? 1 : ' * N + '0; }'),
        ('assignment chain', 'int main() { int a; ' + 'a = ' * N + '0; return a; }'),
        ('recursion', 'int f(int n) { if (n == 0) return 0; return f(n - 1); } int main() { return f(400); }'),
        ('huge number', 'int main() { ' + '9' * 20000 + '; return 0; }'),
        ('huge hex', 'int main() { 0x' + 'f' * 20000 + '; return 0; }'),
        ('huge float', 'int main() { double d; d = 1' + '0' * 3000 + '.5; d = 0.' + '0' * 3000 + '1; return 0; }'),
        ('large array', 'char a[50000000]; int main() { a[49999999] = 1; return a[49999999] - 1; }'),
        ('typedef chain', 'typedef int t0; ' + ''.join('typedef t%d t%d; ' % (i, i + 1) for i in range(N)) + 't%d x; int main() { return x; }' % N),
    ]


def run(c):
    c.rule = ('Scripts of the test suite and of the generators of the other checks, mutated at the level of tokens, slices and bytes, and '
              'random tokens and bytes, parsed and dumped; random expressions and statements over objects of all kinds, most of them '
              'ill-typed, executed; sessions of garbage, inspections and completions; command lines; programs of extreme sizes. '
              'Non-trivial: a new text that was given to the instrumented interpreter.')
    c.assumptions = ['Programs that misuse memory through their own pointers, recurse without bound or do not end are excluded.',
                     "UBSan's alignment and object-size checks are off."]
    rng = c.rng
    corpus = [open(f, encoding='latin-1').read() for f in sorted(glob.glob(K.REPO + '/testsuite/*.c'))]
    for i in range(30):
        g, b = [c10.reach, c01.make, c03.make, c04.make, c05.make][i % 5](*([rng] if i % 5 != 1 else [rng, 3]))
        corpus.append((g + '\nint main() {' + b + '}').replace('$', 'x').replace('%%', '%'))
    corpus.append(c12.Gen(rng, False).program('gi / zero', False)[0].replace('@E@', ''))
    corpus = [re.sub(r'#\s*include.*', '', t) for t in corpus]
    corpus.append('typedef struct { int a; } T; typedef int (*fn)(int, char *, ...); extern int x; static const unsigned long int y = 3; T *f(T *a, fn g) { <REPL>; return a; } enum { A, B = 3 }; union u { int a; char b[4]; } uu, *pu;')
    jobs = []
    n = 20 if K.THOROUGH else 1
    for i in range(700 * n):
        t = mutate(rng, rng.choice(corpus), corpus) if i % 4 else garbage(rng)
        jobs.append((dump, t, 'dot' if i % 5 == 0 else 'text', True))
    for i in range(1200 * n):
        jobs.append((chaos, i, 'chaos/%d/%d/%d' % (c.seed, n, i)))
    for i in range(150 * n):
        r2 = random.Random('d%d/%d' % (c.seed, i))
        jobs.append((dump, PRE + 'int main() { ' + '\n'.join(stmt(r2, 3) for _ in range(4)) + '}', 'dot' if i % 2 else 'text', True))
    for i in range(80 * n):
        jobs.append((session, i, 'session/%d/%d/%d' % (c.seed, n, i)))
    for i in range(120 * n):
        jobs.append((args, i, 'args/%d/%d/%d' % (c.seed, n, i)))
    for name, t in extreme(rng):
        jobs.append((big, name, t))
    rng.shuffle(jobs)

    def go(j):
        if len(c.violations) < 5:
            j[0](c, *j[1:])
    K.pmap(go, jobs)
    c.sample([j for j in jobs if j[0] is dump][0][1][:1500])
    return 200


def big(c, name, text):
    d = K.scratch()
    K.write(d + '/p.c', text)
    # Dumps grow with the square of the depth.
    for a in (['-s', 'p.c'], ['-T', '-s', 'p.c'])[:2 if len(text) < 3000 else 1]:
        r = K.bic(a, cwd=d, timeout=120)
        c.case('big\0%s\0%s' % (name, a[0]))
        c.count('programs of extreme size')
        why = r.crashed()
        if not why and r.timeout:
            c.inconclusive_case('timeout: ' + name)
            continue
        if not why and r.rc not in (0, 1):
            why = 'exit status %d' % r.rc
        if not why and r.rc == 1 and not r.err.strip():
            why = 'status 1 without a diagnostic'
        if why:
            c.violation('%s: %s' % (name, why), {'p.c': text, 'stderr.txt': r.err[:20000]})
