"""Callbacks: compiled code calls functions of the script."""
import re
from lib import common as K
from lib.diff import Case, Config, run_batch, differential
from checks.c08 import fmt, spell, value, clit, literal, FLT
from lib.exprgen import *

PTRS = ['char *', 'void *', 'int *']


def sfmt(t):
    """How the script prints a parameter."""
    if t in FLT:
        return '%Lf' if t == 'long double' else '%f', ''
    if t in PTRS:
        return {'char *': ('%s', ''), 'void *': ('%ld', '(long)'), 'int *': ('%d', '*')}[t]
    return ('%ld', '(long)') if BITS[t][1] else ('%lu', '(unsigned long)')


def designators(rng, text):
    """A function designator is as good as its address."""
    return re.sub(r'&(h\$|[a-z]+\$\))', lambda m: rng.choice(['&', '', '', '*']) + m.group(1), text)


def make(rng, n):
    fn = 'cb%d' % n
    ps = [rng.choice(INTTYPES + FLT + PTRS) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 7, 9, 12]))]
    ret = rng.choice(INTTYPES + FLT + ['void', 'int', 'char', 'short', 'unsigned char', 'int *'])
    sig = ', '.join(ps) or 'void'
    lib, hdr, globs, body = [], [], [], []
    ty = '%s_t' % fn
    hdr.append('typedef %s (*%s)(%s);' % (ret, ty, ', '.join(ps)))
    hdr.append('void %s_run(%s f, int times); void %s_keep(%s f); void %s_fire(void); %s %s_get(int which);' % (
        fn, ty, fn, ty, fn, ty, fn))
    lib.append('typedef %s (*%s)(%s); static %s kept_%s; static int cell_%s = 50;' % (ret, ty, sig, ty, fn, fn))

    def args():
        a = []
        for p in ps:
            if p == 'char *':
                a.append('"s%d"' % rng.randint(0, 9))
            elif p == 'void *':
                a.append('(void *)%dL' % rng.randint(0, 1 << 40))
            elif p == 'int *':
                a.append('&cell_' + fn)
            else:
                a.append('(%s)%s' % (p, clit(p, value(rng, p))))
        return ', '.join(a)

    def call(f):
        e = '%s(%s)' % (f, args())
        if ret == 'void':
            return e + '; printf("void\\n");'
        if ret == 'int *':
            return 'printf("-> %%d\\n", *%s);' % e
        ff, cst = fmt(ret)
        return 'printf("-> %s\\n", %s%s);' % (ff, cst, e)
    lib.append('void %s_run(%s f, int times) { for (int i = 0; i < times; i++) { printf("run %%d cell %%d\\n", i, cell_%s); %s %s } }' % (
        fn, ty, fn, call('f'), call('f')))
    lib.append('void %s_keep(%s f) { kept_%s = f; } void %s_fire(void) { %s }' % (fn, ty, fn, fn, call('kept_' + fn)))
    nat = '%s %s_native(%s) { printf("native\\n"); %s }' % (
        ret, fn, ', '.join('%s p%d' % (p, i) for i, p in enumerate(ps)) or 'void',
        '' if ret == 'void' else 'return &cell_%s;' % fn if ret == 'int *' else 'return %s;' % clit(ret, value(rng, ret)))
    lib.append(nat)
    lib.append('%s %s_get(int which) { return which ? %s_native : kept_%s; }' % (ty, fn, fn, fn))

    # The script's functions.
    names = ['p%d' % i for i in range(len(ps))]
    vars_ = []
    for v in range(2):
        st = ['calls$++;', 'printf("%s%d%s\\n"%s);' % (
            'h$', v, ''.join(' ' + sfmt(p)[0] for p in ps),
            ''.join(', %s%s' % (sfmt(p)[1], nm) for p, nm in zip(ps, names)))]
        for p, nm in zip(ps, names):
            if p == 'int *' and rng.random() < .6:
                st.append('*%s += %d;' % (nm, rng.randint(1, 5)))
        ints = [nm for p, nm in zip(ps, names) if p in BITS]
        k = rng.random()
        if k < .3:
            st.append('if (calls$ == 1) { %s_run(&h$%d, 1); printf("nested\\n"); }' % (fn, v))
        elif k < .45:
            st.append('if (calls$ == 2) { int arr[4]; int i; for (i = 0; i < 4; i++) arr[i] = (7 * i + 3) % 5; qsort(arr, 4, sizeof(int), &cmp$); for (i = 0; i < 4; i++) printf("%d ", arr[i]); printf("\\n"); }')
        if ret == 'void':
            st.append(rng.choice(['', 'return;']))
        elif ret == 'int *':
            st.append('return &gcell$;')
        elif ret in FLT:
            fl = [nm for p, nm in zip(ps, names) if p in FLT]
            if fl and rng.random() < .6:
                st.append('return %s;' % rng.choice(fl))
            else:
                st.append('return %s;' % rng.choice(['2.5', '-7', '0.125']))
        else:
            k = rng.random()
            same = [nm for p, nm in zip(ps, names) if p in BITS]
            if same and k < .6:
                st.append('return %s;' % rng.choice(same))
            else:
                v2 = value(rng, ret)
                st.append('{ %s rr; rr = %s; return rr; }' % (ret, literal(ret, v2)))
        vars_.append('%s h$%d(%s) {\n    %s\n}' % (ret, v, ', '.join('%s%s%s' % (p, '' if p[-1] == '*' else ' ', nm) for p, nm in zip(ps, names)),
                                                '\n    '.join(st)))
    globs = ['int calls$; int gcell$;', 'int cmp$(const void *a, const void *b) { return *(int *)a - *(int *)b; }'] + vars_
    body.append('%s f; int i; calls$ = 0; gcell$ = 9; %s_keep(&h$0);' % (ty, fn))
    for _ in range(rng.randint(2, 5)):
        body.append(rng.choice([
            '%s_run(&h$0, %d);' % (fn, rng.randint(1, 3)),
            '%s_run(&h$1, 2);' % fn,
            'f = &h$%d; %s_run(f, 1);' % (rng.randint(0, 1), fn),
            '%s_keep(&h$%d); %s_fire();' % (fn, rng.randint(0, 1), fn),
            '%s_fire();' % fn,
            'f = %s_get(0); printf("%%d %%d\\n", f == &h$0, f == &h$1); %s_run(f, 1);' % (fn, fn),
            'f = %s_get(1); %s_run(f, 1); printf("%%d\\n", f == &h$0);' % (fn, fn),
            'for (i = 0; i < 3; i++) { %s_fire(); }' % fn,
            'printf("%d %d\\n", &h$0 == &h$0, &h$0 == &h$1);',
        ]))
    body.append('printf("%d %d\\n", calls$, gcell$);')
    return '\n'.join(lib), '\n'.join(hdr), designators(rng, '\n'.join(globs)), designators(rng, '\n'.join(body))


def libc(rng):
    A, N = rng.randint(1, 999), rng.randint(2, 30)
    return rng.choice([
        ('int n$; int c$(const void *a, const void *b) { n$++; return *(int *)a - *(int *)b; } int d$(const void *a, const void *b) { return *(int *)b - *(int *)a; }',
         'int a[%d]; int i; int k; int *p; for (i = 0; i < %d; i++) a[i] = (i * %d + 5) %% 97; qsort(a, %d, sizeof(int), &c$); for (i = 0; i < %d; i++) printf("%%d ", a[i]); k = a[%d]; p = bsearch(&k, a, %d, sizeof(int), &c$); printf("%%d\\n", *p); k = 1000; p = bsearch(&k, a, %d, sizeof(int), &c$); printf("%%d\\n", p == 0); qsort(a, %d, sizeof(int), &d$); for (i = 0; i < %d; i++) printf("%%d ", a[i]); printf("%%d\\n", n$ > 0);' % ((N, N, A) + (N,) * 2 + (N // 2,) + (N,) * 4)),
        ('struct r$ { char *k; double d; int v; }; int c$(const void *a, const void *b) { const struct r$ *x, *y; x = a; y = b; return strcmp(x->k, y->k); } int v$(const void *a, const void *b) { return ((struct r$ *)a)->v - ((struct r$ *)b)->v; }',
         'struct r$ t[5]; int i; t[0].k = "pear"; t[1].k = "fig"; t[2].k = "apple"; t[3].k = "kiwi"; t[4].k = "date"; for (i = 0; i < 5; i++) { t[i].v = (i * %d) %% 17; t[i].d = i; } qsort(t, 5, sizeof(struct r$), &c$); for (i = 0; i < 5; i++) printf("%%s %%d %%f ", t[i].k, t[i].v, t[i].d); qsort(&t[1], 3, sizeof(t[0]), &v$); for (i = 0; i < 5; i++) printf("%%s ", t[i].k); printf("\\n");' % A),
        ('typedef void (*sigh$)(int); sigh$ signal(int n, sigh$ h); int raise(int n); int got$; void h$(int s) { got$ = got$ * 10 + s; }',
         'signal(10, &h$); raise(10); raise(10); printf("%d\\n", got$); signal(12, &h$); raise(12); printf("%d\\n", got$);'),
        ('int c$(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }',
         'char *s[4]; int i; s[0] = "d%d"; s[1] = "b"; s[2] = "%d"; s[3] = "a"; qsort(s, 4, sizeof(char *), &c$); for (i = 0; i < 4; i++) puts(s[i]);' % (A, A)),
        ('void *root$; int c$(const void *a, const void *b) { return strcmp(a, b); }',
         'char **f; int i; char *w[3]; w[0] = "m"; w[1] = "c"; w[2] = "x"; root$ = 0; for (i = 0; i < 3; i++) tsearch(w[i], &root$, &c$); f = tfind("c", &root$, &c$); puts(*f); printf("%d\\n", tfind("q", &root$, &c$) == 0);'),
        ('int outer$(const void *a, const void *b); int n$; int inner$(const void *a, const void *b) { return *(char *)b - *(char *)a; } int outer$(const void *a, const void *b) { char t[4]; int x; int y; t[0] = 3; t[1] = 9; t[2] = 1; t[3] = 5; qsort(t, 4, 1, &inner$); n$ += t[0]; x = *(short *)a; y = *(short *)b; return x > y ? 1 : x < y ? -1 : 0; }',
         'short a[%d]; int i; for (i = 0; i < %d; i++) a[i] = (i * %d) %% 1009 - 500; qsort(a, %d, sizeof(short), &outer$); for (i = 0; i < %d; i++) printf("%%d ", a[i]); printf("%%d\\n", n$ %% 9);' % (N, N, A, N, N)),
        ('int g$; int once$(int n) { g$ += n; if (n > 0) return once$(n - 1) + 1; return 0; } int c$(const void *a, const void *b) { once$(3); return *(long *)a < *(long *)b ? -1 : *(long *)a > *(long *)b; }',
         'long a[%d]; int i; for (i = 0; i < %d; i++) a[i] = (i * %d) %% 311 * 10000000000; qsort(a, %d, sizeof(a[0]), &c$); for (i = 0; i < %d; i++) printf("%%ld ", a[i]); printf("%%d\\n", g$ > 0);' % (N, N, A, N, N)),
    ])


ATEXIT = '''#include <stdio.h>
#include <stdlib.h>
int n;
void a() { n++; printf("a %d\\n", n); }
void b() { n += 10; printf("b %d\\n", n); }
int main() { atexit(&a); atexit(b); atexit(a); n = {N}; printf("main\\n"); {END} }
'''


def handlers(r):
    """A program with functions to be called at its end."""
    fs = ['h%d' % i for i in range(r.randint(1, 5))]
    reg = ['atexit', 'at_quick_exit']
    head = r.choice([
        '#include <stdio.h>\n#include <stdlib.h>\n',
        'int printf(const char *f, ...); int fflush(void *f);\n' + ''.join(r.choice(['', 'extern ']) + d + '\n' for d in (
            'int atexit(void (*f)(void));', 'int at_quick_exit(void (*f)(void));', 'void exit(int s);', 'void quick_exit(int s);', 'void _Exit(int s);'))])

    def use(i):
        x = r.choice(fs[:i] or fs[:1])
        k = r.randrange(5)
        return '%s(%s);' % (r.choice(reg), r.choice([x, '&' + x, '*' + x])) if k < 3 else \
            'p = %s%s; %s(p);' % (r.choice(['', '&']), x, r.choice(reg)) if k == 3 else \
            'printf("%%d\\n", %s(&%s));' % (r.choice(reg), x)
    src = head + 'int n;\nvoid (*p)(void);\n'
    for i, f in enumerate(fs):
        src += 'void %s()\n{\n    n += %d; printf("%s %%d\\n", n); fflush(0);\n%s}\n' % (
            f, r.randint(1, 9), f, '    ' + use(i) + '\n' if i and r.random() < .3 else '')
    body = [use(len(fs)) for _ in range(r.randint(1, 6))]
    for _ in range(r.randint(0, 2)):
        body.insert(r.randint(0, len(body)), r.choice(['printf("main\\n");', 'n *= 2;', 'n = 100;', 'for (int i = 0; i < 3; i++) { ' + use(len(fs)) + ' }',
                                                       '{ int (*f)(void (*)(void)); f = &%s; f(%s); }' % (r.choice(reg), r.choice(fs))]).replace('n *= 2', 'n = n + n'))
    v = r.randint(0, 200)
    end = r.choice(['return %d;', 'exit(%d);', 'quick_exit(%d);', 'quick_exit(%d);', 'end();', '_Exit(%d);'])
    src += 'void end() { %s(%d); }\n' % (r.choice(['exit', 'quick_exit']), v)
    return src + 'int main()\n{\n    %s\n    fflush(0);\n    %s\n}\n' % ('\n    '.join(body), end % v if '%' in end else end)


def at_exit(c, src, gc):
    d = K.scratch()
    K.write(d + '/p.c', src)
    o = K.run(['gcc', '-w', '-o', d + '/p', d + '/p.c'])
    if o.rc:
        raise K.HarnessError('gcc ' + o.err[:300])
    e = K.run([d + '/p'])
    r = K.bic(['-s', d + '/p.c'], gc=gc)
    c.case(src)
    c.count('functions called at exit', sum(l.startswith('h') for l in e.out.split('\n')))
    if (r.out, r.rc) != (e.out, e.rc) or r.crashed():
        c.violation('at exit: expected %r %d, observed %r %d %s' % (e.out, e.rc, r.out, r.rc, r.crashed() or r.err[:500]), {'p.c': src})


def run(c):
    c.rule = ('Compiled libraries call functions of the script of 0 to 12 parameters and all arithmetic and '
              'pointer results: at once, repeatedly, nested, later, and hand their addresses back; qsort, '
              'bsearch, tsearch, signal and atexit do so, too. Arguments seen by the script and results seen '
              'by the library are compared with the compiled program. Non-trivial: a new text.')
    rounds, m = (12, 120) if K.THOROUGH else (3, 120)
    for rnd in range(rounds):
        parts = [make(c.rng, i) for i in range(m)]
        d = K.scratch('lib')
        K.write(d + '/nat.c', '#include <stdio.h>\n#include <stdlib.h>\n' + '\n'.join(l for l, h, g, b in parts))
        so = d + '/libnat.so'
        r = K.run(['gcc', '-w', '-O1', '-shared', '-fPIC', '-o', so, d + '/nat.c'], timeout=120)
        if r.rc:
            raise K.HarnessError('native library: ' + r.err[:500])

        def one(a):
            i, grp = a
            cfg = Config(includes=('stdio.h', 'stdlib.h'), prelude='\n'.join(h for l, h, g, b in grp),
                         libs=[so, '-Wl,-rpath,' + d], bic_args=['-l', so],
                         ref_flags=['-fno-sanitize=unsigned-integer-overflow', '-fsanitize=float-cast-overflow'])
            run_batch(c, [Case(b, g, key=h + b, tags=('library callback cases',)) for l, h, g, b in grp],
                      cfg, ['59', '500:%d' % c.seed, None][i % 3])
        K.pmap(one, list(enumerate([parts[i:i + 12] for i in range(0, m, 12)])))
        c.sample('\n'.join(parts[0][2:]))
    cases = []
    for _ in range(1200 if K.THOROUGH else 150):
        g, b = libc(c.rng)
        b = designators(c.rng, b)
        cases.append(Case(b, g, tags=('C library callback cases',)))
    differential(c, cases, Config(includes=('stdio.h', 'stdlib.h', 'string.h', 'search.h'), sessions=6,
                                  gcs=('59', '500:%d', None)), batch=15)
    progs = [ATEXIT.replace('{N}', str(n)).replace('{END}', end) for n, end in ((0, 'return 3;'), (5, 'exit(4);'), (2, 'a(); return 0;'))]
    progs += [handlers(c.rng) for _ in range(300 if K.THOROUGH else 40)]
    K.pmap(lambda i: at_exit(c, progs[i], ('7', None, '90:%d' % i)[i % 3]), list(range(len(progs))))
    return 50
