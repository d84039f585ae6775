"""Collections never change what a program does."""
import glob, os, random, re
from lib import common as K
from lib.diff import Case, Config, program, reference, sections
from lib.session import SessGen, Norm, PRELUDE
from checks import c01, c02, c03, c04, c05, c06, c07, c09

INC = ('stdio.h',)
SMALL = ('int printf(const char *f, ...); int puts(const char *s); int setvbuf(void *f, char *b, int m, unsigned long n); '
         'extern void *stdout; void *malloc(unsigned long n); void free(void *p); char *strcpy(char *d, const char *s); '
         'unsigned long strlen(const char *s); int strcmp(const char *a, const char *b); int atoi(const char *s); '
         'void *memcpy(void *d, const void *s, unsigned long n); void *memset(void *d, int c, unsigned long n); '
         'char *strcat(char *d, const char *s); '
         'void qsort(void *b, unsigned long n, unsigned long s, int (*c)(const void *, const void *));\n')


def reach(rng):
    """Programs whose objects stay reachable by one path only."""
    A, B, N = rng.randint(1, 99), rng.randint(1, 99), rng.randint(3, 12)
    work = 'int w$; w$ = 0; for (w$ = 0; w$ < %d; w$++) { int z; z = w$ * 3 + 1; }' % rng.randint(5, 40)
    fn = rng.choice(['', 'static '])
    return rng.choice([
        # Function pointers only.
        ('%sint f$(int a) { return a * %d; } %sint g$(int a) { return a + %d; }' % (fn, A, fn, B),
         'int (*t[2])(int); int i; t[0] = &f$; t[1] = &g$; %s for (i = 0; i < %d; i++) { t[0] = t[i %% 2]; printf("%%d\\n", t[0](i)); t[0] = &f$; }' % (work, N)),
        # A static object, initialised once, touched rarely.
        ('int f$(int a) { static int s = %d; static char *n = "st%d"; static int arr[4]; s += a; arr[a & 3] += s; printf("%%s %%d %%d\\n", n, s, arr[a & 3]); return s; }' % (A, B),
         'int i; for (i = 0; i < %d; i++) { f$(i); %s }' % (N, work)),
        # String literals kept in memory only.
        ('struct s$ { char *n; struct s$ *next; }; struct s$ *push$(struct s$ *h, char *n) { struct s$ *e; e = malloc(sizeof(struct s$)); e->n = n; e->next = h; return e; } char *name$(int k) { if (k == 0) return "zero%d"; if (k == 1) return "one"; return "many"; }' % A,
         'struct s$ *h; int i; h = 0; for (i = 0; i < %d; i++) { h = push$(h, name$(i %% 3)); %s } while (h) { struct s$ *q; puts(h->n); q = h->next; free(h); h = q; }' % (N, work)),
        # Locals of deep recursion.
        ('int r$(int n, int *up) { int here; long sq; here = n * %d; sq = n; if (n == 0) return *up; sq = sq * sq; here = here + r$(n - 1, &here); return here - (sq > 50) + (*up & 1); }' % A,
         'int x; x = %d; printf("%%d\\n", r$(%d, &x)); printf("%%d\\n", x);' % (B, N * 3)),
        # Temporaries of one large expression.
        ('int id$(int x) { int t; t = x; t = t + 1; return t - 1; }',
         'int a; a = %s; printf("%%d\\n", a);' % ' + '.join('id$(%d) * (%d + id$(%d))' % (i, B, A + i) for i in range(N * 2))),
        # Many arguments, each one evaluated with allocations.
        ('int s$(int a, int b, int c, int d, int e, int f, int g, int h) { return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f + 7 * g + 8 * h; } int id$(int x) { int t; t = x + 1; return t; }',
         'int i; for (i = 0; i < 4; i++) printf("%%d %%d %%d\\n", s$(id$(1), id$(id$(2)), %d + i, id$(3) * 2, s$(1, 2, 3, 4, 5, 6, 7, id$(i)), id$(9), -i, id$(%d)), id$(4), id$(i) + id$(5));' % (A, B)),
        # Types: struct tags and typedefs of inner scopes, used late.
        ('typedef struct t$ { int a; char *b; double c; struct t$ *self; } T$; T$ gt$; T$ *mk$(int a) { T$ *p; p = malloc(sizeof(T$)); p->a = a; p->b = "b%d"; p->c = a; p->self = p; return p; }' % A,
         'struct l { T$ *x; int k[3]; } v; int i; for (i = 0; i < %d; i++) { v.x = mk$(i); v.k[i %% 3] = v.x->self->self->a; %s printf("%%d %%s %%f %%d\\n", v.x->a, v.x->b, v.x->c, v.k[i %% 3]); free(v.x); } gt$.self = &gt$; gt$.a = %d; printf("%%d\\n", gt$.self->self->a);' % (N, work, B)),
        # Enumerators, conditional, comma.
        ('enum e$ { A$ = %d, B$, C$ = %d }; int pick$(int k) { return k == 0 ? A$ : k == 1 ? B$ : C$; }' % (A, A + B),
         'int i; int j; for (i = 0, j = 9; i < %d; i++, j--) { %s printf("%%d %%d %%d\\n", pick$(i %% 3), (i, j), A$ < B$ ? C$ : i); }' % (N, work)),
        # Heap data reached through the script's pointers.
        ('struct n$ { int k; struct n$ *l; struct n$ *r; }; struct n$ *ins$(struct n$ *t, int k) { if (!t) { t = malloc(sizeof(struct n$)); t->k = k; t->l = 0; t->r = 0; return t; } if (k < t->k) t->l = ins$(t->l, k); else t->r = ins$(t->r, k); return t; } void walk$(struct n$ *t) { if (t) { walk$(t->l); printf("%d ", t->k); walk$(t->r); } }',
         'struct n$ *t; int i; t = 0; for (i = 0; i < %d; i++) t = ins$(t, (i * %d + %d) %% 101); walk$(t); puts("");' % (N + 4, A, B)),
        # Callbacks between collections.
        ('int n$; int c$(const void *a, const void *b) { int d; n$++; d = *(int *)a - *(int *)b; return d; }',
         'int a[9]; int i; int k; for (k = 0; k < 3; k++) { for (i = 0; i < 9; i++) a[i] = (i * %d + k) %% 17; qsort(a, 9, sizeof(int), &c$); %s for (i = 0; i < 9; i++) printf("%%d ", a[i]); puts(""); }' % (A, work)),
        # while with a complex condition; values that live in the loop header only.
        ('int nx$(int *p) { (*p)--; return *p; }',
         'int c; int acc; acc = 0; c = %d; while (nx$(&c) > 0 && (acc = acc + c * 2, acc < 100000)) { %s if (c %% 5 == 1) { acc -= 3; } } printf("%%d %%d\\n", c, acc);' % (N * 2, work)),
        # Character and floating-point storage.
        ('double d$[3]; float f$; long double l$; char b$[32];',
         'int i; for (i = 0; i < %d; i++) { d$[i %% 3] = i; f$ = d$[i %% 3]; l$ = f$; b$[i %% 31] = 65 + i; %s printf("%%f %%f %%c\\n", d$[i %% 3], f$, b$[i %% 31]); }' % (N, work)),
    ])


def pool(rng, n):
    out = []
    for i in range(n):
        k = i % 8
        if k < 3:
            g, b = reach(rng)
        elif k == 3:
            g, b = c01.make(rng, 3)
        elif k == 4:
            g, b = rng.choice([c04.make, c05.make])(rng)
        elif k == 5:
            g, b = c05.make(rng)
        elif k == 6:
            g, b = rng.choice([c03.make, c04.make])(rng)
        else:
            g, b = c02.make(rng, rng.choice(c02.ALL), rng.choice(c02.ALL), i)
        out.append(Case(b, g))
    return out


def gcstat(path):
    n = freed = 0
    try:
        for l in open(path):
            w = l.split()
            if len(w) == 3:
                n += 1
                freed += int(w[2])
    except FileNotFoundError:
        pass
    return n, freed


def decide(c, name, args, d, scheds, files, stdin=b'', variant='asan', rl=False, timeout=60, base=None, norm=lambda t: t, home=None):
    """Run under every schedule; all must do what the run without collections does."""
    if base is None:
        base = K.bic(args, stdin, variant, '0', None, d, timeout, rl=rl, home=home)
    if base.crashed() or base.timeout:
        c.inconclusive_case('%s fails without collections: %s' % (name, base.crashed() or 'timeout'))
        return
    for s in scheds:
        log = os.path.join(d, 'gc.log')
        if os.path.exists(log):
            os.unlink(log)
        r = K.bic(args, stdin, variant, s, log, d, timeout, rl=rl, home=home, env={'MALLOC_PERTURB_': '165'})
        n, freed = gcstat(log)
        c.case('%s\0%s\0%s' % (name, s, n) if n else None)
        c.count('collections', n)
        c.count('objects freed by collections', freed)
        c.count('runs under schedule ' + ('natural' if not s else 'every allocation' if s == '1' else
                                          'random' if ':' in s else 'every n-th'))
        if r.timeout and not r.crashed():
            c.inconclusive_case('timeout %s %s' % (name[:60], s))
            continue
        why = r.crashed()
        if not why and (norm(r.out), r.rc) != (norm(base.out), base.rc):
            a = [(x, y) for x, y in zip(base.out.split('\n') + [''], r.out.split('\n') + ['']) if x != y]
            why = 'without collections: %r (status %d), with them: %r (status %d)' % (
                a[0][0][:200] if a else '', base.rc, a[0][1][:200] if a else '', r.rc)
        if why:
            c.violation('collection schedule %s (%s): %s %s' % (s, variant, why, r.err[:500]),
                        dict(files, **{'stderr.txt': r.err[:20000], 'observed.txt': r.out, 'expected.txt': base.out,
                                       'schedule.txt': 'BIC_VERIF_GC=%s bic %s\n' % (s, ' '.join(args)),
                                       'stdin.txt': stdin}))
            return


def run(c):
    c.rule = ('Programs of the generators of C01-C09 and programs that keep objects reachable by a single kind of '
              'path, files of the test suite and sessions of the REPL; each is run without collections and then with a collection at every '
              'allocation, at every n-th one, at random ones and at the natural ones, on the sanitized and '
              'the optimised interpreter. Non-trivial: a (program, schedule) in which collections took place.')
    cases = pool(c.rng, 2400 if K.THOROUGH else 136)
    size = 4
    groups = [cases[i:i + size] for i in range(0, len(cases), size)]
    cfg = Config(includes=(), prelude=SMALL, prelude_ref=SMALL.replace('extern void *stdout;', 'extern void *stdout;'),
                 ref_flags=['-fno-sanitize=unsigned-integer-overflow', '-fsanitize=float-cast-overflow',
                            '-Wno-incompatible-library-redeclaration'])

    def one(a):
        i, grp = a
        if len(c.violations) > 5:
            return
        d = K.scratch()
        ref, err = reference(program(grp, cfg, True), cfg, d)
        if ref is None:
            c.inconclusive_case('reference: ' + err[:300])
            return
        good = [x for n, x in enumerate(grp) if str(n) not in ref[1] and str(n) in ref[0]]
        if not good:
            return
        src = program(good, cfg)
        K.write(d + '/prog.c', src)
        s = ['1', '%d:%d' % (c.rng.randint(2, 40), c.seed * 7919 + i), str(c.rng.choice([2, 3, 5, 7, 11, 17])), None]
        if K.THOROUGH:
            s += ['%d:%d' % (k, c.seed * 104729 + i * 31 + k) for k in (3, 6, 12, 25, 50, 100, 400)]
        decide(c, src, ['-s', 'prog.c'], d, s, {'prog.c': src})
        decide(c, src, ['-s', 'prog.c'], d, ['3' if i % 2 else '2:%d' % i], {'prog.c': src}, variant='plain')
    K.pmap(one, list(enumerate(groups)))
    c.sample(program(groups[0], cfg)[:2500])

    # Sessions, with headers of the directories of -I, and the scripts' sessions.
    def session(i):
        if len(c.violations) > 5:
            return
        rng = random.Random(c.seed * 1000003 + i)
        g = SessGen(rng)
        g.make(25 if i % 4 else 60)
        d = K.scratch()
        for k in range(3):
            os.mkdir('%s/i%d' % (d, k))
        for k, (h, t) in enumerate(g.headers + [('more%d.h' % k, 'int more%d = %d;\nint moref%d(int a) { return a + more%d; }\n' % (k, k, k, k)) for k in range(3)]):
            K.write('%s/i%d/%s' % (d, k % 3, h), t)
        K.write(d + '/.bic', 'int printf(const char *f, ...);\n' + PRELUDE)
        text = [l.text for l in g.lines]
        for k in range(3):
            text.insert(rng.randrange(len(text) + 1), '#include <more%d.h>' % k)
        text += ['moref%d(%d);' % (k, k * 7) for k in range(3)] + ['?cnt', '?gp']
        text = ''.join(l + '\n' for l in text)
        s = ['1', '%d:%d' % (rng.randint(2, 40), i), None if i % 3 else '400:%d' % i, str(rng.choice([2, 3, 5, 11, 50, 200]))]
        decide(c, text, ['-I', d + '/i0', '-I', d + '/i1', '-I', 'i2'], d, s if i % 4 else s[1:], {'session.txt': text}, text, rl=True, norm=lambda t: Norm()(t), home=d, timeout=100)
        c.count('sessions')
    K.pmap(session, range(160 if K.THOROUGH else 16))

    # Longer programs: natural collections only.
    def natural(i):
        cs = pool(c.rng, 8)
        d = K.scratch()
        ref, err = reference(program(cs, cfg, True), cfg, d)
        if ref is None:
            return
        good = [x for n, x in enumerate(cs) if str(n) not in ref[1] and str(n) in ref[0]]
        src = program(good, cfg)
        src = re.sub(r'^    casefn_(\d+)\(\);$', r'    { int rep; for (rep = 0; rep < 12; rep++) casefn_\1(); }', src, flags=re.M)
        K.write(d + '/prog.c', src)
        decide(c, src, ['-s', 'prog.c'], d, [None, '1000', '700:%d' % i], {'prog.c': src}, variant='plain' if i % 2 else 'asan')
    K.pmap(natural, range(64 if K.THOROUGH else 8))

    # The scripts of the test suite.
    def suite(f):
        d = K.scratch()
        src = open(f, encoding='latin-1').read()
        K.write(d + '/prog.c', src)
        decide(c, os.path.basename(f), ['-s', 'prog.c'], d,
               ['53', '90:%d' % c.seed, None] + (['1', '2', '5:3'] if K.THOROUGH else []), {'prog.c': src},
               timeout=120 if K.THOROUGH else 40)
        c.count('scripts of the test suite')
    files = sorted(f for f in glob.glob(K.REPO + '/testsuite/*.c') if 'repl' not in f and 'encrypt' not in f)
    K.pmap(suite, files)
    return 50
