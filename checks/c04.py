"""Function calls: parameters, results, recursion, function pointers."""
from lib import common as K
from lib.diff import Case, Config, differential
from lib.exprgen import INTTYPES, interesting, BITS

FLT = ['float', 'double', 'long double']


def fmt(t):
    return {'float': '%f', 'double': '%f', 'long double': '%Lf'}.get(t, '%ld')


def cast(t, e):
    return e if t in FLT else '(long)' + e


def arg(rng, scalars):
    k = rng.random()
    if k < .5:
        return str(rng.randint(-1 if k < .1 else 0, 300))
    if k < .6:
        return rng.choice(['100000', '70000', '-70000', '255', '256', '2147483647'])
    if k < .9:
        return rng.choice(scalars)
    return '%s + %d' % (rng.choice(scalars), rng.randint(1, 9))


class Prog:
    def __init__(self, rng):
        self.rng = rng
        self.globs, self.fns = ['int depth$; long calls$;'], []

    def simple(self):
        """A function of scalar parameters that traces what it was given."""
        r = self.rng
        name = 'f%d$' % len(self.fns)
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 12])
        ps = [(r.choice(INTTYPES + FLT), r.choice('abcdxyz') + str(i)) for i in range(n)]
        ret = r.choice(INTTYPES + FLT + ['void', 'int', 'int'])
        b = ['calls$++;']
        b.append('printf("%s%s\\n"%s);' % (name, ''.join(' ' + fmt(t) for t, p in ps),
                                          ''.join(', ' + cast(t, p) for t, p in ps)))
        ints = [(t, p) for t, p in ps if t not in FLT]
        terms = ['(long)%s %% 97 * %d' % (p, r.randint(1, 9)) for t, p in ints] or ['%d' % r.randint(0, 200)]
        # A parameter is an object of the call.
        for t, p in ints[:2]:
            if r.random() < .6:
                b.append('%s = %d; printf("%%ld\\n", (long)%s);' % (p, r.randint(0, 100), p))
        for callee in r.sample(self.fns, min(len(self.fns), r.choice([0, 0, 1, 1, 2]))):
            b.append(self.call(callee, ['%d' % r.randint(0, 90)] + [p for t, p in ints]))
        expr = ' + '.join(terms)
        if ret != 'void':
            if r.random() < .6:
                b.append(self.leave('if ((%s) %% 2) return %s;' % (expr, arg(r, [p for t, p in ints] or ['3']))))
            if ret in FLT and [1 for t, p in ps if t in FLT]:
                b.append('return %s;' % r.choice([p for t, p in ps if t in FLT]))
            else:
                b.append('return %s;' % expr)
        else:
            b.append(r.choice(['return;', '', self.leave('if (calls$ % 2) return;') + ' printf("v\\n");']))
        self.globs.append('%s %s(%s) {\n    %s\n}' % (ret, name, ', '.join('%s %s' % p for p in ps),
                                                      '\n    '.join(b)))
        if r.random() < .3:
            proto = '%s %s(%s);' % (ret, name, ', '.join(t for t, p in ps))
            self.globs.insert(1, proto)
        self.fns.append((name, ret, [t for t, p in ps]))

    def leave(self, stmt):
        """A return out of blocks and loops that have objects of their own."""
        r = self.rng
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            n = r.randint(0, 9999)
            d = r.choice(['', 'int w%d = %d; ' % (n, n), 'long k[2]; k[1] = %d; ' % n])
            stmt = r.choice(['{ %s%s }', 'if (1) { %s%s }', 'if (0) ; else { %s%s }', 'for (int z%d = 0; z%d < 2; z%d++) { %%s%%s }' % (n, n, n),
                             'while (1) { %s%s break; }', 'for (;;) { %s%s break; }', 'if (calls$ >= 0) { %s%s calls$ += 0; }']) % (d, stmt)
        return stmt

    def args(self, f, scalars):
        return ', '.join(arg(self.rng, scalars) for _ in f[2])

    def call(self, f, scalars):
        """A statement that calls f in some way and prints what it returns."""
        r = self.rng
        name, ret, ps = f
        sig = ', '.join(ps)
        adr = r.choice(['', '&', '*']) + name
        a = self.args(f, scalars)
        k = r.random()
        n = r.randint(0, 99999)
        if k < .3:
            callee, pre = name, ''
        elif k < .4:
            callee, pre = r.choice(['(%s)', '(*%s)', '(&%s)', '(*&%s)', '(**%s)']) % name, ''
        elif k < .55:
            pre = '%s (*fp%d)(%s); fp%d = %s; ' % (ret, n, sig, n, adr)
            callee = r.choice(['fp%d', '(*fp%d)']) % n
        elif k < .65:
            pre = 'struct T%d { int pad; %s (*m)(%s); } o%d; o%d.m = %s; ' % (n, ret, sig, n, n, adr)
            callee = 'o%d.m' % n
        elif k < .75:
            pre = ('typedef %s (*ty%d)(%s); ty%d ar%d[3]; ar%d[1] = %s; ' %
                   (ret, n, sig, n, n, n, adr))
            callee = 'ar%d[1]' % n
        elif k < .85:
            pre = ('struct T%d { char c; %s (*m)(%s); } o%d, *po%d; po%d = &o%d; po%d->m = %s; ' %
                   (n, ret, sig, n, n, n, n, n, adr))
            callee = 'po%d->m' % n
        else:
            pre = '%s (*fp%d)(%s); %s (**pp%d)(%s); fp%d = %s; pp%d = &fp%d; ' % (
                ret, n, sig, ret, n, sig, n, adr, n, n)
            callee = r.choice(['(*pp%d)', '(**pp%d)', 'pp%d[0]']) % n
        e = '%s(%s)' % (callee, a)
        if ret == 'void':
            return '{ %s%s; }' % (pre, e)
        k = r.random()
        if ret in FLT:
            return '{ %s%s rv = %s; printf("%s\\n", rv); }' % (pre, ret, e, fmt(ret))
        if k < .3:
            return '{ %slong rv = %s; printf("%%ld\\n", rv); }' % (pre, e)
        if k < .5:
            return '{ %sprintf("%%ld\\n", (long)%s); }' % (pre, e)
        if k < .6:
            return '{ %s%s; }' % (pre, e)
        if k < .75:
            return '{ %sif (%s) printf("t\\n"); else printf("f\\n"); }' % (pre, e)
        if k < .9:
            return '{ %slong rv = 1 + (long)%s %% 1000; printf("%%ld\\n", rv); }' % (pre, e)
        return '{ %slong ra[2]; ra[1] = %s; printf("%%ld\\n", ra[1]); }' % (pre, e)

    def recursive(self):
        r = self.rng
        k = r.randrange(7)
        n = len(self.globs)
        if k == 0:
            t = r.choice(['int', 'long', 'short', 'unsigned int', 'long long'])
            self.globs.append('%s fib$_%d(%s n) { if (n < 2) return n; return fib$_%d(n - 1) + fib$_%d(n - 2); }' % (t, n, t, n, n))
            return 'printf("%%ld\\n", (long)fib$_%d(%d));' % (n, r.randint(0, 11))
        if k == 1:
            self.globs.append('int hb$_%d(int d, char a, char b, char c) { int n; n = 0; if (d > 0) { n = n + hb$_%d(d - 1, a, c, b); printf("%%c%%c\\n", a, b); n = n + 1; n = n + hb$_%d(d - 1, c, b, a); } return n; }' % (n, n, n))
            return "printf(\"%%d\\n\", hb$_%d(%d, 'a', 'b', 'c'));" % (n, r.randint(0, 5))
        if k == 2:
            self.globs.append('int od$_%d(int n);\nint ev$_%d(int n) { printf("e%%d\\n", n); if (n == 0) return 1; return od$_%d(n - 1); }\nint od$_%d(int n) { printf("o%%d\\n", n); if (n == 0) return 0; return ev$_%d(n - 1); }' % (n, n, n, n, n))
            return 'printf("%%d\\n", ev$_%d(%d));' % (n, r.randint(0, 15))
        if k == 3:
            # Locals of each activation are distinct objects.
            self.globs.append('int lc$_%d(int n, int *up) { int me; int arr[3]; me = n * 10; arr[1] = n; if (up) *up = *up + n; if (n > 0) { lc$_%d(n - 1, &me); lc$_%d(n - 2, &arr[1]); } printf("%%d %%d %%d\\n", n, me, arr[1]); return me; }' % (n, n, n))
            return 'printf("%%d\\n", lc$_%d(%d, 0));' % (n, r.randint(1, 5))
        if k == 4:
            self.globs.append('int ack$_%d(int m, int n) { if (m == 0) return n + 1; if (n == 0) return ack$_%d(m - 1, 1); return ack$_%d(m - 1, ack$_%d(m, n - 1)); }' % (n, n, n, n))
            return 'printf("%%d\\n", ack$_%d(%d, %d));' % (n, r.randint(0, 2), r.randint(0, 3))
        if k == 5:
            self.globs.append('int ap$_%d(int (*f)(int), int n) { if (n == 0) return 0; return f(n) + ap$_%d(f, n - 1); }\nint sq$_%d(int x) { return x * x; }\nint tw$_%d(int x) { return sq$_%d(x) + x; }' % (n, n, n, n, n))
            return 'printf("%%d %%d\\n", ap$_%d(sq$_%d, %d), ap$_%d(&tw$_%d, 4));' % (n, n, r.randint(0, 8), n, n)
        self.globs.append('typedef int (*fn$_%d)(int, int);\nint ad$_%d(int a, int b) { return a + b; }\nint mu$_%d(int a, int b) { return a * b; }\nfn$_%d pk$_%d(int w) { if (w %% 2) return &ad$_%d; return mu$_%d; }' % ((n,) * 7))
        return 'fn$_%d q%d; for (int i = 0; i < 4; i++) { q%d = pk$_%d(i); printf("%%d %%d\\n", q%d(i, 5), pk$_%d(i + 1)(3, i)); }' % (n, n, n, n, n, n)


def make(rng):
    p = Prog(rng)
    for _ in range(rng.randint(1, 6)):
        p.simple()
    body = ['int l$ = %d; short m$ = %d; calls$ = 0;' % (rng.randint(0, 99), rng.randint(0, 99))]
    for _ in range(rng.randint(3, 10)):
        body.append(p.call(rng.choice(p.fns), ['l$', 'm$']))
    for _ in range(rng.randint(0, 3)):
        body.append(p.recursive())
    body.append('printf("%ld %d %d\\n", calls$, l$, m$);')
    return '\n'.join(p.globs), '\n'.join(body)


def many(rng):
    """Calls nested deeper, or more of them in a row, than small counters can count."""
    k = rng.randint(0, 4)
    n = rng.choice([130, 257, 300, 520, 700])
    w = rng.choice([257, 1030, 5000, 9000])
    t = rng.choice(['int', 'long', 'unsigned int', 'short'])
    if k == 0:
        return rng.choice(['%s dn$(%s n) { if (n == 0) return 0; return dn$(n - 1) + 1; }', '%s dn$(%s n) { return n ? 1 + dn$(n - 1) : 0; }', '%s dn$(%s n) { int r; r = n; return (n == 0 ? 7 : dn$(n - 1)) + (r & 1); }',
                           '%s dn$(%s n) { return n > 0 && dn$(n - 1) > 0 || n %% 3; }', '%s dn$(%s n) { int k; for (k = 0; k < 1; k++) { if (n > 0) { { return dn$(n - 1) + 2; } } } return 5; }']) % (t, t), 'printf("%%ld\\n", (long)dn$(%d));' % n
    if k == 1:
        return 'void dw$(int n, int *s) { int me; me = n; if (n > 0) dw$(n - 1, s); *s = *s * 3 + me; *s = *s & 65535; }', 'int s; s = 0; dw$(%d, &s); printf("%%d\\n", s);' % n
    if k == 2:
        return '%s ct$ = 0; %s tk$(%s a) { ct$ += a; return ct$; }' % (('int', t, t)), 'int i; for (i = 0; i < %d; i++) tk$(i & 3); printf("%%d\\n", ct$);' % w
    if k == 3:
        return 'int od$(int n); int ev$(int n) { if (n == 0) return 1; return od$(n - 1); } int od$(int n) { if (n == 0) return 0; return ev$(n - 1); }', 'printf("%%d %%d\\n", ev$(%d), ev$(%d));' % (n, n + 1)
    m = rng.choice([40, 130, 257])
    ps = [(rng.choice(['int', 'char', 'long', 'short', 'double']), 'p%d' % i) for i in range(m)]
    pick = sorted({0, 1, m - 1, m - 2, m // 2} | {rng.randrange(m) for _ in range(3)})
    return ('void mp$(%s)\n{\n%s\n}' % (', '.join('%s %s' % x for x in ps), ' '.join('printf("%s\\n", %s%s);' % ('%g' if ps[i][0] == 'double' else '%ld', '' if ps[i][0] == 'double' else '(long)', ps[i][1]) for i in pick)),
            'mp$(%s);' % ', '.join('%d%s' % (rng.randint(1, 100), '.5' * (a == 'double')) for a, _ in ps))


def run(c):
    c.rule = ('Random families of functions of 0 to 12 parameters of 13 types, called directly, through '
              'variables, members, elements and parameters of function pointer type, nested and '
              'recursively; each call traces its parameters and its result. The trace is compared with '
              'that of the compiled program. Non-trivial: a new text.')
    n = 8000 if K.THOROUGH else 900
    cases = []
    while len(cases) < n:
        g, b = make(c.rng)
        cases.append(Case(b, g))
    cfg = Config(sessions=6, gcs=('97', '700:%d', None, None), ref_flags=['-fno-sanitize=unsigned-integer-overflow', '-fsanitize=float-cast-overflow'])
    differential(c, cases, cfg, batch=20)
    mcases = []
    for _ in range(600 if K.THOROUGH else 40):
        g, b = many(c.rng)
        mcases.append(Case(b, g, tags=('many calls',)))
    differential(c, mcases, Config(gcs=('9001', None, '2000:%d', None), timeout=300), batch=4)
    return 50
