"""Scopes and lifetimes: which object a name designates, and how long it lives."""
from lib import common as K
from lib.diff import Case, Config, differential

NAMES = ['x', 'y', 'z', 'w']
TYPES = ['int', 'long', 'short', 'char', 'unsigned char', 'unsigned int']


class G:
    """Few names, many objects: every object gets values of its own, so that a
    read identifies the object it read."""

    def __init__(self, rng):
        self.rng, self.val, self.uid = rng, 0, 0
        self.fns = []

    def v(self):
        self.val = self.val % 120 + 1
        return self.val

    def decl(self, scope, static_ok=True):
        r = self.rng
        n = r.choice(NAMES)
        if n in scope[-1]:
            return self.stmt(scope)
        t = r.choice(TYPES)
        k = r.random()
        scope[-1][n] = t
        if static_ok and k < .25:
            return 'static %s %s;' % (t, n) if r.random() < .4 else 'static %s %s = %d;' % (t, n, self.v())
        if k < .35:
            # The initialiser is in the scope of the outer one only before its own declarator,
            # so use another name.
            o = [m for s in scope for m in s if m != n]
            if o:
                return '%s %s = %s %% 50;' % (t, n, r.choice(o))
        if k < .45:
            del scope[-1][n]
            scope[-1][n] = t
            o = r.choice([m for m in NAMES if m != n])
            if o not in scope[-1]:
                scope[-1][o] = t
                return '%s %s = %d, %s = %d;' % (t, n, self.v(), o, self.v())
        if k < .6:
            return '%s %s; %s = %d;' % (t, n, n, self.v())
        return '%s %s = %d;' % (t, n, self.v())

    def names(self, scope):
        return sorted({m for s in scope for m in s})

    def show(self, scope):
        ns = self.names(scope)
        ns = self.rng.sample(ns, min(len(ns), 3))
        if self.rng.random() < .2:
            return 'printf("%s\\n", %s);' % (' '.join(['%d:%d'] * len(ns)),
                                            ', '.join('%s, (int)sizeof(%s)' % (m, m) for m in ns))
        return 'printf("%s\\n", %s);' % (' '.join(['%d'] * len(ns)), ', '.join(ns))

    def stmt(self, scope):
        r = self.rng
        ns = self.names(scope)
        k = r.random()
        if k < .3:
            return self.show(scope)
        if k < .55:
            n = r.choice(ns)
            return r.choice(['%s = %d;' % (n, self.v()), '%s++;' % n, '%s += %d;' % (n, r.randint(1, 5)),
                             '%s = %s %% 40;' % (n, r.choice(ns))])
        if k < .7:
            return 'slot$[%d] = (long)&%s;' % (r.randrange(3), r.choice(ns)) if 0 else \
                '{ %s *p = &%s; *p = %d; printf("%%d\\n", *p); }' % (self.typeof(scope, n := r.choice(ns)), n, self.v())
        if k < .85 and self.fns:
            f = r.choice(self.fns)
            return 'printf("%%d\\n", %s(%s));' % (f, r.choice(ns + [str(self.v())]))
        if k < .92:
            # Tags have a name space, and scopes, of their own.
            self.uid += 1
            return ('{ struct x { char a[%d]; }; struct x q; q.a[0] = 1; printf("%%d %%d\\n", '
                    '(int)sizeof(q), (int)sizeof(struct x)); }' % r.randint(1, 9))
        return 'printf("%d\\n", (int)sizeof(struct x));'

    def typeof(self, scope, n):
        for s in reversed(scope):
            if n in s:
                return s[n]

    def block(self, scope, depth, names=(), loop=False, ret=None):
        r = self.rng
        scope = scope + [dict(names)]
        out = []
        for _ in range(r.randint(1, 5)):
            k = r.random()
            if (loop or ret) and r.random() < .12:
                # Leaving from within: the scopes in between end.
                how = r.choice((['break;'] * 3 if loop else []) + ([ret % r.choice(self.names(scope))] if ret else []))
                how = r.choice(['%s', '{ %s }', '{ int %s = %d; %%s }' % (r.choice(NAMES), self.v())]) % how
                out.append('if (%s %% %d == %d) { %s }' % (r.choice(self.names(scope)), r.randint(1, 3), r.choice([0, 0, 1]), how))
            elif k < .35:
                out.append(self.decl(scope))
            elif k < .7 or depth <= 0:
                out.append(self.stmt(scope))
            elif k < .8:
                out.append('{\n%s\n}' % self.block(scope, depth - 1, loop=loop, ret=ret))
            elif k < .87:
                n = r.choice(NAMES)
                # The body may change the variable: `fuel' ends the loop then.
                out.append('for (int %s = 0; %s < %d && fuel$-- > 0; %s++) {\n%s\n}' % (
                    n, n, r.randint(1, 3), n, self.block(scope + [{n: 'int'}], depth - 1, loop=True, ret=ret)))
            elif k < .94:
                self.uid += 1
                out.append('{ int k%d = %d; while (k%d-- > 0 && fuel$-- > 0) {\n%s\n} }' % (
                    self.uid, r.randint(1, 3), self.uid, self.block(scope, depth - 1, loop=True, ret=ret)))
            else:
                out.append('if (%s) {\n%s\n} else {\n%s\n}' % (
                    r.choice(self.names(scope)) + ' % 2', self.block(scope, depth - 1, loop=loop, ret=ret),
                    self.block(scope, depth - 1, loop=loop, ret=ret)))
        out.append(self.show(scope))
        return '\n'.join(out)


def deep(rng):
    """Blocks nested far deeper than those of block(): what's declared far out is found, and again what was hidden."""
    n = rng.randint(15, 70)
    o = {x: rng.randint(1, 99) for x in NAMES}
    out, close, k = ['int %s = %d;' % x for x in o.items()], [], 0
    if rng.random() < .5:
        out[0] = 'static ' + out[0]
    for i in range(n):
        h = rng.choice(['{', '{', '{', 'if (%s > 0) {' % rng.choice(NAMES), 'for (int i%d = 0; i%d < %d; i%d++) {' % (i, i, 1 + (i % 19 == 0), i), '{ int w%d = 1; while (w%d-- > 0) {' % (i, i)])
        out.append(h)
        after = 'printf("%s\\n", %s);' % (' '.join(['%d'] * 4), ', '.join(NAMES)) if rng.random() < .1 else ''
        if rng.random() < .08:
            x = rng.choice(NAMES)
            out.append('int %s = %d;' % (x, rng.randint(1, 99)))
        elif rng.random() < .1:
            out.append('%s += %d;' % (rng.choice(NAMES), rng.randint(1, 3)))
        close.append(after + '}' * h.count('{'))
    out.append('printf("%s\\n", %s);' % (' '.join(['%d'] * 4), ', '.join(NAMES)))
    return 'void main$()\n{\n%s\n%s\nprintf("%%d\\n", %s);\n}' % ('\n'.join(out), '\n'.join(reversed(close)), rng.choice(NAMES)), 'main$();'


def make(rng):
    g = G(rng)
    glob = [{}]
    globs = ['struct x { char a[%d]; };' % rng.randint(10, 20)]
    for n in NAMES:
        t = rng.choice(TYPES)
        glob[0][n] = t
    # Globals are per case: their names are made unique by the preprocessor.
    defs = []
    for n in NAMES:
        k = rng.random()
        defs.append('%s%s %s%s;' % (rng.choice(['', '', 'static ']), glob[0][n], n,
                                    '' if k < .4 else ' = %d' % g.v()))
    # Names of any length count in full.
    long = rng.choice(['', '', '', 'n' * rng.randint(20, 70), '_' * 300, 'int', 'A1' * 40])
    tail = rng.choice(['', '', '_9' * 30]) if long else ''
    head = ['#define %s %s%s$%s' % (n, long, n, tail) for n in NAMES]
    fns = []
    for i in range(rng.randint(1, 3)):
        name = 'f%d$' % i
        p = rng.choice(NAMES)
        guard = 'if (dep$ > 4 || fuel$-- <= 0) return 0; dep$++;'
        body = g.block(glob, 2, {p: 'int'}, ret='dep$--; return %s;')
        fns.append('int %s(int %s)\n{\n%s\n%s\ndep$--; return %s %% 50;\n}' % (
            name, p, guard, body, rng.choice(NAMES)))
        if rng.random() < .4:
            rec = g.block(glob, 1, {p: 'int'}, ret='return %s;')
            fns.append('int r%s(int %s)\n{\n static int n = 7; int me = n; n++;\n if (%s > 0 && n < 12) {'
                       ' r%s(%s - 1); }\n%s\n printf("%%d %%d\\n", me, n); return me;\n}' % (
                           name, p, p, name, p, rec))
            g.fns.append('r' + name)
        g.fns.append(name)
    body = g.block(glob, 3)
    undef = ['#undef ' + n for n in NAMES]
    calls = '\n'.join('printf("%%d\\n", %s(%d)); printf("%%d %%d %%d %%d\\n", x, y, z, w);' % (f, rng.randint(0, 4))
                      for f in g.fns for _ in range(2))
    text = '\n'.join(head + ['int dep$; int fuel$;'] + defs + globs + fns +
                     ['void main$()\n{\n%s\n%s\n}' % (body, calls)] + undef)
    return text.replace('struct x', 'struct x$'), 'fuel$ = 40; main$();'


def run(c):
    c.rule = ('Random nests of blocks, loops, functions and recursion, left at their ends, by break and by return, that reuse four names for global, '
              'static, automatic and parameter objects and for tags; every object gets values of its own, '
              'so that each printed value identifies the object that was read. Compared with the '
              'compiled program. Non-trivial: a new text.')
    n = 8000 if K.THOROUGH else 900
    cases = []
    while len(cases) < n:
        g, b = make(c.rng)
        cases.append(Case(b, g))
    for _ in range(n // 30):
        g, b = deep(c.rng)
        cases.append(Case(b, g, tags=('deep nests of blocks',)))
    cfg = Config(sessions=6, gcs=('97', '700:%d', None, None),
                 ref_flags=['-fno-sanitize=unsigned-integer-overflow'], timeout=30)
    differential(c, cases, cfg, batch=15)
    return 50
