"""Control flow: which statements run, in which order, how often."""
from lib import common as K
from lib.diff import Case, Config, differential


class G:
    def __init__(self, rng, fname, args, others):
        self.rng, self.f, self.n = rng, fname, 0
        self.vars = list(args)
        self.budget = rng.randint(8, 40)
        self.loopvar = 0
        self.others = others

    def trace(self):
        self.n += 1
        vs = self.rng.sample(self.vars, min(len(self.vars), 2))
        return 'printf("%s %d%s\\n"%s);' % (self.f, self.n, ' %d' * len(vs),
                                           ''.join(', ' + v for v in vs))

    def cond(self):
        r = self.rng
        v = r.choice(self.vars)
        k = r.random()
        c = r.choice(['%s %% %d == %d' % (v, r.randint(2, 4), r.randint(0, 3)),
                      '%s %s %d' % (v, r.choice(['<', '>', '<=', '>=', '==', '!=']), r.randint(-2, 8)),
                      v, '!' + v, '%s & %d' % (v, r.choice([1, 2, 4])), str(r.randint(0, 1))])
        if k < .25:
            c = '%s %s %s' % ('(' + c + ')', r.choice(['&&', '||']), self.tcall())
        elif k < .4:
            c = '(%s) %s (%s)' % (c, r.choice(['&&', '||']), self.cond())
        elif k < .47:
            c = '(%s) ? %s : %s' % (c, self.tcall(), self.tcall())
        return c

    def tcall(self):
        self.n += 1
        return 't$(%d, %s)' % (1000 + self.n, self.rng.choice(self.vars))

    def body(self, depth, inloop):
        r = self.rng
        k = r.random()
        if k < .25 and depth:
            # A statement that isn't a block.
            saved = list(self.vars)
            s = '\n' + self.stmt(depth - 1, inloop, nodecl=True)
            self.vars = saved
            return s
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        saved = list(self.vars)
        s = '{\n' + '\n'.join(self.stmt(depth - 1, inloop) for _ in range(n)) + '\n}'
        self.vars = saved
        return s

    def stmt(self, depth, inloop, nodecl=False):
        r = self.rng
        self.budget -= 1
        if depth <= 0 or self.budget < 0:
            k = r.random()
            if inloop and k < .12:
                return 'break;'
            if k < .2 and self.budget < 5:
                return self.ret()
            if k < .3:
                return ';' if r.random() < .3 else self.upd()
            return self.trace()
        k = r.random()
        if k < .12:
            return self.trace()
        if k < .22:
            return self.upd()
        if k < .42:
            s = 'if (%s) %s' % (self.cond(), self.body(depth, inloop))
            if r.random() < .6:
                if r.random() < .3:
                    s += ' else if (%s) %s' % (self.cond(), self.body(depth, inloop))
                if r.random() < .7:
                    s += ' else ' + self.body(depth, inloop)
            return s
        if k < .58:
            return self.forloop(depth)
        if k < .72:
            return self.whileloop(depth, nodecl)
        if k < .78:
            return self.body(depth, inloop) if r.random() < .7 else '{ ' + self.trace() + ' }'
        if k < .84 and not nodecl:
            self.n += 1
            v = 'l%d' % self.n
            s = 'int %s = %s;' % (v, r.choice(['%d' % r.randint(0, 9), r.choice(self.vars) + ' + 1']))
            self.vars.append(v)
            return s
        if k < .88:
            return 'if (%s) { %s %s }' % (self.cond(), self.trace(), self.ret())
        if k < .92 and inloop:
            return 'if (%s) %s' % (self.cond(), r.choice(['break;', '{ %s break; }' % self.trace(),
                                                        '{ { break; } }']))
        if k < .96:
            return '(%s) ? %s : %s;' % (self.cond(), self.tcall(), self.tcall())
        return '%s, %s, %s;' % (self.tcall(), r.choice(self.vars) + '++', self.tcall())

    def upd(self):
        r = self.rng
        v = r.choice(self.vars)
        return r.choice(['%s++;', '--%s;', '%s += 2;', '%s = %%s + 3;' % v, '%s -= 1;',
                         '%s = t$(77, %%s);' % v]) % v

    def ret(self):
        self.n += 1
        return 'return %s;' % self.rng.choice([str(self.rng.randint(0, 99)), self.rng.choice(self.vars),
                                               self.rng.choice(self.vars) + ' + %d' % self.n,
                                               self.tcall()])

    def forloop(self, depth):
        r = self.rng
        self.loopvar += 1
        v = 'i%d' % self.loopvar
        lim = r.randint(0, 4)
        saved = list(self.vars)
        decl = r.random() < .5
        # The loop variable is only updated by the loop itself, so that it ends.
        init = ('int %s = 0' % v) if decl else '%s = 0' % v
        if not decl:
            self.outer.add(v)
        k = r.random()
        cond, step, extra = '%s < %d' % (v, lim), r.choice(['%s++', '++%s', '%s += 1', '%s = %s + 1'])  , ''
        step = step.replace('%s', v)
        if k < .12:
            cond, extra = '', 'if (%s >= %d) break;' % (v, lim)
        elif k < .2:
            cond = '%s < %d && %s' % (v, lim, self.tcall())
        elif k < .27:
            cond, init = '%s-- > 0' % v, ('int %s = %d' % (v, lim) if decl else '%s = %d' % (v, lim))
            step = self.tcall()
        elif k < .33:
            step += ', ' + self.tcall()
        # Each of the three may be absent.
        if r.random() < .2:
            extra, step = extra + ' ' + step + ';', ''
        pre = ''
        if not decl and r.random() < .25:
            pre, init = init + ';', ''
        if extra:
            s = 'for (%s; %s; %s) {\n%s\n%s\n}' % (init, cond, step, extra,
                                                  self.stmt(depth - 1, True))
        else:
            s = 'for (%s; %s; %s) %s' % (init, cond, step, self.body(depth, True))
        if pre:
            s = '{ %s %s }' % (pre, s)
        self.vars = saved
        return s

    def whileloop(self, depth, nodecl):
        r = self.rng
        self.loopvar += 1
        v = 'w%d' % self.loopvar
        self.outer.add(v)
        lim = r.randint(0, 4)
        k = r.random()
        saved = list(self.vars)
        if k < .4:
            s = '{ %s = 0; while (%s++ < %d) %s }' % (v, v, lim, self.body(depth, True))
        elif k < .7:
            s = '{ %s = %d; while (%s) {\n%s--;\n%s\n} }' % (v, lim, v, v, self.stmt(depth - 1, True))
        elif k < .85:
            s = '{ %s = %d; while (1) {\nif (%s-- <= 0) break;\n%s\n} }' % (v, lim, v, self.stmt(depth - 1, True))
        else:
            s = '{ %s = 0; while (%s < %d && (%s)) {\n%s++;\n%s\n} }' % (
                v, v, lim, self.cond(), v, self.stmt(depth - 1, True))
        self.vars = saved
        return s

    def function(self, args):
        self.outer = set()
        depth = self.rng.randint(2, 5)
        stmts = [self.stmt(depth, False) for _ in range(self.rng.randint(1, 5))]
        decl = ''.join('int %s = 0;\n' % v for v in sorted(self.outer))
        last = 'return %s;' % self.rng.choice(self.vars) if self.rng.random() < .9 else 'return 5;'
        return 'int %s(%s)\n{\n%s%s\n%s\n}\n' % (
            self.f, ', '.join('int ' + a for a in args), decl, '\n'.join(stmts), last)


def make(rng):
    globs = ['int cnt$;\nint t$(int id, int v) { cnt$++; printf("t %d %d\\n", id, v); return (id + v) % 3; }']
    # Bounded: a global budget ends a runaway nest of loops in both executions.
    fs = []
    for i in range(rng.randint(1, 2)):
        g = G(rng, 'f%d$' % i, ['a', 'b'], [])
        fs.append('f%d$' % i)
        globs.append(g.function(['a', 'b']))
    body = []
    for f in fs:
        for _ in range(3):
            body.append('printf("= %%d\\n", %s(%d, %d));' % (f, rng.randint(-2, 9), rng.randint(-1, 5)))
    body.append('printf("%d\\n", cnt$);')
    return '\n'.join(globs), '\n'.join(body)


def long(rng):
    """Loops that run longer than small counters can count."""
    n = rng.choice([257, 1025, 4097, 10007, 32771, 65539, 66000])
    m = rng.choice([n, n, rng.randrange(n)])
    end = rng.choice(['break;', 'return;']) if m < n else ''
    i = rng.choice(['int', 'long', 'unsigned int'])
    k = rng.randint(0, 4)
    t = 'if (i == %d) { puts("out"); %s }' % (m, end) if m < n else ''
    step = rng.choice(['i++', '++i', 'i += 1', 'i = i + 1'])
    return ('int n$ = 0; void lf$()\n{\n%s\n}' % [
        '%s i; for (i = 0; i < %d; %s) { n$ += 2; %s }' % (i, n, step, t),
        '%s i; i = 0; while (i < %d) { %s; n$ += 2; %s }' % (i, n, step, t),
        '%s i; i = 0; for (;;) { if (i >= %d) break; %s; n$++; %s }' % (i, n, step, t),
        '%s i; i = 0; while (1) { %s; if (i > %d) break; if (i %% 2) continue$(); else n$ += 3; %s }' % (i, step, n, t),
        '%s i; int j; j = %d; for (i = 0; j-- > 0; %s) { if (i & 1) n$++; %s }' % (i, n, step, t)][k]).replace('continue$()', 'n$++'), 'lf$(); printf("%d\\n", n$);'


def run(c):
    c.rule = ('Random functions of nested if/else, while, for, blocks, break, return, ?:, && and ||, '
              'comma, empty statements and declarations; every statement and every evaluated operand '
              'prints an event. The sequence of events is compared with that of the compiled program. '
              'Non-trivial: a new text.')
    n = 8000 if K.THOROUGH else 1000
    cases = []
    while len(cases) < n:
        g, b = make(c.rng)
        cases.append(Case(b, g))
    cfg = Config(sessions=6, gcs=('97', '700:%d', None, None), ref_flags=['-fno-sanitize=unsigned-integer-overflow'])
    differential(c, cases, cfg, batch=25)
    lcases = []
    for _ in range(600 if K.THOROUGH else 24):
        g, b = long(c.rng)
        lcases.append(Case(b, g, tags=('long loops',)))
    differential(c, lcases, Config(gcs=('9001', None, None), timeout=300), batch=3)
    return 50
