"""Random C expressions over integer objects with known values.

Values are followed while generating, so that an expression is only kept if
each intermediate value is representable in the C type of the operation (the
scope of the property); the compiled program stays the judge of the result."""

BITS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
        'short': (16, True), 'unsigned short': (16, False),
        'int': (32, True), 'unsigned int': (32, False),
        'long': (64, True), 'unsigned long': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False)}
RANK = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2,
        'int': 3, 'unsigned int': 3, 'long': 4, 'unsigned long': 4,
        'long long': 5, 'unsigned long long': 5}
SIZE = {t: b // 8 for t, (b, s) in BITS.items()}
INTTYPES = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int',
            'long', 'unsigned long', 'long long', 'unsigned long long']


def fits(t, v):
    b, s = BITS[t]
    return -(1 << b - 1) <= v < 1 << b - 1 if s else 0 <= v < 1 << b


def trunc(t, v):
    b, s = BITS[t]
    v &= (1 << b) - 1
    if s and v >> b - 1:
        v -= 1 << b
    return v


def promote(t):
    return 'int' if RANK[t] < 3 else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a == b:
        return a
    sa, sb = BITS[a][1], BITS[b][1]
    if sa == sb:
        return a if RANK[a] > RANK[b] else b
    u, s = (b, a) if sa else (a, b)
    if RANK[u] >= RANK[s]:
        return u
    if BITS[s][0] > BITS[u][0]:
        return s
    return 'unsigned ' + s


def interesting(rng, t):
    b, s = BITS[t]
    lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
    k = rng.random()
    if k < .35:
        v = rng.randint(-20, 120)
    elif k < .5:
        v = rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1])
    elif k < .75:
        v = rng.choice([1, -1]) * ((1 << rng.randint(0, b - 1)) + rng.randint(-1, 1))
    else:
        v = rng.randint(lo, hi) >> rng.randint(0, b - 1)
    return max(lo, min(hi, v)) if not fits(t, v) else v


class N:
    """An expression: its text, precedence, C type, value and whether it has
    an effect (calls / assignments)."""
    __slots__ = ('s', 'p', 't', 'v', 'eff', 'ops')

    def __init__(self, s, p, t, v, eff=False, ops=0):
        self.s, self.p, self.t, self.v, self.eff, self.ops = s, p, t, v, eff, ops


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


BIN = {'*': 12, '/': 12, '%': 12, '+': 11, '-': 11, '<<': 10, '>>': 10, '<': 9, '>': 9,
       '<=': 9, '>=': 9, '==': 8, '!=': 8, '&': 7, '^': 6, '|': 5, '&&': 4, '||': 3}


class Gen:
    def __init__(self, rng, variables, calls=None, effects=(), lvals=None, casts=True,
                 sizeofs=True):
        """variables: {name: (type, value)}; calls: [(name, type, fn(value)->value)];
        effects: names of variables that are used once each, with an effect."""
        self.rng, self.vars, self.calls = rng, variables, calls or []
        self.eff = list(effects)
        self.casts, self.sizeofs = casts, sizeofs

    def par(self, n, p):
        if n.p < p or self.rng.random() < .12:
            return '(' + n.s + ')'
        return n.s

    def lit(self, small=False):
        r = self.rng
        if small or r.random() < .6:
            v = r.randint(0, 40)
        else:
            v = abs(interesting(r, r.choice(['char', 'short', 'int', 'int', 'long'])))
            if not fits('long', v):
                v = 7
        k = r.random()
        t = 'int' if fits('int', v) else 'long'
        if k < .6:
            return N(str(v), 16, t, v)
        if k < .8:
            # A hexadecimal or octal literal may be of an unsigned type.
            t = 'int' if fits('int', v) else 'unsigned int' if fits('unsigned int', v) else 'long'
            return N(hex(v), 16, t, v)
        if k < .92:
            t = 'int' if fits('int', v) else 'unsigned int' if fits('unsigned int', v) else 'long'
            return N('0%o' % v if v else '0', 16, t, v)
        c = r.choice('azAZ09 +~!')
        return N("'%s'" % c, 16, 'int', ord(c))

    def leaf(self):
        r = self.rng
        k = r.random()
        if self.eff and k < .15:
            e = self.eff.pop(r.randrange(len(self.eff)))
            t, v = self.vars[e]
            op = r.choice(['++p', '--p', 'p++', 'p--', '=', '+=', '-='])
            if op in ('++p', 'p++') and fits(t, v + 1):
                return N('++' + e, 14, t, v + 1, True) if op[0] == '+' else N(e + '++', 15, t, v, True)
            if op in ('--p', 'p--') and fits(t, v - 1):
                return N('--' + e, 14, t, v - 1, True) if op[0] == '-' else N(e + '--', 15, t, v, True)
            x = r.randint(0, 50)
            if op == '+=' and fits(t, v + x):
                return N('(%s += %d)' % (e, x), 16, t, v + x, True)
            if op == '-=' and fits(t, v - x):
                return N('(%s -= %d)' % (e, x), 16, t, v - x, True)
            return N('(%s = %d)' % (e, x), 16, t, x, True)
        if self.calls and k < .25:
            name, t, fn = r.choice(self.calls)
            a = r.choice([n for n in self.vars if n not in self.alleff])
            at, av = self.vars[a]
            if fits('long', av):
                return N('%s(%s)' % (name, a), 15, t, fn(av), True)
        if k < .75:
            names = [n for n in self.vars if n not in self.alleff]
            n = r.choice(names)
            return N(n, 16, *self.vars[n])
        if self.sizeofs and k < .8:
            t = r.choice(INTTYPES)
            if r.random() < .5:
                return N('sizeof(%s)' % t, 14, 'unsigned long', SIZE[t])
            n = r.choice([n for n in self.vars])
            return N('sizeof(%s)' % n, 14, 'unsigned long', SIZE[self.vars[n][0]])
        return self.lit()

    def expr(self, depth):
        self.alleff = set(getattr(self, 'alleff', ())) | set(self.eff)
        for _ in range(40):
            n = self.try_expr(depth)
            if n:
                return n
        return self.lit(True)

    def try_expr(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < .08:
            return self.leaf()
        k = r.random()
        if k < .16:
            return self.unary(depth)
        if k < .22:
            c, a = self.expr(depth - 1), None
            a = self.expr(depth - 1)
            b = self.expr(depth - 1)
            t = usual(a.t, b.t)
            v = a.v if c.v else b.v
            if not fits(t, a.v) or not fits(t, b.v):
                return None
            return N('%s ? %s : %s' % (self.par(c, 3), self.par(a, 2), self.par(b, 2)), 2, t, v,
                     a.eff or b.eff or c.eff, a.ops + b.ops + c.ops + 1)
        if k < .25:
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            return N('(%s, %s)' % (self.par(a, 1), self.par(b, 1)), 16, b.t, b.v, a.eff or b.eff,
                     a.ops + b.ops + 1)
        op = r.choice(list(BIN))
        a, b = self.expr(depth - 1), self.expr(depth - 1)
        if op not in ('&&', '||') and a.eff and b.eff:
            return None
        return self.binary(op, a, b)

    def binary(self, op, a, b):
        p = BIN[op]
        t = usual(a.t, b.t)
        x, y = a.v, b.v
        if op in ('&&', '||'):
            v = int(bool(x and y)) if op == '&&' else int(bool(x or y))
            t = 'int'
        elif op in ('<<', '>>'):
            t = promote(a.t)
            if not 0 <= y < BITS[t][0] or (op == '<<' and x < 0):
                return None
            v = x << y if op == '<<' else x >> y
        else:
            if not fits(t, x) or not fits(t, y):
                return None
            if op in '/%' and y == 0:
                return None
            v = {'*': lambda: x * y, '/': lambda: cdiv(x, y), '%': lambda: x - y * cdiv(x, y),
                 '+': lambda: x + y, '-': lambda: x - y, '&': lambda: x & y, '|': lambda: x | y,
                 '^': lambda: x ^ y, '<': lambda: int(x < y), '>': lambda: int(x > y),
                 '<=': lambda: int(x <= y), '>=': lambda: int(x >= y), '==': lambda: int(x == y),
                 '!=': lambda: int(x != y)}[op]()
            if p in (8, 9):
                t = 'int'
        if not fits(t, v):
            return None
        ls, rs = self.par(a, p), self.par(b, p + 1)
        sp = ' ' if self.rng.random() < .7 or op in '+-&/*' else ''
        return N(ls + sp + op + sp + rs, p, t, v, a.eff or b.eff, a.ops + b.ops + 1)

    def unary(self, depth):
        r = self.rng
        a = self.expr(depth - 1)
        k = r.randrange(4 if self.casts else 3)
        if k == 0:
            t = promote(a.t)
            if not fits(t, -a.v) or not BITS[t][1]:
                return None
            s = self.par(a, 14)
            return N('-' + (' ' if s[0] == '-' else '') + s, 14, t, -a.v, a.eff, a.ops + 1)
        if k == 1:
            t = promote(a.t)
            if not BITS[t][1]:
                return None
            return N('~' + self.par(a, 14), 14, t, ~a.v, a.eff, a.ops + 1)
        if k == 2:
            return N('!' + self.par(a, 14), 14, 'int', int(not a.v), a.eff, a.ops + 1)
        t = r.choice(INTTYPES)
        return N('(%s)%s' % (t, self.par(a, 14)), 14, t, trunc(t, a.v), a.eff, a.ops + 1)
