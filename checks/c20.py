"""Dumping the syntax tree is faithful and executes nothing."""
import os, random, re
from lib import common as K
from lib import ctree as C
from lib.diff import Case, Config, program

OPS = ['*', '/', '%', '+', '-', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '||', '|', '^', '&', '&&']
BASES = [['int'], ['char'], ['unsigned'], ['long', 'long'], ['unsigned', 'long', 'int'], ['short'], ['float'], ['double'], ['long', 'double'], ['signed', 'char'], ['long', 'unsigned'], ['void'], ['_Bool']]


class Gen:
    """Programs of the whole grammar; they only have to be parsed."""

    def __init__(self, rng):
        self.rng = rng
        self.ids = ['a', 'b', 'count', 'x1', 'list_of', 'ret', 'ifx', 'int_', 'T_IF', 'null', 'tree', 'chain', '_u', 'Z'] + ['v%d' % i for i in range(4)]
        self.types = []
        self.kinds = set()
        self.nt = 0

    def id(self):
        return self.rng.choice(self.ids)

    def num(self):
        r = self.rng
        return ('int', r.choice([0, 1, 2, 7, 8, 9, 10, 97, 255, 2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, r.randint(0, 10**6), r.randint(0, 2**64 - 1)]))

    def flt(self):
        r = self.rng
        return ('flt', float('%.*f' % (r.randint(1, 12), r.choice([0.0, 0.5, 1.0, 3.14159265358979, r.random(), r.random() * 1e-6, r.random() * 1e12, 1e22, 123456.789]))))

    def strg(self):
        r = self.rng
        return ('str', r.choice([b'', b'abc', b'a"b', b'\\', b'>', b'<tree T_INTEGER tINT_VAL: 3>', b'\n', b'x\n', b'\t\x01\xff', b'a\\"b\n', b'"];', b'%s%n', b'tID_STR: ', b'{}', b'-> x', b'//', b'/*',
                                 bytes(r.randint(1, 255) for _ in range(r.randint(1, 12)))]))

    def expr(self, d):
        r = self.rng
        k = r.randint(0, 5) if d <= 0 else r.randint(0, 27)
        if k <= 1:
            return self.num()
        if k <= 3:
            return ('id', self.id())
        if k == 4:
            return self.flt()
        if k == 5:
            return self.strg()
        d -= 1
        if k <= 12:
            return ('bin', r.choice(OPS), self.expr(d), self.expr(d))
        if k == 13:
            return ('neg', self.expr(d))
        if k <= 15:
            return ('un', r.choice(['!', '~', '&', '*', '*', '++', '--']), self.expr(d))
        if k == 16:
            return ('post', r.choice(['++', '--']), self.expr(d))
        if k == 17:
            return ('cond', self.expr(d), self.exprs(d), self.expr(d))
        if k == 18:
            return ('assign', self.expr(d), self.expr(d))
        if k == 19:
            return ('opassign', r.choice(['+', '-', '/', '<<', '>>', '^']), self.expr(d), self.expr(d))
        if k == 20:
            return ('cast', self.type(), self.expr(d))
        if k == 21:
            return ('sizeof', self.type() if r.random() < .5 else self.expr(d))
        if k == 22:
            return ('list', [self.expr(d) for _ in range(r.randint(2, 3))])
        if k == 23:
            return ('call', ('id', self.id()) if r.random() < .8 else self.expr(d), [self.expr(d) for _ in range(r.randint(0, 4))])
        if k == 24:
            return ('idx', self.expr(d), self.exprs(d))
        if k <= 26:
            return ('mem', ('un', '*', self.expr(d)) if r.random() < .5 else self.expr(d), self.id())
        return ('neg', self.num() if r.random() < .5 else self.flt())

    def exprs(self, d):
        return self.expr(d) if self.rng.random() < .85 else ('list', [self.expr(d), self.expr(d)])

    def base(self, d=1, storage=False):
        r = self.rng
        k = r.random()
        if k < .6 or d <= 0:
            s = list(r.choice(BASES))
        elif k < .75 and self.types:
            s = [('name', r.choice(self.types))]
        elif k < .9:
            tag = r.choice([None, self.id(), self.id()])
            members = None if tag and r.random() < .5 else [self.member(d - 1) for _ in range(r.randint(1, 4))]
            s = [('comp', r.choice(['struct', 'union']), tag, members)]
        else:
            tag = r.choice([None, self.id(), self.id()])
            s = [('enum', tag, None if tag and r.random() < .4 else [(self.id(), self.expr(1) if r.random() < .4 else None) for _ in range(r.randint(1, 4))])]
        if storage and r.random() < .3:
            s.insert(r.randint(0, len(s)), r.choice(['static', 'extern', 'register', 'auto']))
        return s

    def member(self, d):
        r = self.rng
        ds = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
            ds.append(('bit', None if r.random() < .2 else self.declarator(0), self.num() if r.random() < .7 else self.expr(1)) if r.random() < .15 else self.declarator(2))
        return ('decl', self.base(d), ds)

    def declarator(self, d, n=None, abstract=False):
        r = self.rng
        k = r.randint(0, 6) if d > 0 else 0
        if k <= 2:
            return None if abstract else ('id', n or self.id())
        if k <= 4:
            return ('ptr', self.declarator(d - 1, n, abstract))
        if k == 5:
            inner = self.declarator(d - 1, n, abstract)
            return ('arr', inner, self.expr(1) if r.random() < .8 else None)
        inner = self.declarator(d - 1, n, abstract)
        return ('fn', inner, self.params(), None)

    def params(self):
        r = self.rng
        k = r.random()
        if k < .2:
            return None
        if k < .35:
            return []
        ps = [('param', self.base(0), self.declarator(2, abstract=r.random() < .3)) for _ in range(r.randint(1, 4))]
        # (void) has no parameters.
        ps = [p if not (p[1] == ['void'] and p[2] is None) else ('param', ['int'], None) for p in ps]
        if r.random() < .2:
            ps.append(('...',))
        return ps

    def type(self):
        return ('type', self.base(1), self.declarator(3, abstract=True))

    def init(self, d):
        r = self.rng
        if d <= 0 or r.random() < .7:
            return self.expr(2)
        xs = []
        for _ in range(r.randint(1, 4)):
            x = self.expr(2)
            if r.random() < .3:
                x = ('des', [('.', self.id()) if r.random() < .5 else ('[', self.expr(1)) for _ in range(r.randint(1, 3))], x)
            xs.append(x)
        return ('inits', xs)

    def decl(self):
        r = self.rng
        if r.random() < .12:
            self.nt += 1
            n = 'type_%d' % self.nt
            s = self.base(2)
            d = self.declarator(2, n)
            self.types.append(n)
            return ('decl', ['typedef'] + s, [d])
        ds = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = self.declarator(3)
            if r.random() < .4:
                x = ('init', x, self.init(2))
            ds.append(x)
        s = self.base(2, True)
        if r.random() < .15:
            s = [x for x in s if x not in ('static', 'extern', 'register', 'auto')]
            if not isinstance(s[0], str) and s[0][0] != 'name':
                ds = []
        return ('decl', s, ds)

    def body(self, d):
        types = list(self.types)
        r = [self.stmt(d - 1) for _ in range(self.rng.choice([0, 1, 1, 2, 3]))]
        self.types = types
        return r

    def stmt(self, d):
        r = self.rng
        k = r.randint(0, 7) if d <= 0 else r.randint(0, 15)
        if k <= 3:
            return ('expr', self.exprs(3))
        if k == 4:
            return self.decl()
        if k == 5:
            return ('ret', None if r.random() < .3 else self.exprs(2))
        if k == 6:
            return r.choice([('break',), ('empty',), ('repl',)])
        if k == 7:
            return ('expr', ('call', ('id', r.choice(['puts', 'exit', 'abort'])), [self.expr(1)]))
        if k <= 10:
            return ('if', self.exprs(2), self.body(d), self.body(d) if r.random() < .5 else None)
        if k == 11:
            return ('while', self.exprs(2), self.body(d))
        if k <= 13:
            i = r.random()
            i = ('empty',) if i < .2 else self.plain() if i < .5 else ('expr', self.exprs(2))
            return ('for', i, ('empty',) if r.random() < .2 else ('expr', self.exprs(2)), None if r.random() < .2 else self.exprs(2), self.body(d))
        return ('block', self.body(d) or [('break',)])

    def plain(self):
        return ('decl', self.base(0), [('init', self.declarator(1), self.expr(2)) for _ in range(self.rng.randint(1, 2))])

    def fn(self):
        b = self.base(1, True)
        d = ('fn', ('id', self.id() if self.rng.random() < .8 else 'main'), self.params(), self.body(3))
        for _ in range(self.rng.choice([0, 0, 0, 1, 2])):
            d = ('ptr', d)
        return ('decl', b, [d])

    def program(self):
        r = self.rng
        out = []
        for _ in range(r.randint(1, 10)):
            k = r.random()
            out.append(self.decl() if k < .4 else self.fn() if k < .7 else self.stmt(3))
        return out


def literal(rng):
    def f(v):
        k = rng.randint(0, 9)
        if k == 0:
            return '0x%x' % v
        if k == 1:
            return '0%o' % v if v else '0'
        if k == 2 and 32 <= v < 127 and chr(v) not in "'\\":
            return "'%c'" % v
        return '%d' % v
    return f


def normalise(dot):
    seen = {}
    return re.sub(r'0x[0-9a-f]+', lambda m: seen.setdefault(m.group(0), 'N%d' % len(seen)), dot)


def diff(a, b, path=''):
    if type(a) is not type(b):
        return '%s: expected %s, observed %s' % (path, str(a)[:300], str(b)[:300])
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: expected %s, observed %s' % (path, str(a)[:300], str(b)[:300])
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s/%s' % (path, a[0] if isinstance(a, tuple) and a and isinstance(a[0], str) else i))
            if r:
                return r
        return None
    return None if a == b else '%s: expected %r, observed %r' % (path, a, b)


def dumps(c, d, gc, args=()):
    """(None or what is wrong, tree of the text)"""
    before = sorted(os.listdir(d))
    rs = {}
    for name, opts, g in (('text', ['-T'], gc), ('text again', ['-T'], None), ('graph', ['-T', '-D'], gc), ('graph again', ['-D', '-T'], None)):
        r = K.bic(opts + ['-s', 'p.c'] + list(args), stdin=b'4;\n5;\n', cwd=d, gc=g)
        if r.timeout:
            return 'timeout', None
        w = r.crashed()
        if not w and r.rc:
            w = 'exit status %d: %s' % (r.rc, r.err[:300])
        if not w and r.out:
            w = 'stdout has %r' % r.out[:200]
        if w:
            return '%s: %s' % (name, w), None
        rs[name] = r.err
    if sorted(os.listdir(d)) != before:
        return 'files appeared: %s' % sorted(os.listdir(d)), None
    if rs['text'] != rs['text again']:
        return 'another dump of the text differs', None
    if normalise(rs['graph']) != normalise(rs['graph again']):
        return 'another dump of the graph differs', None
    try:
        what = 'text'
        t = C.read_text(rs['text'])
        what = 'graph'
        g = C.read_dot(rs['graph'])
    except C.Malformed as e:
        return 'the %s is malformed: %s' % (what, e), None
    w = C.same(t, g)
    if w:
        return 'text and graph differ: ' + w, None
    c.count('nodes', rs['text'].count('<tree'))
    return None, t


def count(c, x):
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        c.count('syntax: ' + x[0] + (' ' + x[1] if x[0] in ('un', 'bin', 'opassign', 'post') else ''))
    if isinstance(x, (tuple, list)):
        for y in x:
            count(c, y)


def syntax(c, seed, gc):
    rng = random.Random(seed)
    g = Gen(rng)
    p = g.program()
    src = '\n'.join(C.Render(rng, literal(rng)).s(s) for s in p) + '\n'
    d = K.scratch()
    K.write(d + '/p.c', src)
    why, t = dumps(c, d, gc)
    if why == 'timeout':
        return c.inconclusive_case('timeout')
    c.case(src)
    for x in p:
        count(c, x)
    if not why:
        try:
            why = diff(C.canon(p), C.canon(C.program(t)))
        except C.Malformed as e:
            why = 'the text is malformed: %s' % e
        if why:
            why = 'the dump is not the tree of the program: ' + why
    c.sample(src[:600])
    if why:
        c.violation(why, {'p.c': src, 'replay.txt': 'bic -T -s p.c; bic -T -D -s p.c\n'})


def compiled(c, seed, i, gc):
    """What the dump of a program describes does the same as the program."""
    from checks import c01, c03, c04, c05
    rng = random.Random(seed)
    make = [lambda r: c01.make(r, 4), c03.make, c05.make, c04.make][i % 4]
    # The names of c05 are not unique.
    cases = [Case(b, g) for g, b in (make(rng) for _ in range(1 if make is c05.make else 3))]
    src = program(cases, Config(includes=('stdio.h', 'stdlib.h', 'string.h')))
    src = src.replace('int main()\n{', 'int main()\n{\n    fclose(fopen("executed", "w"));', 1)
    d = K.scratch()
    K.write(d + '/p.c', src)
    r = K.run(['gcc', '-w', '-O0', '-fwrapv', '-o', 'ref.out', 'p.c'], cwd=d, timeout=60)
    if r.rc:
        return c.inconclusive_case('does not compile: ' + r.err[:200])
    a = K.run(['./ref.out'], cwd=d, timeout=20)
    if os.path.exists(d + '/executed'):
        os.remove(d + '/executed')
    if a.timeout or a.rc:
        return c.inconclusive_case('the reference fails')
    why, t = dumps(c, d, gc)
    if why == 'timeout':
        return c.inconclusive_case('timeout')
    c.case(src)
    c.count('programs compiled from their dumps')
    out = ''
    if not why:
        try:
            p = C.program(t)
            out = '\n'.join(C.Render().s(s) for s in p) + '\n'
        except C.Malformed as e:
            why = 'the text is malformed: %s' % e
    if not why:
        K.write(d + '/q.c', out)
        r = K.run(['gcc', '-w', '-O0', '-fwrapv', '-o', 'q.out', 'q.c'], cwd=d, timeout=60)
        if r.rc:
            why = 'what the dump describes does not compile: ' + r.err[:300]
        else:
            b = K.run(['./q.out'], cwd=d, timeout=20)
            if b.out != a.out or b.rc != a.rc:
                la, lb = a.out.split('\n'), b.out.split('\n')
                k = [k for k in range(min(len(la), len(lb))) if la[k] != lb[k]] or [min(len(la), len(lb))]
                why = 'what the dump describes is a different program: line %d of its output is %r instead of %r' % (k[0], lb[k[0]:k[0] + 2], la[k[0]:k[0] + 2])
    if why:
        c.violation(why, {'p.c': src, 'dumped.c': out})


def run(c):
    c.rule = ('Random programs of the whole grammar that bic parses (expressions with all operators and random parentheses, declarators, compounds, enumerations, initialisers, statements, code with effects at '
              'the top level) and random programs of other checks with their headers, dumped as text and as graph, twice. Both dumps are parsed; they have to describe one tree, the one the program was '
              'generated from, or one that makes the same program when compiled; nothing may be executed. Non-trivial: a new program.')
    n = 180 if not K.THOROUGH else 6000
    seeds = [c.rng.random() for _ in range(n)]

    def f(i):
        if len(c.violations) >= 4:
            return
        gc = ['17', None, '100:%d' % (c.seed * 100 + i)][i % 3]
        if i % 7 == 6:
            compiled(c, seeds[i], i // 7, gc)
        else:
            syntax(c, seeds[i], gc)
    K.pmap(f, range(n))
    return 60
