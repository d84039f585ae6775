"""Stores and conversions between all scalar types, through every way to store."""
from lib import common as K
from lib.diff import Case, Config, differential
from lib.exprgen import *

FLT = ['float', 'double', 'long double']
ALL = INTTYPES + FLT
FMT = {'float': '%f', 'double': '%f', 'long double': '%Lf'}


def spell(rng, t):
    alts = {'unsigned int': ['unsigned', 'unsigned int'], 'long': ['long', 'long int'],
            'short': ['short', 'short int'], 'unsigned long': ['unsigned long', 'unsigned long int'],
            'long long': ['long long', 'long long int']}
    return rng.choice(alts.get(t, [t]))


def assign_value(rng, t, name, v):
    """Statements that give an object of type t the value v, literal by literal."""
    if t in FLT:
        return '%s = %s;' % (name, v)
    if v == -(1 << 63):
        return '%s = -9223372036854775807; %s = %s - 1;' % (name, name, name)
    if v >= 1 << 63:
        return '%s = %d; %s = %s + %d;' % (name, v >> 1, name, name, v - (v >> 1))
    return '%s = %d;' % (name, v)


def fval(rng, lim):
    """A floating value (as text) whose conversion to integers within lim is defined."""
    k = rng.random()
    if k < .4:
        x = rng.choice(['0.5', '1.5', '2.999', '-0.75', '-3.5', '100.125', '-1.0', '0.0', '126.9'])
    elif k < .8:
        x = '%s%d.%d' % (rng.choice(['', '-']), rng.randint(0, min(lim, 1 << 50)), rng.randint(0, 999))
    else:
        x = '%d.0' % rng.randint(0, min(lim, 1 << 52))
    return x


def show(t, e):
    if t in FLT:
        return 'printf("%s\\n", %s);' % (FMT[t], e)
    if BITS[t][1]:
        return 'printf("%%ld\\n", (long)%s);' % e
    return 'printf("%%lu\\n", (unsigned long)%s);' % e


def dump(e, size):
    """The bytes of an object."""
    return 'dump$((unsigned char *)%s, %d);' % (e, size)


SZ = dict(SIZE)
SZ.update({'float': 4, 'double': 8, 'long double': 16})


def make(rng, src, dst, k):
    s, d = spell(rng, src), spell(rng, dst)
    globs = ['void dump$(unsigned char *p, int n) { int i; for (i = 0; i < n; i++) printf("%d ", p[i]); printf("\\n"); }']
    body = []
    flt = src in FLT
    neg = dst in FLT or BITS[dst][1]
    if flt:
        lim = 1 << 50 if dst in FLT else (1 << BITS[dst][0] - 1) - 1
        if src == 'float':
            lim = min(lim, 1 << 22)
        v = fval(rng, lim)
        if not neg:
            v = v.lstrip('-')
    else:
        v = interesting(rng, src)
        if dst in FLT and rng.random() < .7:
            # Just off, or at, the middle between two floats (doubles).
            b, sg = BITS[src]
            m = rng.choice([24, 24, 53])
            k2 = max(1, b - m - rng.choice([0, 0, 1, 1, 2, 3, 5, rng.randint(1, 30)]))
            x = ((1 << m - 1) + rng.getrandbits(m - 1) << k2) + (1 << k2 - 1) + rng.choice([0, 1, -1, 1, -1, 1 << rng.randint(0, k2)])
            x = x if not sg or rng.random() < .5 else -x
            if fits(src, x):
                v = x
    nd = 10 if dst == 'long double' else SZ[dst]
    globs.append('%s gs$; %s gd$;' % (s, d))
    globs.append('struct S$ { unsigned char a; %s m; unsigned char b; };' % d)
    globs.append('%s conv$(%s x) { return x; }' % (d, s))
    globs.append('%s take$(%s x) { return x; }' % (d, d))
    body.append('%s s$; %s d$; %s *p$; %s arr$[3]; struct S$ st$; unsigned char *c$; int i$;' % (s, d, d, d))
    body.append(assign_value(rng, src, 's$', v))
    src_e = 's$'
    forms = ['d$ = %s;' % src_e + show(dst, 'd$') + dump('&d$', nd)]
    forms.append('gs$ = s$; gd$ = gs$;' + show(dst, 'gd$') + dump('&gd$', nd))
    forms.append('{ %s n$ = %s; %s }' % (d, src_e, show(dst, 'n$') + dump('&n$', nd)))
    canary = 'c$ = (unsigned char *)&arr$[0]; for (i$ = 0; i$ < %d; i$++) c$[i$] = 165;' % (3 * SZ[dst])
    full = 3 * SZ[dst] if dst != 'long double' else 0
    forms.append(canary + 'arr$[1] = %s;' % src_e + show(dst, 'arr$[1]') +
                 dump('&arr$[0]', SZ[dst] + nd) + dump('&arr$[2]', SZ[dst]))
    forms.append(canary + 'p$ = &arr$[0]; p$ = p$ + 1; *p$ = %s;' % src_e + show(dst, '*p$') +
                 dump('&arr$[0]', SZ[dst] + nd) + dump('&arr$[2]', SZ[dst]))
    forms.append('st$.a = 165; st$.b = 90; st$.m = %s;' % src_e + show(dst, 'st$.m') +
                 'printf("%d %d\\n", st$.a, st$.b);')
    forms.append(show(dst, 'conv$(%s)' % src_e))
    forms.append(show(dst, 'take$(%s)' % src_e))
    forms.append(show(dst, '(%s)%s' % (d, src_e)))
    if not flt and dst not in FLT:
        mid = rng.choice(INTTYPES)
        forms.append(show('long', '(%s)(%s)%s' % (d, mid, src_e)) if BITS[dst][1] else
                     show(dst, '(%s)(%s)%s' % (d, mid, src_e)))
        # The value of an assignment is the converted one.
        o = rng.choice(['long', 'unsigned long', 'int', 'short', 'double'])
        forms.append('{ %s o$; o$ = d$ = %s; %s }' % (o, src_e, show(o, 'o$')))
        forms.append('{ long o$; o$ = (d$ = %s); printf("%%ld\\n", o$); }' % src_e)
        t = trunc(dst, v)
        b, sg = BITS[dst]
        # Increments and compound assignments, around the limits.  The result
        # must be representable in the type of the operation.
        w = interesting(rng, dst)
        pt = promote(dst)
        st = assign_value(rng, dst, 'd$', w)
        for op in ('++', '--'):
            r = w + 1 if op == '++' else w - 1
            if fits(pt, r) or not BITS[pt][1]:
                forms.append('%s d$%s; %s' % (st, op, show(dst, 'd$')))
                forms.append('%s %sd$; %s' % (st, op, show(dst, 'd$')))
                if BITS[dst][1] or b < 64:
                    forms.append('%s { long o$; o$ = d$%s; printf("%%ld ", o$); o$ = (long)d$; printf("%%ld\\n", o$); }' % (st, op))
                    if fits(dst, r):
                        forms.append('%s { long o$; o$ = %sd$; printf("%%ld ", o$); o$ = (long)d$; printf("%%ld\\n", o$); }' % (st, op))
        for op in ('+', '-', '/', '^', '<<', '>>'):
            x = interesting(rng, rng.choice(INTTYPES))
            if op in ('<<', '>>'):
                x = rng.randint(0, BITS[pt][0] - 1)
                if op == '<<' and (w < 0 or not fits(pt, w << x)):
                    continue
            if op == '/' and x == 0:
                continue
            ct = 'int' if fits('int', x) else 'long'
            ct = usual(dst, ct)
            if not fits('long', x) or not fits(ct, x) or not fits(ct, w) or x < 0:
                continue
            res = {'+': lambda: w + x, '-': lambda: w - x, '/': lambda: cdiv(w, x),
                   '^': lambda: w ^ x, '<<': lambda: w << x, '>>': lambda: w >> x}[op]()
            if not fits(ct, res):
                continue
            forms.append('%s d$ %s= %d; %s' % (st, op, x, show(dst, 'd$')))
            forms.append('%s arr$[0] = 3; arr$[2] = 4; arr$[1] = d$; arr$[1] %s= %d; %s %s %s' % (
                st, op, x, show(dst, 'arr$[0]'), show(dst, 'arr$[1]'), show(dst, 'arr$[2]')))
    if dst in FLT:
        st = assign_value(rng, dst, 'd$', fval(rng, rng.choice([1 << 8, 1 << 22, 1 << 26, 1 << 50])))
        for op in ('++', '--'):
            for e in ('d$' + op, op + 'd$', '(*p$)' + op, op + 'arr$[1]'):
                forms.append('%s p$ = &d$; arr$[1] = d$; %s %s %s' % (st, show(dst, e), show(dst, 'd$'), show(dst, 'arr$[1]')))
            o = rng.choice(FLT + ['long', 'int'])
            e = rng.choice(['d$' + op, op + 'd$'])
            if o in FLT or '.999' not in st and 'e' not in st:
                st2 = st if o in FLT else 'd$ = %d.%d;' % (rng.randint(3, 10 ** 6), rng.randint(0, 99))
                forms.append('{ %s o$; %s o$ = %s; %s %s }' % (o, st2, e, show(o, 'o$'), show(dst, 'd$')))
    rng.shuffle(forms)
    return '\n'.join(globs), '\n'.join(body + forms[:12])


def run(c):
    c.rule = ('For each ordered pair of 13 arithmetic types: values around the limits stored by '
              'assignment, initialisation, through pointers, into elements and members, as argument '
              'and result, by casts, increments and compound assignments; the value and the bytes '
              'of the object and of its neighbours are compared with the compiled program. '
              'Non-trivial: a new text.')
    rep = 60 if K.THOROUGH else 5
    cases = []
    for k in range(rep):
        for s in ALL:
            for d in ALL:
                g, b = make(c.rng, s, d, k)
                cases.append(Case(b, g, tags=('pair %s' % s if s == d else 'pairs of different types',)))
    cfg = Config(sessions=6, gcs=('61', '500:%d', None, None),
                 ref_flags=['-fno-sanitize=unsigned-integer-overflow', '-fsanitize=float-cast-overflow'])
    differential(c, cases, cfg, batch=25)
    return 50
