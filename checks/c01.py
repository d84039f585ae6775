"""Integer expressions."""
from lib import common as K
from lib.diff import Case, Config, differential
from lib.exprgen import *


def make(rng, size):
    """A case of `size' expressions over the same variables."""
    names = {}
    globs, body, init = [], [], []
    for i in range(rng.randint(4, 7)):
        t = rng.choice(INTTYPES)
        v = interesting(rng, t)
        if names and rng.random() < .35:
            # A value that differs from another one in a single place of its digits.
            w = rng.choice(list(names.values()))[1]
            v = rng.choice([w ^ 1 << rng.choice([7, 8, 15, 16, 31, 32, 52, 53, 62, 63]), -w, ~w, w & 0xffffffff, w + (1 << 32), w + (1 << 63), w - (1 << 63),
                            w << 32, w & ~0xffffffff, 1 << rng.choice([8, 16, 31, 32, 33, 62, 63]), w])
            if not fits(t, v):
                t = next((u for u in rng.sample(INTTYPES, 10) if fits(u, v)), t)
            v = trunc(t, v)
        n = '%s%d$' % (rng.choice(['g', 'v', 'p', 'm']), i)
        where = n[0]
        spell = 'unsigned' if t == 'unsigned int' and rng.random() < .5 else t
        if where == 'g':
            globs.append('%s %s;' % (spell, n))
        elif where == 'p':
            body.append('    %s %s; %s *q%s; q%s = &%s;' % (spell, n, spell, n, n, n))
        elif where == 'm':
            body.append('    struct { char pad; %s a; } s%s;' % (spell, n))
        else:
            body.append('    %s %s;' % (spell, n))
        # Assemble a value without depending on literals of a particular size.
        lv = n
        name = {'p': '*q' + n, 'm': 's' + n + '.a'}.get(where, n)
        target = 's%s.a' % n if where == 'm' else n
        if v == -(1 << 63):
            init.append('    %s = -9223372036854775807; %s = %s - 1;' % (target, target, target))
        elif v >= 1 << 63:
            init.append('    %s = %d; %s = %s + %d;' % (target, v >> 1, target, target, v - (v >> 1)))
        else:
            init.append('    %s = %d;' % (target, v))
        names['(*q%s)' % n if where == 'p' else name] = (t, v)
    effs = []
    for i in range(3):
        t = rng.choice(['int', 'long', 'short', 'unsigned int', 'char'])
        effs.append(('e%d$' % i, t))
        body.append('    %s e%d$;' % (t, i))
    globs.append('int n$;\nlong f$(long a) { n$++; printf("f %ld\\n", a); return a % 1000 + 3; }')

    def fmodel(a):
        return a - 1000 * cdiv(a, 1000) + 3
    body.append('    long r$; unsigned long u$; n$ = 0;')
    lines = []
    # Comparisons and truth of all the values.
    vals = list(names.items())
    rng.shuffle(vals)
    for a, (ta, va) in vals[:3]:
        for b, (tb, vb) in vals[:4]:
            t = usual(ta, tb)
            if fits(t, va) and fits(t, vb):
                ops = ['==', '!=', '<', '>', '<=', '>=']
                lines.append('    printf("%s\\n", %s);' % (' '.join(['%d'] * 6), ', '.join('(int)(%s %s %s)' % (a, o, b) for o in ops)))
        o = vals[-1][0]
        es = ['!' + a, '!!' + a, a + ' && 1', '1 && ' + a, a + ' || 0', '0 || ' + a, '%s ? 1 : 2' % a, '%s && %s' % (a, o), '%s || %s' % (o, a)]
        es = rng.sample(es, 5)
        lines.append('    printf("%s\\n", %s);' % (' '.join(['%d'] * 5), ', '.join('(int)(%s)' % e for e in es)))
        lines.append('    if (%s) printf("if\\n"); else printf("else\\n"); while (%s) { printf("w\\n"); break; } for (;%s;) { printf("f\\n"); break; }' % (a, a, a))
    for k in range(size):
        vs = dict(names)
        for e, t in effs:
            v = rng.randint(0, 60)
            vs[e] = (t, v)
            lines.append('    %s = %d;' % (e, v))
        g = Gen(rng, vs, calls=[('f$', 'long', fmodel)], effects=[e for e, t in effs])
        e = g.expr(rng.randint(1, 5))
        if e.p == 0:
            e.s = '(' + e.s + ')'
        k2 = rng.random()
        if BITS[e.t][1]:
            if k2 < .5:
                lines.append('    r$ = %s; printf("%%ld %%d\\n", r$, n$);' % e.s)
            elif k2 < .7:
                lines.append('    printf("%%ld %%d\\n", (long)(%s), n$);' % e.s if not e.eff else
                             '    r$ = (%s); printf("%%ld\\n", r$);' % e.s)
            elif k2 < .85:
                lines.append('    if (%s) printf("T\\n"); else printf("F\\n");' % e.s)
            else:
                lines.append('    { long w$ = %s; printf("%%ld\\n", w$); }' % e.s)
        else:
            lines.append('    u$ = %s; printf("%%lu %%d\\n", u$, n$);' % e.s)
        lines.append('    printf("%s\\n", %s);' % (' '.join('%ld' for _ in effs),
                                                    ', '.join('(long)' + x for x, t in effs)))
    return '\n'.join(globs), '\n'.join(body + init + lines)


def designators(rng):
    """Assignments, the left operand of which has effects: it is evaluated once."""
    globs, body = [], []
    types = rng.sample(INTTYPES, 3) + [rng.choice(['double', 'float', 'int'])]
    globs.append('int n$; int at$(int k) { n$++; printf("at %d\\n", k); return k; }')
    sub, lines = [], []
    for j, t in enumerate(types):
        flt = t in ('double', 'float')
        A, P, Q, S, R, I = ['%s%d$' % (x, j) for x in 'apqsri']
        globs.append('%s g%s[6]; %s *%s(int k) { n$++; printf("ref %%d\\n", k); return &g%s[k]; }' % (t, A, t, R, A))
        globs.append('struct t%s { char pad; %s m; struct t%s *n; };' % (S, t, S))
        body.append('%s %s[6]; %s *%s; %s **%s; struct t%s %s[6]; struct t%s *h%s; int %s;' % (t, A, t, P, t, Q, S, S, S, S, I))
        lines.append('for (%s = 0; %s < 6; %s++) { %s[%s] = %s * 7 + 40; g%s[%s] = %s * 5 + 30; %s[%s].m = %s + 50; %s[%s].n = &%s[5 - %s]; }' % (
            (I,) * 3 + (A, I, I, A, I, I, S, I, I, S, I, S, I)))
        for k in range(rng.randint(3, 8)):
            x, y = rng.randint(0, 3), rng.randint(1, 4)
            inc = lambda v: rng.choice([v + '++', '++' + v, v + '--', '--' + v, '(%s += 1)' % v, '(%s -= 1)' % v, '(n$++, %s++)' % v])
            d, pre = rng.choice([
                ('%s[%s]' % (A, inc(I)), '%s = %d;' % (I, x + 1)),
                ('*%s' % rng.choice([P + '++', '++' + P, P + '--', '--' + P]), '%s = &%s[%d];' % (P, A, x + 1)),
                ('*(*%s)++' % Q, '%s = %s + %d; %s = &%s;' % (P, A, x, Q, P)),
                ('*%s(%d)' % (R, x), ''), ('%s(%d)[%d]' % (R, x, rng.randint(0, 2)), ''),
                ('*(%s(%d) + 1)' % (R, x), ''), ('g%s[at$(%d)]' % (A, x), ''),
                ('%s[%s].m' % (S, inc(I)), '%s = %d;' % (I, x + 1)),
                ('h%s++->m' % S, 'h%s = &%s[%d];' % (S, S, x)), ('(++h%s)->n->m' % S, 'h%s = &%s[%d];' % (S, S, x)),
                ('%s[at$(%d)].n->m' % (S, x), ''), ('(at$(%d) ? %s : g%s)[%s]' % (rng.randint(0, 1), A, A, inc(I)), '%s = 2;' % I),
            ])
            op = rng.choice(['+=', '-=', '/=', '<<=', '>>=', '^=', '=', '++', 'x++'])
            if flt:
                op = rng.choice(['=', '++', 'x++'])
            # The order of the operands is C's only if one of them has effects.
            rhs = rng.choice([str(y), 'at$(%d)' % y if '(' not in d.replace('(*%s)' % Q, '') and 'n$' not in d else str(y), '%d - 1' % (y + 1), '(char)%d' % y])
            e = d + '++' if op == 'x++' else '++' + d if op == '++' else '%s %s %s' % (d, op, rhs)
            if op in ('++', 'x++') and d[0] == '*':
                e = '(%s)++' % d if op == 'x++' else '++' + d
            lines.append(pre + ' n$ = 0;')
            f = '%f' if flt else '%ld'
            cst = '' if flt else '(long)'
            z = rng.random() * (.7 if flt else 1)
            if z < .5:
                lines.append(e + ';')
            elif z < .7:
                lines.append('printf("%s\\n", %s(%s));' % (f, cst, e))
            elif z < .85:
                lines.append('if (%s) printf("yes\\n"); else printf("no\\n");' % e)
            else:
                lines.append('at$((%s) > 30);' % e)
            lines.append('printf("%%d %%d\\n", n$, (int)%s);' % I)
            lines.append('for (%s = 0; %s < 6; %s++) printf("%s %s %s ", %s%s[%s], %sg%s[%s], %s%s[%s].m); printf("\\n");' % (
                I, I, I, f, f, f, cst, A, I, cst, A, I, cst, S, I))
            lines.append('%s = 0;' % I)
            if pre and P in pre:
                lines.insert(len(lines) - 1, 'printf("%%d\\n", (int)(%s - &%s[0]));' % (P, A))
            if pre and 'h' + S in pre:
                lines.insert(len(lines) - 1, 'printf("%%d\\n", (int)(h%s - &%s[0]));' % (S, S))
    return '\n'.join(globs), '\n'.join(body + lines)


def run(c):
    c.rule = ('Random integer expressions (all operators of C except the unsupported compound '
              'assignments) over global, local, pointed-to and member objects of ten integer types '
              'with boundary values; kept when every intermediate value is representable in the C '
              'type of its operation; the value, the calls made (traced) and the effects on objects '
              'are compared with the compiled program. Non-trivial: the text of the case is new.')
    n = 7200 if not K.THOROUGH else 60000
    cases = []
    for i in range(n // 8):
        g, b = make(c.rng, 8)
        cases.append(Case(b, g))
        if i % 5 == 0:
            g, b = designators(c.rng)
            cases.append(Case(b, g, tags=('assignments to designators with effects',)))
    cfg = Config(sessions=6, gcs=('61', '500:%d', None, None), ref_flags=['-fno-sanitize=unsigned-integer-overflow'])
    differential(c, cases, cfg, batch=20)
    return 50
