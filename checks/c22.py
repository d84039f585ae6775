"""Declarations declare what C says they declare."""
import itertools
from lib import common as K
from lib.diff import Case, Config, differential

SPECS = ['char', 'signed char', 'unsigned char', 'short', 'short int', 'signed short', 'signed short int', 'unsigned short', 'unsigned short int', 'int', 'signed', 'signed int', 'unsigned', 'unsigned int',
         'long', 'long int', 'signed long', 'signed long int', 'unsigned long', 'unsigned long int', 'long long', 'long long int', 'signed long long', 'signed long long int', 'unsigned long long',
         'unsigned long long int', 'float', 'double', 'long double']
PERMS = [list(p) for s in SPECS for p in sorted(set(itertools.permutations(s.split())))]


def is_float(p):
    return 'float' in p or 'double' in p


def size(p):
    if 'char' in p:
        return 1
    if 'short' in p:
        return 2
    return 8 if 'long' in p else 4


# ---------------------------------------------------------------- specifiers
def with_extra(r, p, extra, quals=('const', 'volatile')):
    """The specifiers with qualifiers and others at any place."""
    p = list(p)
    for e in extra + [r.choice(quals) for _ in range(r.choice([0, 0, 0, 1, 2]))]:
        p.insert(r.randint(0, len(p)), e)
    return r.choice([' ', ' ', '\n']).join(p)


def show(p, e):
    if is_float(p):
        return 'printf("%%d %%Lg\\n", (int)sizeof(%s), (long double)%s);' % (e, e)
    return 'printf("%%d %%lld\\n", (int)sizeof(%s), (long long)%s);' % (e, e)


def specs_case(r, p):
    o, g = [], []
    v = [r.choice(['-1', '200', '-200', '40000', '70000', '3000000000', '-5', '65', '4294967295', '1099511627776', '-1099511627776']) for _ in range(6)]
    if is_float(p):
        v = [r.choice(['1.5', '-0.25', '3', '1000000', '0.1']) for _ in v]
    s = lambda *e: with_extra(r, p, list(e))
    m = lambda *e: with_extra(r, p, list(e), ['volatile'])
    g.append('%s g$ = %s;' % (s(), v[0]))
    g.append('%s sg$ = %s, *gp$ = &sg$;' % (s('static'), v[1]))
    g.append('%s z$;' % s())
    g.append('%s T$;' % m('typedef'))
    g.append('%s f$(%s a, %s b) { %s return b; }' % (s(*r.choice([[], [], ['static'], ['static', 'inline']])), s(), s(), '' if is_float(p) else 'if (a) return a;'))
    g.append('struct S$ { char c; %s m; %s a[3]; %s *p; };' % (m(), m(), m()))
    g.append('union U$ { char c; %s m; };' % m())
    o.append('%s l = %s; %s t = %s; T$ ty = %s;' % (s(), v[2], s('static'), v[3], v[4]))
    o.append('struct S$ st; union U$ un; %s ar[4]; %s *p = &l; st.m = %s; st.a[2] = %s; st.p = &st.a[2]; un.m = %s; ar[3] = *p;' % (r.choice([' '.join(p), 'T$']), s(), v[3], v[5], v[0]))
    for e in ['g$', 'sg$', '*gp$', 'z$', 'l', 't', 'ty', 'f$(%s, %s)' % (v[1], v[2]), 'st.m', '*st.p', 'un.m', 'ar[3]', '*p', '(%s)%s' % (s(), v[4]), '(T$)%s' % v[5]]:
        if '(' not in e:
            o.append(show(p, e))
        elif e[0] == 'f':
            o.append('{ T$ x = %s; %s }' % (e, show(p, 'x')))
        elif is_float(p):
            pass
        else:
            o.append('printf("%%lld\\n", (long long)%s);' % e)
    o.append('printf("%%d %%d %%d %%d\\n", (int)sizeof(%s), (int)sizeof(%s *), (int)sizeof(struct S$), (int)sizeof(%s[5]));' % (s(), s(), s()))
    if not is_float(p):
        o.append('printf("%%d\\n", (%s)-1 < 0);' % s() if size(p) < 8 or True else '')
        o.append('ty = 0; ty--; printf("%d %d\\n", ty < 0, ty == -1 || ty > 0);')
    return Case('\n'.join(o), '\n'.join(g), tags=('type specifiers',))


# ---------------------------------------------------------------- declarators
class Decl:
    """A type: ('b', base) ('p', t) ('a', n, t) ('f', [t], t), whose text and objects are of one model."""

    def __init__(self, r):
        self.r, self.n = r, 0
        self.globs, self.out = ['struct B$ { int v; char c; };'], []

    def type(self, d, top=False, ret=False):
        r = self.r
        k = r.random()
        if d <= 0 or k < .15:
            return ('b', r.choice(['int', 'int', 'char', 'long', 'unsigned char', 'short']))
        if top and k < .4:
            return ('a', r.randint(2, 5), self.type(d - 1))
        if k < .8 or ret:
            return ('p', self.type(d - 1))
        return ('p', self.fn(d - 1))

    def fn(self, d):
        return ('f', [self.type(min(d, 1)) for _ in range(self.r.randint(0, 3))], self.type(min(d, 1), ret=True))

    def text(self, t, name, outer=''):
        """The declaration of a name with this type."""
        if t[0] == 'b':
            return (t[1] + ' ' + name).rstrip()
        if t[0] == 'p':
            s = '*' + name
            if t[1][0] in 'af' or self.r.random() < .1 and name:
                s = '(' + s + ')'
            return self.text(t[1], s)
        if t[0] == 'a':
            if self.r.random() < .1 and name and name[0] != '*':
                name = '(' + name + ')'
            return self.text(t[2], '%s[%d]' % (name, t[1]))
        ps = ', '.join(self.text(p, self.r.choice(['', 'p%d' % i])) for i, p in enumerate(t[1]))
        return self.text(t[2], '%s(%s)' % (name, ps or self.r.choice(['', 'void'])))

    def var(self):
        self.n += 1
        return 'v%d' % self.n

    def value(self, t):
        """An expression of this type, made of objects declared for it."""
        r = self.r
        if t[0] == 'b':
            return str(r.randint(1, 100))
        if t[0] == 'p' and t[1][0] == 'f':
            return self.r.choice(['&', '']) + self.function(t[1])
        if t[0] == 'p':
            return '&' + self.object(t[1])

    def function(self, t):
        self.n += 1
        name = 'fn$_%d' % self.n
        ps = ['p%d' % i for i in range(len(t[1]))]
        head = self.text(t[2], '%s(%s)' % (name, ', '.join(self.text(p, n) for p, n in zip(t[1], ps)) or 'void'))
        if t[2][0] == 'b':
            res = str(self.r.randint(1, 100))
        else:
            # An object that lasts.
            keep = 'kept$_%d' % self.n
            self.globs.append(self.text(t[2][1], keep) + ';')
            res = '&' + keep
        use = ''.join(' + %s' % self.read(p, n) for p, n in zip(t[1], ps) if p[0] == 'b' or p[0] == 'p' and p[1][0] == 'b')
        self.globs.append('%s { printf("%s %%d\\n", (int)(0%s)); return %s; }' % (head, name[-4:].strip('$_'), use, res))
        return name

    def read(self, t, e):
        return e if t[0] == 'b' else '*' + e

    def object(self, t):
        n = self.var()
        v = self.value(t)
        self.out.append('%s%s = %s;' % (self.r.choice(['', '', 'static ']) if v[0] != '&' else '', self.text(t, n), v))
        return n

    def use(self, t, e):
        """Print what can be reached."""
        r, o = self.r, self.out
        o.append('printf("%%d\\n", (int)sizeof(%s));' % e)
        if t[0] == 'b':
            o.append('printf("%%ld\\n", (long)%s);' % e)
            if r.random() < .5:
                o.append('%s = %d; printf("%%ld\\n", (long)%s);' % (e, r.randint(1, 100), e))
        elif t[0] == 'a':
            i = r.randrange(t[1])
            x = '%s[%d]' % (e, i)
            o.append('%s = %s;' % (x, self.value(t[2])))
            self.use(t[2], x)
        elif t[1][0] == 'f':
            f = t[1]
            args = ', '.join(self.value(p) for p in f[1])
            call = r.choice(['%s(%s)', '(*%s)(%s)']) % (e, args)
            if f[2][0] == 'b':
                o.append('printf("%%ld\\n", (long)%s);' % call)
            else:
                n = self.var()
                o.append('%s = %s;' % (self.text(f[2], n), call))
                o.append('printf("%%d\\n", %s != 0);' % n)
        else:
            self.use(t[1], r.choice(['(*%s)', '%s[0]']) % e)


def declarator_case(r):
    m = Decl(r)
    for _ in range(2):
        t = m.type(4, top=True)
        n = m.var()
        how = r.randint(0, 6)
        init = '' if t[0] == 'a' else None
        if how == 0:
            n = n + '$'
            m.globs.append(m.text(t, n) + ';')
        elif how == 1:
            m.n += 1
            td = 'ty$_%d' % m.n
            m.globs.append('typedef %s;' % m.text(t, td))
            m.out.append('%s %s;' % (td, n))
            m.out.append('printf("%%d\\n", (int)sizeof(%s));' % td)
        elif how == 2:
            m.out.append('static %s;' % m.text(t, n))
        elif how == 3:
            m.n += 1
            m.globs.append('struct st$_%d { char x; %s; char y; };' % (m.n, m.text(t, 'm')))
            m.out.append('struct st$_%d %s;' % (m.n, n))
            m.out.append('printf("%%d\\n", (int)sizeof(struct st$_%d));' % m.n)
            n += '.m'
        elif how == 4 and t[0] != 'a':
            # A parameter.
            v = m.value(t)
            m.n += 1
            f = 'pf$_%d' % m.n
            keep, m.out = m.out, []
            m.use(t, 'arg')
            body, m.out = m.out, keep
            m.globs.append('void %s(%s)\n{\n%s\n}' % (f, m.text(t, 'arg'), '\n'.join(body)))
            m.out.append('%s(%s);' % (f, v))
            continue
        else:
            m.out.append(m.text(t, n) + ';')
        if r.random() < .3:
            m.out.append('printf("%%d\\n", (int)sizeof(%s));' % m.text(t, ''))
        if t[0] != 'a':
            m.out.append('%s = %s;' % (n, m.value(t)))
            if t[0] == 'p' and r.random() < .4:
                m.out.append('%s = (%s)(void *)%s;' % (n, m.text(t, ''), n))
        m.use(t, n)
    return Case('\n'.join(m.out), '\n'.join(m.globs), tags=('declarators',))


# ---------------------------------------------------------------- lists, initialisers
def list_case(r):
    """Each initialiser is evaluated when its declarator has been, with those before it visible."""
    g = ['int c$; int t$(int id, int v) { c$++; printf("%d:%d %d\\n", c$, id, v); return v + c$; }']
    out, ints, ptrs = [], ['c$'], []
    k = 0
    for _ in range(r.randint(1, 4)):
        ds = []
        base = r.choice(['int', 'int', 'long', 'short', 'static int', 'const int', 'volatile int'])
        for _ in range(r.randint(1, 5)):
            k += 1
            n = 'x%d' % k
            j = r.random()
            e = lambda: r.choice([str(r.randint(0, 50)), r.choice(ints), '%s + %s' % (r.choice(ints), r.choice(ints)), 't$(%d, %s)' % (k, r.choice(ints))] + (['*%s + 1' % r.choice(ptrs)] if ptrs else []))
            if base.startswith('static'):
                ds.append(n if j < .3 else '%s = %d' % (n, r.randint(1, 50)))
                ints.append(n)
            elif j < .5:
                ds.append('%s = %s' % (n, e()))
                ints.append(n)
            elif j < .65 and base in ('int', 'const int', 'volatile int') and any(x.startswith('y') for x in ints):
                ds.append('*%s = &%s' % (n, r.choice([x for x in ints if x.startswith('y')])))
                ptrs.append(n)
            elif j < .8:
                ds.append('%s[%d]' % (n, r.randint(1, 4)))
            elif base == 'int':
                ds.append('y%d = %s' % (k, e()))
                ints.append('y%d' % k)
            else:
                ds.append('%s = (%s) * 2, q%d = %s' % (n, e(), k, n))
                ints += [n, 'q%d' % k]
        out.append('%s %s;' % (base, ', '.join(ds)))
    if r.random() < .3:
        x = r.choice([i for i in ints if i != 'c$'] or ['c$'])
        if x != 'c$':
            out.append('{ int w = %s, %s = w + 1; printf("%%d %%d\\n", w, (int)%s); }' % (x, x, x))
    used = ints + ['*' + p for p in ptrs]
    out.append('printf("%s\\n", %s);' % (' '.join('%ld' for _ in used), ', '.join('(long)' + u for u in used)))
    body = '\n'.join(out)
    if r.random() < .5:
        g.append('void in$() {\n%s\n}' % body)
        body = 'in$(); in$();' if r.random() < .5 else 'for (int i = 0; i < 3; i++) {\n%s\n}' % body
        if body[0] == 'f':
            g.pop()
    return Case(body, '\n'.join(g), tags=('lists of declarators',))


def string_case(r):
    g, out, names = [], [], []
    for i in range(r.randint(2, 5)):
        s = ''.join(r.choice('abcxyz019 %') for _ in range(r.choice([0, 1, 3, 7, 20]))) + r.choice(['', '', '\\n', '\\0', '\\0z', '\\"'])
        n = len(s) - s.count('\\')
        j = r.random()
        size = '' if j < .45 else str(n + 1) if j < .6 else str(n + r.randint(2, 9)) if j < .8 or not n else str(n)
        d = r.choice(['char ', 'char ', 'const char ', 'unsigned char ', 'signed char ', 'static char '])
        kind = r.choice(['s%d[%s] = "%s"', 's%d[%s] = "%s", k%d = %d', 's%d[%s] = "%s", *p%d = "%s"'])
        kind = {0: kind % (i, size, s) if kind.count('%') == 3 else None, 1: ''}[0] or ('s%d[%s] = "%s", k%d = %d' % (i, size, s, i, r.randint(0, 9)))
        where = g if r.random() < .3 else out
        name = 's%d' % i
        if where is g:
            kind = kind.replace('s%d[' % i, 's%d$[' % i).replace('k%d' % i, 'k%d$' % i)
            name += '$'
        where.append(d + kind + ';')
        names.append((name, n + 1 if not size else int(size), 'const' in d))
    for n, z, c in names:
        out.append('printf("%%d:", (int)sizeof(%s)); for (int i = 0; i < %d; i++) printf(" %%d", %s[i]); printf("\\n");' % (n, z, n))
        if not c:
            out.append('%s[%d]++; %s[%d] = 7;' % (n, r.randrange(z), n, r.randrange(z)))
            out.append('for (int i = 0; i < %d; i++) printf(" %%d", %s[i]); printf("\\n");' % (z, n))
    g.append('void in$() {\n%s\n}' % '\n'.join(out))
    return Case('in$();\nin$();', '\n'.join(g), tags=('arrays of characters',))


# ---------------------------------------------------------------- typedefs, enumerations, tags, prototypes
def typedef_case(r):
    g, out = [], []
    # name -> (spelled without typedefs: C text around a name, kind)
    ts = [('int', '%s'), ('char', '%s'), ('unsigned short', '%s'), ('long', '%s')]
    made = []
    for i in range(r.randint(2, 8)):
        n = 'T%d$' % i
        base = r.choice(made + [x[0] for x in ts])
        arr = isinstance(base, tuple)
        b, kind = base if arr else (base, 'b')
        k = r.random()
        lst = []
        if kind == 'f':
            lst.append((n, 'f', '%s'))
        elif kind == 'a':
            lst.append((n, 'a', '%s'))
        elif k < .3:
            lst.append((n, kind, '%s'))
        elif k < .6:
            lst.append((n, 'p' if kind == 'b' else 'q', '*%s'))
            if r.random() < .4:
                lst.append((n + 'b', kind, '%s'))
        elif k < .75:
            lst.append((n, 'a' if kind == 'b' else 'A', '%%s[%d]' % r.randint(2, 6)))
        elif k < .9 and kind == 'b':
            lst.append((n, 'f', '(*%s)(int)'))
        else:
            lst.append((n, kind, '%s'))
            lst.append((n + 'c', 'p' if kind == 'b' else 'q', '*%s'))
        g.append('typedef %s %s;' % (b, ', '.join(f % m for m, _, f in lst)))
        for m, kd, _ in lst:
            out.append('printf("%%d %%d\\n", (int)sizeof(%s), (int)sizeof(%s *));' % (m, m))
            if kd in 'bpaf':
                made.append((m, kd))
    for m, kd in made:
        v = 'v' + m.replace('$', '')
        if kd == 'b':
            out.append('%s %s = 70001, *p%s = &%s; *p%s = *p%s - 3; printf("%%ld %%d\\n", (long)%s, (int)sizeof(%s)); printf("%%ld %%ld\\n", (long)(%s)300, (long)(%s)-1);' % (m, v, v, v, v, v, v, v, m, m))
        elif kd == 'p':
            out.append('%s %s = malloc(64); *%s = 100; %s[2] = 5; printf("%%ld %%ld %%d\\n", (long)*%s, (long)%s[2], (int)sizeof(*%s));' % (m, v, v, v, v, v, v))
        elif kd == 'a':
            out.append('%s %s; %s[1] = 9; %s[0] = 3; printf("%%ld %%d %%d\\n", (long)%s[1], (int)sizeof(%s), (int)sizeof(%s[0]));' % ((m,) + (v,) * 6))
            sv = 'M' + v + '$'
            g.append('%s %s { char c; %s m; char d; %s n[2]; };' % (r.choice(['struct', 'union']), sv, m, r.choice([x[0] for x in ts])))
            key = g[-1].split()[0]
            out.append('%s %s %s; %s.n[1] = 4; %s.m[1] = 77; printf("%%d %%d %%d %%ld\\n", (int)sizeof(%s), (int)sizeof(%s.m), (int)((char *)&%s.m[1] - (char *)&%s), (long)%s.m[1]);' % ((key, sv) + (sv,) * 8))
        elif kd == 'f':
            g.append('long id%s(int a);' % v if 0 else '')
            out.append('%s %s; %s = 0; printf("%%d\\n", %s == 0);' % (m, v, v, v))
    out.append('{ int T; T = 3; { typedef char L$; L$ c = 300; printf("%d %d\\n", c, T); } }')
    return Case('\n'.join(out), '\n'.join(g), tags=('typedefs',))


def enum_case(r):
    g, out, known = [], [], {}
    k = 0

    def const(d=2):
        j = r.random()
        if d == 0 or j < .35:
            return r.choice([str(r.randint(0, 40)), '0x%x' % r.randint(0, 99), "'%s'" % r.choice('aZ0 '), '0%o' % r.randint(1, 64)])
        if j < .6 and known:
            return r.choice(list(known))
        if j < .7:
            return '-' + const(0)
        if j < .75:
            return '(int)sizeof(%s)' % r.choice(['int', 'char', 'long', 'char *'])
        if j < .8:
            return '(%s) %s (%s) ? (%s) : (%s)' % (const(0), r.choice(['<', '>', '==']), const(0), const(0), const(0))
        return '(%s) %s (%s)' % (const(d - 1), r.choice(['+', '-', '*', '|', '&', '^']), const(d - 1))

    def enum(tag, where, local):
        nonlocal k
        items = []
        for _ in range(r.randint(1, 6)):
            k += 1
            n = 'E%d%s' % (k, '' if local else '$')
            items.append(n + (' = ' + const() if r.random() < .4 else ''))
            known[n] = 1
        return 'enum %s { %s%s }' % (tag or '', ', '.join(items), r.choice(['', ',']))
    tags = []
    for i in range(r.randint(1, 3)):
        tag = r.choice([None, 'tag%d$' % i])
        s = enum(tag, g, False)
        j = r.randint(0, 3)
        if j == 0:
            g.append(s + ';')
        elif j == 1:
            x = r.choice(list(known))
            g.append('%s gv%d$ = %s, *gp%d$ = &gv%d$;' % (s, i, x, i, i))
            out.append('printf("%%d %%d\\n", gv%d$, *gp%d$ == gv%d$); gv%d$ = %s; printf("%%d\\n", *gp%d$);' % (i, i, i, i, r.choice(list(known)), i))
        elif j == 2:
            g.append('typedef %s ty%d$;' % (s, i))
            out.append('{ ty%d$ x = %s, y[3]; y[1] = x; printf("%%d %%d\\n", y[1], (int)sizeof(y)); }' % (i, r.choice(list(known))))
        else:
            g.append(s + ' fe%d$(int a) { if (a) return %s; return %s; }' % (i, r.choice(list(known)), r.choice(list(known))))
            out.append('printf("%%d %%d\\n", fe%d$(0), fe%d$(1));' % (i, i))
        if tag:
            tags.append(tag)
    if tags:
        t = r.choice(tags)
        g.append('struct se$ { char c; enum %s e, *p, a[2]; }; int ef$(enum %s a) { return a + 1; }' % (t, t))
        a, b = r.choice(list(known)), r.choice(list(known))
        out.append('struct se$ s; s.e = %s; s.p = &s.e; s.a[1] = %s; enum %s z = %s; printf("%%d %%d %%d %%d %%d %%d\\n", s.e, *s.p, s.a[1], (int)sizeof(s), ef$(z), (enum %s)%s);' % (a, b, t, b, t, a))
    x = r.choice(list(known))
    out.append('if (%s > 0 && %s < 50) { int ar[(%s & 63) + 1]; ar[%s] = 5; printf("%%d %%d\\n", (int)sizeof(ar), ar[%s]); }' % (x, x, x, x, x))
    glob = dict(known)
    loc = enum(r.choice([None, 'here']), out, True)
    out.append('for (int i = 0; i < 2; i++) { %s; printf("%s\\n", %s); }' % (loc, ' '.join('%d' for n in known if n not in glob), ', '.join(n for n in known if n not in glob)))
    h = r.choice(list(glob))
    # An enumerator hidden by others.
    out.append('{ enum { %s = 77 }; printf("%%d\\n", %s); { int %s = 5; printf("%%d\\n", %s); } }' % (h, h, h, h))
    for i in range(0, len(glob), 6):
        grp = list(glob)[i:i + 6]
        out.append('printf("%s\\n", %s);' % (' '.join('%d' for _ in grp), ', '.join(grp)))
    # A type with negative enumerators is a signed one, others may be unsigned.
    g.append('enum ng$ { NG0$ = %s, NG1$, NG2$ = %d, NG3$ = -%d };' % (r.choice(['-1', '-5', '0 - 3', '-(2)', '-2147483647 - 1']), r.randint(0, 900), r.randint(1, 70)))
    g.append('enum ng$ nv$ = NG%d$; struct sn$ { char c; enum ng$ e; } sn$; enum ng$ nf$(enum ng$ x) { return x; } long nl$(long x) { return x; }' % r.randint(0, 3))
    e, a, b = r.choice(['nv$', 'sn$.e', 'loc', '*np', 'nf$(nv$)', 'ar[1]']), 'NG%d$' % r.randint(0, 3), 'NG%d$' % r.randint(0, 3)
    out.append('{ enum ng$ loc = %s, *np, ar[3]; nv$ = %s; sn$.e = %s; ar[1] = %s; np = %s;' % (a, b, a, b, r.choice(['&nv$', '&loc', 'ar + 1', '&sn$.e'])))
    for _ in range(3):
        e = r.choice(['nv$', 'sn$.e', 'loc', '*np', 'nf$(nv$)', 'nf$(loc)', 'ar[1]', '(enum ng$)%s' % r.choice(['-7', 'nv$', 'NG0$'])])
        f = r.choice([('%d', '(int)(%s < 0)'), ('%d', '%s < NG2$ ? 3 : 4'), ('%ld', '(long)%s'), ('%ld', 'nl$(%s)'), ('%d', '%s / 2'), ('%d', '%s >= 0'), ('%ld', '%s + 0l' if False else 'nl$(%s) + 1'), ('%d', '%s == NG0$')])
        out.append('printf("%s\\n", %s);' % (f[0], f[1] % e))
    out.append('{ long l$ = nv$; long long m$; m$ = loc; printf("%ld %lld\\n", l$, m$); } }')
    return Case('\n'.join(out), '\n'.join(g), tags=('enumerations',))


def scope_case(r):
    """Types, tags, enumerators and array sizes are those in scope where a structure is defined, and what a
    definition contains is declared in that scope too."""
    k = [r.randint(1, 9) for _ in range(14)]
    t = r.sample(['int', 'char', 'short', 'long', 'double', 'unsigned char'], 4)
    g = ['enum { N$ = %d };' % k[0]]
    su = lambda: r.choice(['struct', 'struct', 'union'])
    a, b = su(), su()
    # The tag I$ is defined within O$ or before it.
    inner = '%s I$ { %s i; char ic[%d]; }' % (a, t[0], k[1])
    within = r.random() < .5
    if not within:
        g.append(inner + ';')
    ms = ['%s m%s;' % (inner if within else a + ' I$', r.choice(['', '', ', mm', ', *mp']))]
    ms += ['%s arr[N$];' % t[1], '%s I$ *q;' % a, 'struct O$ *self;']
    e = r.choice(['enum { EA$ = %d, EB$ } e;', 'enum e$ { EA$ = %d, EB$ } e, e2;', 'enum { EA$ = %d, EB$ }; int e;']) % k[2]
    ms.append(e)
    anon = r.random() < .6
    if anon:
        ms.append(r.choice(['union { %s ua; char ub[%d]; };', 'struct { %s ua; char ub[%d]; };', 'struct { union { %s ua; struct { short uz; }; }; char ub[%d]; };']) % (t[2], k[3]))
    if r.random() < .3:
        ms.append('typed$ *tp; ar$ ta;')
        g.append('typedef struct { int w; } typed$; typedef short ar$[N$ + 1];')
    head = ms[0]
    rest = ms[1:]
    r.shuffle(rest)
    d = 'struct O$ { %s };' % ' '.join([head] + rest)
    st = r.choice(['', '', 'static '])
    names = ['(int)sizeof(struct O$)', '(int)sizeof(%s I$)' % a, 'o.e', '(int)sizeof(o.arr)', '(int)sizeof(o.m)', '(int)sizeof(*o.q)', '(int)o.q->i', 'EB$', '(int)sizeof(*o.self)', '(int)sizeof(o.self->self->arr)', '(int)o.self->arr[N$ - 1]']
    use = 'o.e = EB$; o.q = &o.m; o.m.i = %d; o.self = &o; o.arr[N$ - 1] = x;' % k[4]
    if anon:
        use += ' o.ua = x + 1; o.ub[%d] = %d;' % (r.randrange(k[3]), k[5])
        names += ['(int)o.ua', '(int)o.self->ub[0]', '(int)((char *)&o.ub - (char *)&o)'][:3]
    if 'uz;' in d:
        use += ' o.self->uz = %d;' % k[6]
    if ' tp' in d:
        names += ['(int)sizeof(*o.tp)', '(int)sizeof(o.ta)']
    shown = lambda: 'printf("%s\\n", %s);' % (' '.join(['%d'] * len(names)), ', '.join(names))
    local = r.random() < .4
    # A static object keeps its members, the ones of others are set before they're read.
    obj = 'static struct O$ o;' if st else 'struct O$ o; memset(&o, 0, sizeof(o));'
    if local:
        j = r.random()
        if j < .35:
            d = d[:-1] + ' o;'
            d, obj = (st + d, '') if st else (d, 'memset(&o, 0, sizeof(o));')
        g.append('int f$(int x)\n{\n%s\n%s %s\n%s\n%s I$ own; own.i = %d; return (int)own.i + EA$; }' % (d, obj, use, shown(), a, k[7]))
        out = ['printf("%d\\n", f$(1)); printf("%d\\n", f$(2)); for (int i = 3; i < 6; i++) printf("%d\\n", f$(i));']
        if r.random() < .5:
            # Another type of that name outside.
            g.insert(len(g) - 1, 'struct O$ { char other[%d]; };' % (k[8] + 50))
            out.append('printf("%d\\n", (int)sizeof(struct O$));')
    else:
        g.append(d)
        if r.random() < .5:
            g.append('struct O$ made$; struct O$ *get$(void) { return &made$; }')
            extra = 'struct O$ *gp = get$(); gp->arr[0] = 5; gp->m.i = 6; gp->q = &gp->m; printf("%d %d %d %d\\n", (int)gp->arr[0], (int)get$()->q->i, (int)sizeof(gp->arr), (int)sizeof(*gp->q));'
        else:
            extra = ''
        hide = []
        if r.random() < .7:
            hide.append('%s I$ { char hidden[%d]; };' % (a, k[9] + 30))
            names[1:2] = ['(int)sizeof(%s I$)' % a]
        if r.random() < .3:
            hide.append('%s I$;' % a if not hide else '')
            if not hide[-1]:
                hide.pop()
            else:
                names = [n for n in names if 'sizeof(%s I$)' % a not in n]
        if r.random() < .3:
            hide.append('enum { EA$ = %d, EB$ = %d };' % (k[10] + 10, k[11] + 30))
        use2 = use
        if r.random() < .6:
            hide.append('int N$ = %d;' % (k[0] + k[12]))
            use2 = use.replace('N$ - 1', str(k[0] - 1))
            names = [n.replace('N$ - 1', str(k[0] - 1)) for n in names]
        if r.random() < .4 and 'typed$' in d:
            hide.append('{ int typed_; }')
        r.shuffle(hide)
        hide = ' '.join(hide)
        order = r.choice([hide + ' ' + obj, obj + ' ' + hide] if not st else [hide + ' ' + obj])
        body = '%s %s\n%s %s' % (order, use2, shown(), extra)
        g.append('int f$(int x)\n{\n%s\nreturn x; }' % body)
        g.append('int by$(struct O$ *p, int x) { %s return (int)p->q->i + sizeof(*p->q) + sizeof(p->arr) + sizeof(p->m) + x; }' % hide)
        out = ['printf("%d\\n", f$(1)); printf("%d\\n", f$(2));',
               '%s I$ mine; struct O$ own; own.q = &own.m; own.m.i = 3; mine.i = 2; printf("%%d %%d %%d\\n", by$(&own, 5), by$(&own, 6), (int)mine.i + EB$);' % a]
        if r.random() < .3:
            out.append('for (int z = 0; z < 2; z++) { enum { L = 5, M }; struct I2 { enum { P = 3 } k; } v; v.k = P; printf("%d %d\\n", f$(z), M + v.k); }')
    return Case('\n'.join(out), '\n'.join(g), tags=('scopes of types',))


def tag_case(r):
    g, out = [], []
    n = r.randint(2, 4)
    kinds = [r.choice(['struct', 'struct', 'union']) for _ in range(n)]
    kinds[0] = 'struct'
    t = ['%s R%d$' % (kinds[i], i) for i in range(n)]
    order = list(range(n))
    r.shuffle(order)
    for i in r.sample(range(n), r.randint(0, n)):
        g.append(t[i] + ';')
    if r.random() < .5:
        i = r.randrange(n)
        g.append('%s *early$; %s;' % (t[i], t[i]))
    tds = {}
    for i in range(n):
        if r.random() < .4:
            # A typedef of the same name, before the definition.
            g.append('typedef %s R%d$;' % (t[i], i) if r.random() < .5 else 'typedef %s *N%d$;' % (t[i], i))
            tds[i] = 'R%d$' % i if g[-1].endswith(' R%d$;' % i) and 'typedef %s R' % t[i] in g[-1] else 'N%d$' % i
    for i in order:
        ms = ['int v;'] + ['%s *p%d;' % (r.choice([t[j]] + (['R%d$' % j] if tds.get(j) == 'R%d$' % j else [])), j) for j in range(n)]
        if kinds[i] == 'struct':
            r.shuffle(ms)
            if r.random() < .3:
                ms.insert(r.randint(0, len(ms)), 'struct { char x; int y; } in;')
            if r.random() < .3:
                ms.insert(r.randint(0, len(ms)), 'union { char x; long y; } un, ua[2];')
            if r.random() < .2:
                ms.append('%s *last[2], **pp;' % t[i])
        d = r.choice(['', '', ' ob%d$' % i, ' ob%d$, *op%d$ = &ob%d$' % (i, i, i)])
        g.append('%s { %s }%s;' % (t[i], ' '.join(ms), d))
        if d:
            out.append('ob%d$.v = %d; printf("%%d\\n", ob%d$.v);' % (i, i + 3, i))
            if 'op' in d:
                out.append('op%d$->v = op%d$->v + 1; printf("%%d\\n", ob%d$.v);' % (i, i, i))
    for i in range(n):
        out.append('%s x%d, *q%d = &x%d; memset(&x%d, 0, sizeof(x%d));' % ((r.choice([t[i]] + (['R%d$' % i] if tds.get(i) == 'R%d$' % i else [])),) + (i,) * 5))
        out.append('printf("%%d\\n", (int)sizeof(%s));' % r.choice([t[i], 'x%d' % i, '*q%d' % i]))
    for i in range(n):
        j = r.randrange(n)
        if kinds[i] == 'struct':
            out.append('q%d->p%d = q%d; q%d->v = %d; x%d.p%d->v = x%d.p%d->v * 2 + %d;' % (i, j, j, j, r.randint(1, 9), i, j, i, j, r.randint(1, 9)))
            out.append('printf("%%d %%d\\n", x%d.p%d == &x%d, q%d->p%d->v);' % (i, j, j, i, j))
    # Names of tags, members, objects and functions don't interfere.
    a = 'w$'
    g.append('struct %s { int %s; }; union u%s { int %s; char c; }; int %s(int %s) { struct %s %s_; %s_.%s = %s; return %s_.%s + 1; }' % ((a,) * 13))
    out.append('struct %s y; union u%s u%s; y.%s = %s(4); u%s.%s = 3; printf("%%d %%d\\n", y.%s, u%s.c); { int %s = 6; struct %s z; z.%s = %s; printf("%%d\\n", z.%s); }' % ((a,) * 14))
    # A tag of an inner scope.
    out.append('{ %s { char only[%d]; } z; printf("%%d %%d\\n", (int)sizeof(z), (int)sizeof(%s)); } printf("%%d\\n", (int)sizeof(%s));' % (t[0], r.randint(40, 90), t[0], t[0]))
    return Case('\n'.join(out), '\n'.join(g), tags=('tags',))


def proto_case(r):
    """Functions declared any number of times in any form before and after their definition."""
    TY = ['int', 'char', 'unsigned char', 'short', 'long', 'unsigned', 'double', 'float', 'int *', 'char *']
    n = r.randint(2, 5)
    fs = []
    for i in range(n):
        fs.append((r.choice(['int', 'char', 'unsigned char', 'short', 'long', 'double']), [r.choice(TY) for _ in range(r.randint(0, 4))], r.choice(['', '', 'static '])))

    def proto(i):
        ret, ps, st = fs[i]
        args = ', '.join(p + (r.choice(['', ' x%d' % j, ' other%d' % j])) for j, p in enumerate(ps))
        return '%s %s(%s)' % (ret, 'pf%d$' % i, args or r.choice(['void', '']))
    g, out = ['int dep$; int gi$ = 11;'], []
    items = []
    for i in range(n):
        for _ in range(r.choice([1, 1, 2, 3])):
            items.append(('p', i))
    r.shuffle(items)
    k = 0
    while k < len(items):
        kind, i = items[k]
        if k + 1 < len(items) and fs[items[k + 1][1]][0] == fs[i][0] and fs[items[k + 1][1]][2] == fs[i][2] and r.random() < .5:
            g.append('%s%s, %s;' % (fs[i][2], proto(i), proto(items[k + 1][1])[len(fs[i][0]) + 1:]))
            k += 2
            continue
        g.append(fs[i][2] + proto(i) + ';')
        k += 1
    order = list(range(n))
    r.shuffle(order)

    def arg(p):
        if p == 'int *':
            return '&gi$'
        if p == 'char *':
            return '"%s"' % r.choice(['x', 'hello', ''])
        if p in ('double', 'float'):
            return r.choice(['1.5', '3', '(char)65'])
        return r.choice(['3', '-1', '300', '70000', '2.75', 'gi$', "'a'"])

    def call(i):
        return 'pf%d$(%s)' % (i, ', '.join(arg(p) for p in fs[i][1]))
    for i in order:
        ret, ps, st = fs[i]
        body = 'printf("f%d' % i
        vals = []
        for j, p in enumerate(ps):
            if p == 'int *':
                body += ' %d'
                vals.append('*a%d' % j)
            elif p == 'char *':
                body += ' %s'
                vals.append('a%d' % j)
            elif p in ('double', 'float'):
                body += ' %g'
                vals.append('a%d' % j)
            else:
                body += ' %ld'
                vals.append('(long)a%d' % j)
        body += '\\n"%s);' % ''.join(', ' + v for v in vals)
        j = r.randrange(n)
        body += ' if (dep$ < 3) { dep$++; %s r = %s; printf("r%d %s\\n", %sr); dep$--; }' % (fs[j][0], call(j), j, '%g' if fs[j][0] == 'double' else '%ld', '' if fs[j][0] == 'double' else '(long)')
        ints = [x for x, p in enumerate(ps) if p not in ('int *', 'char *')]
        res = 'a%d' % r.choice(ints) if ints and r.random() < .6 else r.choice(['300', '7', '-2'])
        g.append('%s%s pf%d$(%s) { %s return %s; }' % (st, ret, i, ', '.join('%s a%d' % (p, j) for j, p in enumerate(ps)) or r.choice(['', 'void']), body, res))
        if r.random() < .3:
            g.append(st + proto(i) + ';')
    for i in range(n):
        out.append('{ %s r = %s; printf("%s\\n", %sr); }' % (fs[i][0], call(i), '%g' if fs[i][0] == 'double' else '%ld', '' if fs[i][0] == 'double' else '(long)'))
    return Case('\n'.join(out), '\n'.join(g), tags=('prototypes',))


def param_case(r):
    """Parameters declared as arrays or functions are pointers."""
    t = r.choice(['int', 'char', 'long', 'double', 'short'])
    n = r.randint(2, 6)
    dims = ['[]', '[%d]' % n, '[%d]' % (n + 3), '*']
    a, b = r.choice(dims), r.choice(dims)
    d = lambda name, x: '%s *%s' % (t, name) if x == '*' else '%s %s%s' % (t, name, x)
    g = ['typedef %s A$[%d]; int h$(int x) { return x * 2; }' % (t, n)]
    if r.random() < .5:
        g.append('int f$(%s, %s, int (int), int);' % (d(r.choice(['', 'q']), a), d('', b)))
    fn = r.choice(['int fn(int)', 'int fn(int z)', 'int (*fn)(int)', 'int (fn)(int)'])
    g.append('int f$(%s, %s, %s, int n) { printf("%%d %%d %%d\\n", (int)sizeof(a), (int)sizeof(b), (int)sizeof(a[0])); a[1] = fn(4); b++; *b = n + 14; for (int i = 0; i < n; i++) printf("%%d ", (int)a[i]); return (int)*b; }' % (d('a', a), d('b', b), fn))
    g.append('int k$(A$ a) { a[0] = 9; a = a + 1; a[0] = 8; return sizeof(a); }')
    g.append('int s$(char *v[], const char *const w[%d]) { v++; printf("%%s %%s %%d\\n", v[0], w[1], (int)sizeof(v)); return 0; }' % n)
    g.append('struct fl$ { int n; %s tail[]; };' % t)
    out = ['%s x[%d], y[%d]; char *v[%d]; for (int i = 0; i < %d; i++) { x[i] = i; y[i] = i * 3; v[i] = "str"; } v[1] = "one";' % (t, n, n, n, n)]
    out.append('printf("%%d\\n", f$(x, y, &h$, %d)); for (int i = 0; i < %d; i++) printf("%%d %%d,", (int)x[i], (int)y[i]);' % (n, n))
    out.append('printf("%d\\n", k$(x)); printf("%d %d\\n", (int)x[0], (int)x[1]); s$(v, v);')
    out.append('struct fl$ *fl = malloc(sizeof(struct fl$) + %d * sizeof(%s)); fl->n = 1; for (int i = 0; i < %d; i++) fl->tail[i] = i + 5; printf("%%d %%d %%d\\n", (int)sizeof(struct fl$), (int)fl->tail[%d], (int)((char *)&fl->tail[1] - (char *)fl)); free(fl);' % (n, t, n, n - 1))
    return Case('\n'.join(out), '\n'.join(g), tags=('parameters',))


def run(c):
    c.rule = ('Every permutation of the specifiers of 29 types with storage classes and qualifiers at all places; random nestings of pointers, arrays and pointers to functions as objects, typedefs, members, '
              'parameters, casts; lists of declarators with initialisers that have effects; typedefs of typedefs; enumerations with constant expressions; tags that are declared, defined and used in any order and '
              'share names with other things; structures that define others, enumerate and have anonymous members, with names hidden where they are used; functions declared repeatedly in several forms; arrays of characters; parameters that are adjusted. The program prints sizes, values and what is reached through each '
              'declared object. Compared with the compiled program. Non-trivial: a new text.')
    k = 12 if K.THOROUGH else 1
    r = c.rng
    cases = [specs_case(r, p) for p in PERMS * k]
    for make, n in ((declarator_case, 150), (list_case, 100), (string_case, 60), (typedef_case, 60), (enum_case, 80), (tag_case, 80), (scope_case, 120), (proto_case, 80), (param_case, 40)):
        cases += [make(r) for _ in range(n * k)]
    r.shuffle(cases)
    cfg = Config(includes=('stdio.h', 'stdlib.h', 'string.h'), gcs=('97', '700:%d', None), sessions=4, ref_flags=['-fno-sanitize=unsigned-integer-overflow,float-cast-overflow'])
    differential(c, cases, cfg, batch=12)
    return 60
