"""Pointers, arrays, members: each access reaches exactly the object designated."""
from lib import common as K
from lib.diff import Case, Config, differential
from lib.exprgen import INTTYPES, BITS, fits

ET = ['int', 'char', 'short', 'long', 'unsigned char', 'unsigned short', 'unsigned int', 'double', 'struct E$']


class G:
    def __init__(self, rng):
        self.rng, self.k = rng, 0
        self.t = rng.choice(ET)
        self.struct = self.t.startswith('struct')
        self.flt = self.t == 'double'
        # Blocks of elements: name -> length.  Known positions keep every access inside.
        self.blocks, self.ptrs, self.pps, self.out = {}, {}, {}, []
        self.m = '.v' if self.struct else ''

    def val(self):
        self.k += 1
        return str(self.k % 100 + 1) + ('.5' if self.flt and self.rng.random() < .5 else '')

    def fmt(self):
        return '%f' if self.flt else '%d'

    def cast(self, e):
        return e if self.flt else '(int)' + e

    def setup(self):
        r, o = self.rng, []
        for i in range(r.randint(1, 3)):
            n = r.randint(2, 7)
            k = r.random()
            b = 'b%d' % i
            if k < .4:
                o.append('%s %s[%d];' % (self.t, b, n))
            elif k < .6:
                self.glob = getattr(self, 'glob', '') + '%s g%s$[%d];\n' % (self.t, b, n)
                b = 'g%s$' % b
            elif k < .8:
                o.append('%s *%s; %s = malloc(%d * sizeof(%s));' % (self.t, b, b, n, self.t))
            else:
                o.append('struct { char pad; %s in[%d]; char post; } w%d;' % (self.t, n, i))
                b = 'w%d.in' % i
            self.blocks[b] = n
            o.append('memset(%s, 0, %d * sizeof(%s));' % (b if 'in' not in b else b, n, self.t))
        for i in range(r.randint(1, 3)):
            b = r.choice(list(self.blocks))
            at = r.randrange(self.blocks[b])
            p = 'p%d' % i
            o.append('%s *%s; %s = &%s[%d];' % (self.t, p, p, b, at))
            self.ptrs[p] = (b, at)
        p = r.choice(list(self.ptrs))
        o.append('%s **pp; pp = &%s; %s *pa[2]; pa[0] = %s; pa[1] = %s; int i; int n;' % (
            self.t, p, self.t, p, p))
        self.pp = p
        self.pa = [self.ptrs[p], self.ptrs[p]]
        return o

    def lv(self):
        """A designator of some element (scalar part), with its position."""
        r = self.rng
        k = r.random()
        if k < .25:
            b = r.choice(list(self.blocks))
            i = r.randrange(self.blocks[b])
            e = r.choice(['%s[%d]' % (b, i), '*(%s + %d)' % (b, i), '%s[%d + %d]' % (b, i, 0)])
        elif k < .8:
            p = r.choice(list(self.ptrs))
            name = p
            if p == self.pp and r.random() < .4:
                name = '(*pp)'
            b, at = self.ptrs[p]
            i = r.randrange(self.blocks[b])
            d = i - at
            es = ['%s[%d]' % (name, d), '*(%s + %d)' % (name, d) if d >= 0 else '*(%s - %d)' % (name, -d)]
            if d == 0:
                es += ['*' + name, '*' + name]
            e = r.choice(es)
        else:
            s = r.randrange(2)
            b, at = self.pa[s]
            i = r.randrange(self.blocks[b])
            d = i - at
            e = r.choice(['pa[%d][%d]' % (s, d), '*(pa[%d] + %d)' % (s, d)])
        if self.struct:
            if e[0] == '*' and r.random() < .5 and d_ok(e):
                return '(' + e[1:] + ')->v', (b, i)
            return '(%s).v' % e, (b, i)
        return ('(%s)' % e if e[0] == '*' else e), (b, i)

    def step(self):
        r = self.rng
        k = r.random()
        if k < .25:
            l, _ = self.lv()
            return '%s = %s;' % (l, self.val())
        if k < .35:
            l, a = self.lv()
            m, b = self.lv()
            return '%s = %s;' % (l, m)
        if k < .45:
            l, _ = self.lv()
            if self.flt:
                return '%s = %s;' % (l, self.val())
            return r.choice(['%s++;', '--%s;', '%s += 3;', '%s -= 2;', '++%s;', '%s--;']) % l
        if k < .7:
            # Move a pointer.
            p = r.choice(list(self.ptrs))
            b, at = self.ptrs[p]
            n = self.blocks[b]
            name = '(*pp)' if p == self.pp and r.random() < .4 else p
            k2 = r.random()
            if k2 < .2:
                b = r.choice(list(self.blocks))
                at = r.randrange(self.blocks[b])
                self.ptrs[p] = (b, at)
                return '%s = %s;' % (name, r.choice(['&%s[%d]' % (b, at), '%s + %d' % (b, at)]))
            if k2 < .4 and not self.struct and not self.flt:
                if at + 1 < n and r.random() < .5:
                    self.ptrs[p] = (b, at + 1)
                    return r.choice(['*%s++ = %s;', 'n = *%s++; printf("%%d %%d\\n", n, %s);']) % (name, self.val()) \
                        if r.random() < 2 else ''
                if at > 0:
                    self.ptrs[p] = (b, at - 1)
                    return r.choice(['*--%s = %s;', 'n = *--%s; printf("%%d %%d\\n", n, %s);']) % (name, self.val())
            to = r.randrange(n)
            d = to - at
            self.ptrs[p] = (b, to)
            if d == 1:
                return r.choice(['%s++;', '++%s;', '%s += 1;']) % name
            if d == -1:
                return r.choice(['%s--;', '--%s;', '%s -= 1;']) % name
            if d < 0:
                return r.choice(['%s -= %d;' % (name, -d), '%s = %s - %d;' % (name, name, -d)])
            return r.choice(['%s += %d;' % (name, d), '%s = %s + %d;' % (name, name, d),
                             '%s = %d + %s;' % (name, d, name)])
        if k < .78:
            p = r.choice(list(self.ptrs))
            b, at = self.ptrs[p]
            o = [q for q in self.ptrs if self.ptrs[q][0] == b]
            q = r.choice(o)
            return ('printf("%%d %%d %%d %%d\\n", (int)(%s - %s), %s %s %s, %s == %s, (int)((char *)%s - (char *)%s));'
                    % (p, b, p, r.choice(['<', '>', '<=', '>=', '!=']), q, p, q, q, p))
        if k < .81:
            # Pointers to void move by bytes.
            p = r.choice(list(self.ptrs))
            b, at = self.ptrs[p]
            to = r.randrange(self.blocks[b])
            d = to - at
            q = r.choice([q for q in self.ptrs if self.ptrs[q][0] == b])
            z = '%d * (int)sizeof(*%s)' % (abs(d), p)
            s = '-' if d < 0 else '+'
            mv = r.choice(['w = w %s %s;', 'w %s= %s;', 'w = w %s (%s);', 'w++; w %s= %s; --w;', 'w = (void *)%s %s %s;' % (p, '%s', '%s')]) % (s, z)
            return ('{ void *w; %s *e; w = %s; %s e = w; printf("%%d %%d %%d %%d\\n", e == &%s[%d], (int)(w - (void *)%s), (int)((void *)%s - w), w %s %s); %s = e; }'
                    % (self.t, p, mv, p, d, p, q, r.choice(['==', '!=']), q, p), self.ptrs.__setitem__(p, (b, to)))[0]
        if k < .84:
            q = r.choice(list(self.ptrs))
            self.pp = q
            return 'pp = &%s;' % q
        if k < .9:
            s = r.randrange(2)
            q = r.choice(list(self.ptrs))
            self.pa[s] = self.ptrs[q]
            return 'pa[%d] = %s;' % (s, q)
        if k < .95:
            b = r.choice(list(self.blocks))
            n = self.blocks[b]
            return ('for (i = 0; i < %d; i++) { %s[i]%s = %s[%d - i]%s; }' % (n, b, self.m, b, n - 1, self.m))
        l, _ = self.lv()
        return 'printf("%s\\n", %s);' % (self.fmt(), self.cast(l))

    def show(self):
        o = []
        for b, n in self.blocks.items():
            o.append('for (i = 0; i < %d; i++) printf("%s ", %s); printf("\\n");' % (
                n, self.fmt(), self.cast('%s[i]%s' % (b, self.m))))
        for p in self.ptrs:
            if self.struct:
                o.append('printf("%%d %%d\\n", %s->v, (*%s).pad);' % (p, p))
            else:
                o.append('printf("%s\\n", %s);' % (self.fmt(), self.cast('(*%s)' % p)))
        return o


def d_ok(e):
    return e.startswith('*(') or e[1:].startswith('p') or e[1:].startswith('(*pp')


TEMPLATES = [
    # linked list: insertion in order, reversal, removal
    '''struct n$ { int v; struct n$ *next; }; struct n$ *ins$(struct n$ *h, int v) { struct n$ **pp; struct n$ *e; e = malloc(sizeof(struct n$)); e->v = v; for (pp = &h; *pp; pp = &((*pp)->next)) if ((*pp)->v > v) break; e->next = *pp; *pp = e; return h; }
struct n$ *rev$(struct n$ *h) { struct n$ *r, *t; r = 0; while (h) { t = h->next; h->next = r; r = h; h = t; } return r; }
@@
struct n$ *h, *p; h = 0; int i; int x; x = {A}; for (i = 0; i < {N}; i++) { x = (x * 37 + {B}) % 101; h = ins$(h, x); }
for (p = h; p; p = p->next) printf("%d ", p->v); printf("\\n"); h = rev$(h); for (p = h; p; p = p->next) printf("%d ", p->v); printf("\\n");
while (h) { p = h; h = h->next; if (p->v % 2) printf("%d\\n", p->v); free(p); }''',
    # binary tree
    '''struct t$ { int k; int c; struct t$ *l, *r; }; void add$(struct t$ **t, int k) { if (*t == 0) { *t = calloc(1, sizeof(struct t$)); (*t)->k = k; (*t)->c = 1; return; } if (k == (*t)->k) { (*t)->c++; return; } if (k < (*t)->k) add$(&(*t)->l, k); else add$(&(*t)->r, k); }
int walk$(struct t$ *t, int d) { int n; if (!t) return 0; n = walk$(t->l, d + 1); printf("%d:%d:%d ", d, t->k, t->c); n += 1; n += walk$(t->r, d + 1); return n; }
@@
struct t$ *root; root = 0; int i; int x; x = {A}; for (i = 0; i < {N}; i++) { x = (x * 29 + {B}) % 53; add$(&root, x); } printf("%d\\n", walk$(root, 0));''',
    # sorts over arrays through pointers
    '''void swap$(int *a, int *b) { int t; t = *a; *a = *b; *b = t; } void qs$(int *lo, int *hi) { int *i, *j; int p; if (lo >= hi) return; p = *lo; i = lo; j = hi; while (i <= j) { while (*i < p) i++; while (*j > p) j--; if (i <= j) { swap$(i, j); i++; j--; } } qs$(lo, j); qs$(i, hi); }
void bs$(long *a, int n) { int i; int j; long t; for (i = 0; i < n; i++) for (j = 0; j + 1 < n - i; j++) if (a[j] > a[j + 1]) { t = a[j]; a[j] = a[j + 1]; a[j + 1] = t; } }
@@
int a[{N}]; long b[{N}]; int i; for (i = 0; i < {N}; i++) { a[i] = (i * {A} + {B}) % 89; b[i] = ({A} * 13 + i * {B}) % 71 - 30; } qs$(a, &a[{N} - 1]); bs$(b, {N}); for (i = 0; i < {N}; i++) printf("%d %ld ", a[i], b[i]); printf("\\n");''',
    # strings
    '''int len$(char *s) { char *p; p = s; while (*p) p++; return p - s; } void cpy$(char *d, const char *s) { while (*d++ = *s++) ; } void rev$(char *s) { char *e; char t; e = s + len$(s) - 1; while (s < e) { t = *s; *s++ = *e; *e-- = t; } } int pal$(char *s) { char *e; e = s + len$(s); while (s < e) { if (*s++ != *--e) return 0; } return 1; }
@@
char b[40]; char c[40]; int i; cpy$(b, "hello, world {A}"); printf("%d\\n", len$(b)); cpy$(c, b); rev$(b); puts(b); puts(c); printf("%d %d\\n", pal$(b), pal$("abcba")); for (i = 0; b[i]; i++) if (b[i] >= 'a' && b[i] <= 'z') b[i] = b[i] - 32; puts(b); printf("%d\\n", strcmp(b, c) != 0);''',
    # sieve, matrix as a flat array, prefix sums
    '''int m$[{N} * {N}]; void mul$(int *r, int *a, int *b, int n) { int i; int j; int k; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { r[i * n + j] = 0; for (k = 0; k < n; k++) r[i * n + j] += a[i * n + k] * b[k * n + j]; } }
@@
char s[{N} * 5]; int i; int j; for (i = 0; i < {N} * 5; i++) s[i] = 1; for (i = 2; i * i < {N} * 5; i++) if (s[i]) for (j = i * i; j < {N} * 5; j += i) s[j] = 0; for (i = 2; i < {N} * 5; i++) if (s[i]) printf("%d ", i); printf("\\n");
int a[9]; int b[9]; int r[9]; for (i = 0; i < 9; i++) { a[i] = i * {A} % 7; b[i] = i * {B} % 5; } mul$(r, a, b, 3); for (i = 0; i < 9; i++) printf("%d ", r[i]); printf("\\n"); for (i = 0; i < {N} * {N}; i++) m$[i] = i; for (i = 1; i < {N} * {N}; i++) m$[i] += m$[i - 1] % 1000; printf("%d\\n", m$[{N} * {N} - 1]);''',
    # hash table of chains, doubly linked list, stack, queue
    '''struct e$ { char *k; int v; struct e$ *nx; }; struct e$ *tab$[7]; int hash$(char *s) { int h; h = 5; while (*s) h = (h * 31 + *s++) % 1009; return h % 7; } int *get$(char *k) { struct e$ *e; int h; h = hash$(k); for (e = tab$[h]; e; e = e->nx) if (strcmp(e->k, k) == 0) return &e->v; e = malloc(sizeof(struct e$)); e->k = strdup(k); e->v = 0; e->nx = tab$[h]; tab$[h] = e; return &e->v; }
@@
int i; char b[12]; struct e$ *e; for (i = 0; i < {N} * 3; i++) { sprintf(b, "k%d", (i * {A} + {B}) % 9); *get$(b) += i; } for (i = 0; i < 7; i++) for (e = tab$[i]; e; e = e->nx) printf("%d %s %d\\n", i, e->k, e->v);''',
    '''struct d$ { int v; struct d$ *p, *n; }; struct l$ { struct d$ head; int len; }; void push$(struct l$ *l, int v) { struct d$ *e; e = malloc(sizeof(struct d$)); e->v = v; e->n = &l->head; e->p = l->head.p; e->p->n = e; l->head.p = e; l->len++; } void del$(struct l$ *l, struct d$ *e) { e->p->n = e->n; e->n->p = e->p; l->len--; free(e); }
@@
struct l$ l; l.head.n = &l.head; l.head.p = &l.head; l.len = 0; int i; struct d$ *e, *t; for (i = 0; i < {N}; i++) push$(&l, (i * {A}) % 23); e = l.head.n; while (e != &l.head) { t = e->n; if (e->v % 3 == {B} % 3) del$(&l, e); e = t; } for (e = l.head.n; e != &l.head; e = e->n) printf("%d ", e->v); for (e = l.head.p; e != &l.head; e = e->p) printf("%d ", e->v); printf("%d\\n", l.len);''',
    '''struct v$ { int *d; int n, cap; }; void app$(struct v$ *v, int x) { if (v->n == v->cap) { v->cap = v->cap ? v->cap * 2 : 2; v->d = realloc(v->d, v->cap * sizeof(int)); } v->d[v->n++] = x; }
@@
struct v$ a, b; memset(&a, 0, sizeof(a)); memset(&b, 0, sizeof(b)); int i; for (i = 0; i < {N} * 4; i++) { app$(&a, i * {A}); if (i % {B} == 0) app$(&b, a.d[i / 2]); } printf("%d %d %d %d\\n", a.n, a.cap, b.n, b.cap); for (i = 0; i < b.n; i++) printf("%d ", b.d[i]); printf("\\n"); free(a.d); free(b.d);''',
    '''union u$ { int i; unsigned char b[4]; short s[2]; }; struct o$ { int tag; union u$ u; struct o$ *self; };
@@
struct o$ o[3]; int i; struct o$ *p; p = o; for (i = 0; i < 3; i++, p++) { p->tag = i; p->self = p; p->u.i = {A} * 16777259 + i; } for (p = &o[2]; p >= o; p--) { printf("%d %d %d %d\\n", p->tag, p->self->u.b[1], p->u.s[0], p->self == p); p->self->u.b[0] = {B}; p->u.s[1] = 5; printf("%d\\n", p->u.i); }''',
]


def template(rng):
    t = rng.choice(TEMPLATES)
    for k, v in (('{A}', rng.randint(1, 60)), ('{B}', rng.randint(1, 40)), ('{N}', rng.randint(3, 14))):
        t = t.replace(k, str(v))
    g, b = t.split('@@')
    return g, b


def large(rng):
    """Arrays with more elements than small counters can hold."""
    t = rng.choice(['char', 'unsigned char', 'short', 'int', 'long', 'double', 'struct e$', 'void *'])
    n = rng.choice([rng.randint(200, 400), rng.randint(30000, 40000), rng.randint(65500, 70000), rng.randint(100000, 300000)])
    kind = rng.choice(['global', 'static', 'local', 'heap'])
    glob = 'struct e$ { short k; int v; };\n' + ('%s a$[%d];\n' % (t, n) if kind == 'global' else '')
    body = {'global': '', 'static': 'static %s a$[%d];' % (t, n), 'local': '%s a$[%d]; memset(&a$[0], 0, sizeof(a$));' % (t, n), 'heap': '%s *a$; a$ = calloc(%d, sizeof(%s));' % (t, n, t)}[kind]
    body += ' %s *p$, *q$; long i$; p$ = a$;' % t
    body = body.replace('%s *p$, *q$' % t, '%s *p$; %s *q$' % (t, t))
    m = '.v' if t[0] == 's' and t != 'short' else ''
    at = sorted({0, n - 1} | {i for i in (127, 128, 255, 256, 32767, 32768, 65535, 65536, 131072) if i < n and rng.random() < .6} | {rng.randrange(n) for _ in range(5)})
    rng.shuffle(at)
    for i in at:
        v = rng.randint(1, 100)
        v = '(void *)%d' % v if t == 'void *' else v
        body += rng.choice([' a$[%d]%s = %s;' % (i, m, v), ' i$ = %d; a$[i$]%s = %s;' % (i, m, v), ' (*(a$ + %d))%s = %s;' % (i, m, v), ' p$ += %d; p$[0]%s = %s; p$ -= %d;' % (i, m, v, i),
                            ' q$ = &a$[%d]; q$[%d]%s = %s;' % (n - 1, i - n + 1, m, v)])
    if rng.random() < .5:
        body += ' memcpy(&a$[%d], &a$[%d], sizeof(a$[0]));' % (rng.randrange(n), at[0])
    f, cst = ('%f', '') if t == 'double' else ('%ld', '(long)')
    rng.shuffle(at)
    for i in at:
        body += ' printf("%s\\n", %s);' % (f, cst + rng.choice(['a$[%d]%s' % (i, m), '(*(p$ + %d))%s' % (i, m), '(&a$[%d])[%d]%s' % (n - 1, i - n + 1, m)]))
    body += ' q$ = a$ + %d; p$ = q$ - %d; printf("%%ld %%d %%d\\n", (long)(q$ - a$), p$ == a$, q$ > p$);' % (n - 1, n - 1)
    if kind != 'heap':
        body += ' printf("%ld %ld\\n", (long)sizeof(a$), (long)(sizeof(a$) / sizeof(a$[0])));'
    else:
        body += ' free(a$);'
    return glob, body


def make(rng):
    if rng.random() < .03:
        return large(rng)
    if rng.random() < .25:
        return template(rng)
    g = G(rng)
    body = g.setup()
    for _ in range(rng.randint(6, 25)):
        body.append(g.step())
        if rng.random() < .12:
            body += g.show()
    body += g.show()
    glob = ''
    if g.struct:
        vt = rng.choice(['int', 'short', 'char'])
        glob = 'struct E$ { char pad; %s v; %s };\n' % (vt, rng.choice(['', 'double d;', 'char tail[3];', 'struct E$ *n;']))
    return glob + getattr(g, 'glob', ''), '\n'.join(body)


def run(c):
    c.rule = ('Random straight-line programs over arrays, heap blocks, embedded arrays and structs of nine '
              'element types, with pointers at known positions that are moved, compared, subtracted, '
              'dereferenced and reached through pointers to pointers and arrays of pointers; and '
              'parameterised data-structure programs (lists, trees, sorts, strings, hash tables, vectors, '
              'unions). Contents and positions are compared with the compiled program. Non-trivial: a new text.')
    n = 8000 if K.THOROUGH else 900
    cases = []
    while len(cases) < n:
        g, b = make(c.rng)
        cases.append(Case(b, g))
    cfg = Config(sessions=6, includes=('stdio.h', 'stdlib.h', 'string.h'), gcs=('97', '700:%d', None, None),
                 ref_flags=['-fno-sanitize=unsigned-integer-overflow'])
    differential(c, cases, cfg, batch=20)
    return 50
