"""REPL sessions: generated line by line together with a C program that says
what each line does and prints; run with the real bic and compared by line."""
import os, re
from . import common as K
from .exprgen import *
from .typegen import Types, leaves

PRELUDE = r'''
int cnt;
int tick() { cnt++; printf("tick %d\n", cnt); return cnt; }
long addf(long a, int b) { printf("addf %ld %d\n", a, b); return a - a / 1000 * 1000 + b; }
void setp(int *p, int v) { printf("setp\n"); *p = v; }
int twice(int a) { return 2 * a; }
int thrice(int a) { return 3 * a; }
struct pt { int x; int y; char *n; };
struct pt gp;
struct pt *mk(int x) { gp.x = x; gp.y = x + 1; gp.n = "made"; printf("mk %d\n", x); return &gp; }
int sum(struct pt *p) { printf("sum\n"); return p->x + p->y; }
char *pick(int i) { if (i > 2) return "many"; return "few"; }
double same(double d) { return d; }
void nothing() { printf("nothing\n"); }
int later() { static int n; n += 2; return n; }
'''

REF_HEAD = r'''
#define V() printf("\001v\n")
#define SHOWI(e) do { __typeof__(e) v_ = (e); V(); if ((__typeof__(v_ + 0))-1 < 0 || sizeof(v_) < 4) printf("%lld\n", (long long)v_); else printf("%llu\n", (unsigned long long)v_); } while (0)
#define SHOWF(e) do { long double v_ = (e); V(); printf("%Lf\n", v_); } while (0)
#define SHOWP(e) do { const volatile void *v_ = (const volatile void *)(e); V(); printf("%p\n", v_); } while (0)
#define SHOWS(e) do { const char *v_ = (const char *)(e); V(); if (v_) printf("%p (\"%s\")\n", v_, v_); else printf("(nil)\n"); } while (0)
#define NAME(n) do { V(); printf("%s\n", n); } while (0)
'''

# Lines with a syntax error; if any part of one was evaluated it would show.
# @ is a variable of type int.
ERRORS = ['@ = 99 +;', '@++ @++;', 'tick() tick();', 'tick(;', 'int @ = ;', 'typedef int $t +;', '(tick();', '@ = 98', 'struct $s { int a };', 'if (tick()) ;', '{ tick(); }',
          'tick() +', '] tick();', 'int 5x = tick();', '@ = 97; }', 'enum { $A = 5, , };', 'tick(), ;', '"abc', "'", '@ ? tick();', 'for (;;) tick();', 'while (1);',
          'return tick();', 'int $f() { return 3; }', '@ == ;', '* ;', 'tick()[;', 'gp. ;', 'gp->;', '@ @;', '$ $ = tick();', ')', 'int $x, ;', 'char *;x', 'struct { int a;', 'tick())', 'sizeof ;', '@ = = tick();']


class Line:
    __slots__ = ('text', 'code', 'kind', 'err')

    def __init__(self, text, code, kind, err=False):
        self.text, self.code, self.kind, self.err = text, code, kind, err


class SessGen:
    def __init__(self, rng):
        self.rng = rng
        self.lines, self.globs = [], []
        self.ints, self.flts, self.strs, self.ptrs, self.arrs, self.cbufs, self.fps, self.comps = {}, {}, [], {}, {}, {}, [], []
        self.n = 0
        self.headers = []       # (name, text) includable with <name>
        self.locus = {}         # name -> line number of the session it is declared at
        self.errors = self.inspect = True

    def name(self, p=None):
        self.n += 1
        return '%s%d' % (p or self.rng.choice(['v', 'x', 'val', 'int_', 'forx', 'q_']), self.n)

    def add(self, text, code, kind, err=False):
        r = self.rng
        if not err and kind != 'include' and r.random() < .08:
            text = r.choice(['  ', '\t', ' \t ']) + text + r.choice(['', ' ', '\t'])
        self.lines.append(Line(text, code, kind, err))

    # ---- values
    def gen(self):
        vs = dict(self.ints)
        for a, (t, vals) in self.arrs.items():
            for i, v in enumerate(vals):
                if v is not None and self.rng.random() < .3:
                    vs['%s[%d]' % (a, i)] = (t, v)
        for p, (t, target) in self.ptrs.items():
            if target in self.ints:
                vs['*' + p if self.rng.random() < .5 else '(*%s)' % p] = self.ints[target]
        vs = {('(%s)' % k if k[0] == '*' else k): v for k, v in vs.items()}
        if not vs:
            vs = {'7': ('int', 7)}
        return Gen(self.rng, vs, sizeofs='7' not in vs)

    def expr(self, depth=3):
        return self.gen().expr(self.rng.randint(0, depth))

    def lvalues(self):
        out = [(n, t, v, ('int', n)) for n, (t, v) in self.ints.items()]
        for a, (t, vals) in self.arrs.items():
            i = self.rng.randrange(len(vals))
            out.append(('%s[%d]' % (a, i), t, vals[i], ('arr', a, i)))
        for p, (t, target) in self.ptrs.items():
            if target in self.ints:
                out.append(('*' + p, t, self.ints[target][1], ('int', target)))
        return out

    def store(self, where, t, v):
        if where[0] == 'int':
            self.ints[where[1]] = (t, v)
        else:
            self.arrs[where[1]][1][where[2]] = v

    # ---- kinds of lines
    def decl_int(self):
        r = self.rng
        t = r.choice(INTTYPES)
        n = self.name()
        sp = r.choice(['', '', '', 'static ', 'volatile ', 'static volatile ']) + t
        if r.random() < .2:
            sp = sp.replace('unsigned int', 'unsigned')
        text, code, names = [], [], []
        for k in range(r.choice([1, 1, 1, 2, 3])):
            m = n if k == 0 else self.name()
            form = r.choice(['plain', 'init', 'init', 'arr', 'ptr'])
            base = sp.replace('static ', '')
            if form == 'plain':
                self.ints[m] = (t, 0)
                text.append(m)
                self.globs.append('%s %s;' % (base, m))
            elif form == 'init':
                e = self.expr(2) if r.random() < .6 else None
                v = interesting(r, t) if not e else None
                if e is None or not fits(t, e.v):
                    v = r.randint(0, 100)
                    e = N(str(v), 16, 'int', v)
                text.append('%s = %s' % (m, e.s))
                code.append('%s = %s;' % (m, e.s))
                self.globs.append('%s %s;' % (base, m))
                self.ints[m] = (t, e.v)
            elif form == 'arr':
                k2 = r.randint(1, 5)
                text.append('%s[%d]' % (m, k2))
                self.globs.append('%s %s[%d];' % (base, m, k2))
                self.arrs[m] = (t, [0] * k2)
                if t == 'char':
                    self.cbufs[m] = k2
            else:
                tg = [x for x in self.ints if self.ints[x][0] == t]
                self.globs.append('%s *%s;' % (base, m))
                if tg and r.random() < .8:
                    x = r.choice(tg)
                    text.append('*%s = &%s' % (m, x))
                    code.append('%s = &%s;' % (m, x))
                    self.ptrs[m] = (t, x)
                else:
                    text.append('*' + m)
                    self.ptrs[m] = (t, None)
            names.append(m)
        if r.random() < .15:
            sp = sp.replace('unsigned long', 'long unsigned')
        self.add('%s %s;' % (sp, ', '.join(text)), ' '.join(code) + ' NAME("%s");' % names[-1], 'declaration')
        for m in names:
            self.locus[m] = len(self.lines)

    def value(self):
        e = self.expr(4)
        self.add(e.s + ';', 'SHOWI(%s);' % e.s, 'integer expression')

    def var(self):
        ks = []
        if self.ints:
            ks.append('int')
        if self.arrs:
            ks.append('arr')
        if self.ptrs:
            ks += ['ptr', 'ptreq']
        if not ks:
            return self.decl_int()
        r = self.rng
        k = r.choice(ks)
        if k == 'int':
            n = r.choice(list(self.ints))
            self.add(n + ';', 'SHOWI(%s);' % n, 'variable')
        elif k == 'arr':
            a = r.choice(list(self.arrs))
            t, vals = self.arrs[a]
            i = r.randrange(len(vals))
            s = r.choice(['%s[%d]', '*(%s + %d)', '*&%s[%d]']) % (a, i)
            self.add(s + ';', 'SHOWI(%s);' % s, 'element')
        elif k == 'ptr':
            p = r.choice(list(self.ptrs))
            if self.ptrs[p][0] == 'char' and self.ptrs[p][1]:
                self.add('%s == 0;' % p, 'SHOWI(%s == 0);' % p, 'pointer')
            else:
                self.add(p + ';', ('SHOWS(%s);' if self.ptrs[p][0] == 'char' else 'SHOWP(%s);') % p, 'pointer')
        else:
            p = r.choice(list(self.ptrs))
            t = self.ptrs[p][0]
            q = r.choice(['&' + n for n in self.ints if self.ints[n][0] == t] + ['0'] + [x for x in self.ptrs if self.ptrs[x][0] == t])
            s = '%s %s %s' % (p, r.choice(['==', '!=']), q)
            self.add(s + ';', 'SHOWI(%s);' % s, 'pointer')

    def assign(self):
        r = self.rng
        ls = self.lvalues()
        if not ls:
            return self.decl_int()
        s, t, v, where = r.choice(ls)
        k = r.randint(0, 6)
        if k <= 2:
            e = self.expr(3)
            if not fits(t, e.v):
                e = N('5', 16, 'int', 5)
            text, nv = '%s = %s' % (s, e.s), e.v
        elif k == 3:
            op = r.choice(['++%s', '--%s', '%s++', '%s--'])
            d = 1 if '+' in op else -1
            if not fits(t, v + d):
                return
            text, nv = op % ('(%s)' % s if s[0] == '*' else s), v + d
        elif k == 4:
            x = r.randint(0, 30)
            op = r.choice(['+', '-', '^', '<<', '>>', '/'])
            if op == '/':
                x = max(1, x)
            if op in '<<>>':
                x %= 5
                if v < 0:
                    return
            w = usual(t, 'int') if op not in '<<>>' else promote(t)
            if not fits(w, v):
                return
            nv = {'+': v + x, '-': v - x, '^': v ^ x, '<<': v << x, '>>': v >> x, '/': cdiv(v, x or 1)}[op]
            if not fits(t, nv) or not fits(w, nv):
                return
            text = '%s %s= %d' % (s, op, x)
        elif k == 5:
            ls2 = [l for l in ls if l[3] != where]
            if not ls2:
                return
            s2, t2, v2, w2 = r.choice(ls2)
            x = r.randint(0, 100)
            text, nv = '%s = %s = %d' % (s, s2, x), x
            self.store(w2, t2, x)
        else:
            return self.narrow(s, t, where)
        self.store(where, t, nv)
        self.add(text + ';', 'SHOWI(%s);' % text, 'assignment')

    def narrow(self, s, t, where):
        """A value that the assignment converts."""
        v = self.rng.randint(-70000, 70000)
        nv = trunc(t, v)
        self.store(where, t, nv)
        self.add('%s = %d;' % (s, v), 'SHOWI((%s = (%s)%d));' % (s, t, v), 'converting assignment')

    def setptr(self):
        r = self.rng
        ps = [p for p in self.ptrs]
        if not ps:
            return
        p = r.choice(ps)
        t = self.ptrs[p][0]
        tg = [n for n in self.ints if self.ints[n][0] == t]
        if not tg or t == 'char':
            return
        x = r.choice(tg)
        self.ptrs[p] = (t, x)
        s = '%s = &%s' % (p, x)
        self.add(s + ';', 'SHOWP(%s);' % s, 'pointer')

    def flt(self):
        r = self.rng
        t = r.choice(['float', 'double', 'long double'])
        if not self.flts or r.random() < .4:
            n = self.name('d')
            v = r.choice(['0.5', '1.25', '3.0', '1234.75', '0.1', '100000.5', '2.0'])
            self.globs.append('%s %s;' % (t, n))
            self.flts[n] = t
            self.add('%s %s = %s;' % (t, n, v), '%s = %s; NAME("%s");' % (n, v, n), 'declaration')
            self.locus[n] = len(self.lines)
            return
        n = r.choice(list(self.flts))
        m = r.choice(list(self.flts))
        k = r.randint(0, 6)
        ints = [x for x in self.ints if abs(self.ints[x][1]) < 1 << 20]
        if k == 0:
            s = '%s = %s' % (n, m)
        elif k == 1 and ints:
            s = '%s = %s' % (n, r.choice(ints))
        elif k == 2:
            s = 'same(%s)' % n
        elif k == 3:
            s = '%s = %s' % (n, r.choice(['1.5', '2.25', '9.0', '7']))
        elif k == 4:
            s = '(int)%s' % n
            return self.add(s + ';', 'SHOWI(%s);' % s, 'floating point')
        else:
            s = n
        self.add(s + ';', 'SHOWF(%s);' % s, 'floating point')

    def string(self):
        r = self.rng
        if not self.strs or r.random() < .4:
            n = self.name('s')
            txt = ''.join(r.choice('abc XYZ09.,') for _ in range(r.randint(0, 9)))
            lit = '"%s%s"' % (txt, r.choice(['', '', '\\n', '\\t', '\\"', '\\\\']))
            self.globs.append('char *%s;' % n)
            self.strs.append(n)
            self.add('char *%s = %s;' % (n, lit), '%s = %s; NAME("%s");' % (n, lit, n), 'declaration')
            self.locus[n] = len(self.lines)
            return
        n = r.choice(self.strs)
        k = r.randint(0, 6)
        if k == 0:
            s = '%s[0]' % n
            return self.add(s + ';', 'SHOWI(%s);' % s, 'string')
        if k == 1:
            s = '%s = pick(%d)' % (n, r.randint(0, 5))
        elif k == 2:
            lit = '"n%d"' % r.randint(0, 99)
            s = '%s = %s' % (n, lit)
        elif k == 3:
            s = '%s = %s' % (n, r.choice(self.strs))
        elif k == 4:
            lit = '"t%d u"' % r.randint(0, 99)
            return self.add(lit + ';', 'V(); printf("%%s\\n", "\\"%s\\"");' % lit[1:-1], 'string literal')
        else:
            s = n
        self.add(s + ';', 'SHOWS(%s);' % s, 'string')

    def call(self):
        r = self.rng
        ints = [x for x in self.ints if self.ints[x][0] == 'int']
        k = r.randint(0, 11)
        small = r.randint(0, 50)
        if k == 0:
            return self.add('tick();', 'SHOWI(tick());', 'call')
        if k == 1:
            return self.add('addf(%d, tick());' % small, 'SHOWI(addf(%d, tick()));' % small, 'call')
        if k == 2 and ints:
            n = r.choice(ints)
            self.ints[n] = ('int', small)
            return self.add('setp(&%s, %d);' % (n, small), 'setp(&%s, %d);' % (n, small), 'call without a value')
        if k == 3:
            e = self.expr(2)
            if fits('int', e.v) and abs(e.v) < 1 << 29:
                return self.add('twice(%s);' % e.s, 'SHOWI(twice(%s));' % e.s, 'call')
            return
        if k == 4:
            return self.add('nothing();', 'nothing();', 'call without a value')
        if k == 5:
            s = r.choice(['mk(%d)->x', 'sum(mk(%d))', 'mk(%d)->y == gp.y', 'gp.x', 'mk(%d)->n[0]'])
            s = s % small if '%d' in s else s
            return self.add(s + ';', 'SHOWI(%s);' % s, 'call')
        if k == 6:
            s = r.choice(['tick() > 0 && tick() > 0', 'tick() < 0 && tick()', 'tick() ? later() : tick()', 'tick(), later()', 'tick() || tick()', 'later()'])
            return self.add(s + ';', 'SHOWI((%s));' % s, 'call')
        if k == 7:
            if self.fps and r.random() < .7:
                n = r.choice(self.fps)
                if r.random() < .5:
                    s = r.choice(['%s(%d)', '(*%s)(%d)']) % (n, small)
                    return self.add(s + ';', 'SHOWI(%s);' % s, 'call through a pointer')
                s = '%s = &%s' % (n, r.choice(['twice', 'thrice']))
                return self.add('%s == &twice;' % n, 'SHOWI(%s == &twice);' % n, 'pointer') if r.random() < .3 else self.add(s + ';', 'SHOWP(%s);' % s, 'pointer to a function')
            n = self.name('fp')
            f = r.choice(['twice', 'thrice'])
            self.fps.append(n)
            self.globs.append('int (*%s)(int);' % n)
            return self.add('int (*%s)(int) = &%s;' % (n, f), '%s = &%s; NAME("%s");' % (n, f, n), 'declaration')
        e = self.expr(2)
        f = '%ld' if BITS[e.t][1] else '%lu'
        s = r.choice(['printf("p %%d %s\\n", %d, (%s)(%s))' % (f, small, 'long' if f == '%ld' else 'unsigned long', e.s), 'printf("text\\n")', 'printf("%s|\\n", "x")'])
        self.add(s + ';', 'SHOWI(%s);' % s, 'printf')

    def types(self):
        r = self.rng
        n = self.name('T')
        k = r.randint(0, 3)
        if k == 0:
            t = r.choice(INTTYPES)
            self.globs.append('typedef %s %s;' % (t, n))
            self.add('typedef %s %s;' % (t, n), 'NAME("%s");' % n, 'typedef')
            m, v = self.name(), r.randint(0, 100)
            self.globs.append('%s %s;' % (n, m))
            self.ints[m] = (t, v)
            self.add('%s %s = %d;' % (n, m, v), '%s = %d; NAME("%s");' % (m, v, m), 'declaration')
            self.locus[m] = len(self.lines)
        elif k == 1:
            a, b, c = self.name('E'), self.name('E'), self.name('E')
            v = r.randint(0, 1000)
            d = 'enum %s { %s, %s = %d, %s };' % (n, a, b, v, c)
            self.globs.append(d)
            self.add(d, '', 'enumeration')
            self.add(c + ';', 'SHOWI(%s);' % c, 'enumerator')
            self.ints_const = getattr(self, 'ints_const', []) + [c]
            m = self.name()
            self.globs.append('enum %s %s;' % (n, m))
            self.add('enum %s %s = %s;' % (n, m, r.choice([a, b, c])), '', 'declaration')
            self.lines[-1].code = '%s = %s; NAME("%s");' % (m, self.lines[-1].text.strip().rstrip(';').split('= ')[1], m)
            self.add(m + ';', 'SHOWI(%s);' % m, 'variable')
            self.ints[m] = ('unsigned int', None)
            del self.ints[m]
        elif k == 2:
            self.compound()
        else:
            s = r.choice(INTTYPES + ['struct pt', 'char *', 'double', 'struct pt *'])
            self.add('sizeof(%s);' % s, 'SHOWI(sizeof(%s));' % s, 'sizeof')

    def compound(self):
        r = self.rng
        self.n += 1
        while True:
            ty = Types(r, pfx='S%d' % self.n, flt=True, fnptr=False, maxdepth=2)
            t = ty.compound()
            if printable(t):
                break
        for d in ty.decls:
            self.globs.append(d)
            self.add(d, 'NAME("%s");' % d.rstrip(';').split()[-1] if d.startswith('typedef') else '', 'compound type')
        n = self.name('st')
        p = self.name('ps')
        self.globs.append('%s %s, *%s;' % (t.spelled, n, p))
        self.add('%s %s, *%s = &%s;' % (t.spelled, n, p, n), '%s = &%s; NAME("%s");' % (p, n, p), 'declaration')
        self.comps.append((n, p, t))
        self.comp_use()

    def comp_use(self):
        r = self.rng
        if not self.comps:
            return
        n, p, t = r.choice(self.comps)
        if r.random() < .35:
            s = r.choice([n, '*' + p])
            return self.add(s + ';', 'V(); %s printf("\\n");' % show_code(t, n), 'compound')
        path, ty = r.choice(list(leaves(t)))
        s = r.choice([n + path, '%s->%s' % (p, path[1:]), '(*%s)%s' % (p, path)])
        k = r.random()
        if ty.kind == 'ptr':
            if ty.name.startswith('char *') and '**' not in ty.name:
                s = s + ' = "m%d"' % r.randint(0, 9) if k < .5 else s
                return self.add(s + ';', 'SHOWS(%s);' % s, 'member')
            s = s + ' = 0' if k < .5 else s
            return self.add(s + ';', ('SHOWS(%s);' if ty.name.strip() == 'char *' else 'SHOWP(%s);') % s, 'member')
        if ty.kind == 'scalar' and ty.name in BITS:
            v = r.randint(0, 100)
            s = '%s = %d' % (s, v) if k < .6 else s
            return self.add(s + ';', 'SHOWI(%s);' % s, 'member')
        if ty.kind == 'scalar':
            s = '%s = %s' % (s, r.choice(['1.5', '0.25'])) if k < .5 else s
            return self.add(s + ';', 'SHOWF(%s);' % s, 'member')

    def include(self):
        r = self.rng
        if len(self.headers) >= 2:
            return
        i = len(self.headers)
        self.n += 1
        k = self.n
        text = ('#ifndef H%d\n#define H%d\n#define HM%d (3 + 4)\n#define HF%d(a, b) ((a) * 2 + (b))\n#define HS%d "hs%d"\ntypedef long HT%d;\nenum { HE%d = 77 };\n'
                'struct HST%d { int a; char *b; };\nint hv%d;\nint hf%d(int a)\n{\n    printf("hf %%d\\n", a);\n    hv%d += a;\n    return hv%d;\n}\n#endif\n').replace('%d', str(k)).replace('%%' + str(k), '%d').replace('%' + str(k), '%d')
        # printf's conversion is the only %d that stays.
        self.headers.append(('hdr%d.h' % k, text))
        self.globs.append('#include "hdr%d.h"' % k)
        self.add('#include <hdr%d.h>' % k, '', 'include')
        uses = [('HM%d' % k, 'SHOWI(%s);'), ('HF%d(2, 3)' % k, 'SHOWI(%s);'), ('HE%d' % k, 'SHOWI(%s);'), ('hf%d(4)' % k, 'SHOWI(%s);'), ('hv%d' % k, 'SHOWI(%s);'),
                ('sizeof(HT%d)' % k, 'SHOWI(%s);'), ('sizeof(struct HST%d)' % k, 'SHOWI(%s);'), ('hv%d = HM%d' % (k, k), 'SHOWI(%s);')]
        self.uses = getattr(self, 'uses', []) + uses
        for u, cde in r.sample(uses, 3):
            self.add(u + ';', cde % u, 'from a header')

    def use(self):
        u = getattr(self, 'uses', None)
        if u:
            t, cde = self.rng.choice(u)
            self.add(t + ';', cde % t, 'from a header')

    def error(self):
        if not self.ints:
            return
        r = self.rng
        t = r.choice(ERRORS).replace('@', r.choice(list(self.ints))).replace('$', self.name('e'))
        self.add(t, '', 'syntax error', True)

    def make(self, n, kinds=None):
        r = self.rng
        ks = kinds or [(self.decl_int, 5), (self.value, 5), (self.var, 5), (self.assign, 7), (self.setptr, 2), (self.flt, 3), (self.string, 3), (self.call, 6), (self.types, 2),
                       (self.comp_use, 3), (self.include, 1), (self.use, 2)] + ([(self.error, 3)] if self.errors else [])
        fns = [f for f, w in ks for _ in range(w)]
        self.decl_int()
        while len(self.lines) < n:
            r.choice(fns)()
        for n_ in list(self.ints)[:8]:
            self.add(n_ + ';', 'SHOWI(%s);' % n_, 'final value')
        return self


def printable(t, u=False):
    """Whether the members of unions can all be printed whichever is stored."""
    if t.kind == 'compound':
        return all(printable(f, u or t.tag == 'union') for n, f in t.fields)
    if t.kind == 'array':
        return printable(t.of, u)
    return not u or t.kind == 'scalar' and t.name in BITS


def members(t):
    """The members of a compound, including those of anonymous ones in it."""
    for n, f in t.fields:
        if n:
            yield n, f
        else:
            yield from members(f)


def show_code(t, s):
    """C code that prints an object as the REPL does (up to indentation)."""
    if t.kind == 'compound':
        out = ['printf("{\\n");']
        for n, f in members(t):
            out.append('printf(".%s = ");' % n)
            out.append(show_code(f, s + '.' + n))
            out.append('printf("\\n");')
        return ' '.join(out + ['printf("}");'])
    if t.kind == 'array':
        if t.of.kind == 'scalar' and t.of.name == 'char':
            return 'printf("%%p (\\"%%.*s\\")", (void *)%s, (int)sizeof(%s), (char *)%s);' % (s, s, s)
        return 'printf("%%p", (void *)%s);' % s
    if t.kind in ('ptr', 'fnptr'):
        if t.kind == 'ptr' and t.name.strip() == 'char *':
            return 'if (%s) printf("%%p (\\"%%s\\")", (void *)%s, %s); else printf("(nil)");' % (s, s, s)
        return 'printf("%%p", (void *)%s);' % s
    if t.name in BITS:
        return 'printf(%s, (%s)%s);' % (('"%lld"', 'long long', s) if BITS[t.name][1] else ('"%llu"', 'unsigned long long', s))
    return 'printf("%%Lf", (long double)%s);' % s


def ref_program(g, prelude, extra=''):
    body = '\n'.join('    printf("\\001%d\\n"); %s' % (i, l.code) for i, l in enumerate(g.lines))
    return '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n%s%s%s\n%s\nint main()\n{\n    setvbuf(stdout, 0, 1, 0);\n%s\n    printf("\\001end\\n");\n    return 0;\n}\n' % (
        REF_HEAD, extra, prelude, '\n'.join(g.globs), body)


REF_FLAGS = ['-O0', '-w', '-std=gnu11', '-fno-builtin', '-ffp-contract=off', '-fsanitize=undefined,unsigned-integer-overflow,implicit-integer-sign-change',
             '-fno-sanitize=alignment,function,object-size,vptr', '-fsanitize-recover=all', '-I.']


def reference(g, prelude, d, flags=None):
    """Per line (side output, printed value or None), or a reason why not."""
    src = ref_program(g, prelude)
    K.write(d + '/ref.c', src)
    r = K.run(['clang', '-o', 'ref.out'] + (flags or REF_FLAGS) + ['ref.c'], cwd=d, timeout=120)
    if r.rc:
        return None, 'the reference does not compile: ' + r.err[:400]
    e = K.base_env()
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=0'
    r = K.run(['./ref.out'], cwd=d, env=e, timeout=30, merge=True)
    if 'runtime error' in r.out:
        return None, 'undefined: ' + r.out[r.out.index('runtime error'):][:120]
    if r.rc or not r.out.endswith('\x01end\n'):
        return None, 'the reference fails: %d' % r.rc
    parts = re.split(r'\x01(\d+|end)\n', r.out)
    out = []
    for i in range(len(g.lines)):
        assert parts[1 + 2 * i] == str(i)
        t = parts[2 + 2 * i]
        side, _, val = t.partition('\x01v\n')
        out.append((side, val if _ else None))
    return out, None


def split(r, n):
    """The output and the diagnostics of each of n lines of a session."""
    o = r.out.split('\x02L\n')
    e = r.err.split('\x02L\n')
    o[-1] = re.sub(r'\x02E\n$', '', o[-1])
    return o[1:], e[1:], o[0], e[0]


class Norm:
    """Equal addresses are equal, which they are doesn't matter."""

    def __init__(self):
        self.m = {}

    def __call__(self, t):
        t = re.sub(r'0x[0-9a-f]+(?= \(")', 'TEXT', t)

        def f(m):
            a = m.group(0)
            if a == '0x10':
                return a
            return 'ADDR%d' % self.m.setdefault(a, len(self.m))
        t = re.sub(r'0x[0-9a-f]+', f, t)
        return '\n'.join(l.lstrip(' \t') for l in t.split('\n'))
