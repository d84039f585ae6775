"""Errors of a script are contained and located."""
import os, re
from lib import common as K

GLOB = '''int printf(const char *f, ...); void exit(int s);
void qsort(void *b, unsigned long n, unsigned long s, int (*c)(const void *, const void *));
struct s { int a; struct s *n; char nm[4]; };
struct s gs; struct s *ps; int zero; int gi; int arr[3]; double gd; char *str; int neg; enum en { EA = 1 };
void v() { }
int f1(int a) { return a; }
int f2(int a, char *b) { return a; }
int (*fp)(int);
void init() { gi = 5; neg = -1; ps = &gs; fp = &f1; str = "text"; }
'''
# Expressions that evaluate to an error, and what the message has to name.
EXPR = [(e, None) for e in '''gi / zero|gi % zero|gi /= zero|1 << neg|gi >> neg|gi <<= neg|gi >>= neg|1 << 64|gi >> 200|5 / 0|7 % (3 - 3)
gi(3)|5(3)|gs(3)|gs.a()|arr[0](1)|*gi|**ps|*gs|*5|gi.a|gi->a|gs->a|ps.a|ps->a.b|arr.a|5 = 3|&5|&(gi + 1)|5++|--5|(gi + 1)++|EA = 3|EA++
f1()|f1(1, 2)|f2(1)|f2(1, str, 3)|gs + 1|1 - gs|gs * 2|gs == gs|gs < 1|1 >= gs|gs && 1|!gs|-gs|~gs|~gd|gd % 2|gd << 1|gd & 1|gi = gs|f1(gs)
gi = v()|v() + 1|f1(v())|!v()|*v()|v().a|v()[1]|gi = v() ? 1 : 2|gs ? 1 : 2|arr[gs]|gi[gi]|5[5]|gs++|gs += 1|printf("%d", v())|(char) gs'''.replace('\n', '|').split('|')]
EXPR += [(e, 'nomem') for e in 'gs.nomem|ps->nomem|gs.nomem = 3|ps->nomem++|gi = gs.nomem + 1|ps->n->nomem|f1(gs.nomem)'.split('|')]
EXPR += [(e, 'nosuch') for e in ('nosuch|nosuch()|nosuch(gi, 3)|gi = nosuch|nosuch = 3|nosuch++|nosuch += 3|gi += nosuch|nosuch->a|nosuch.a|nosuch[3]|arr[nosuch]|*nosuch|&nosuch'
                                 '|f1(nosuch)|f2(1, nosuch)|printf("%d", nosuch)|neg ? nosuch : 3|zero ? 3 : nosuch|neg && nosuch|zero \\|\\| nosuch|sizeof(nosuch)|(char)nosuch|(gi, nosuch)|nosuch == 3|!nosuch|-nosuch|fp = nosuch').replace('\\|', '\x00').split('|')]
EXPR = [(e.replace('\x00', '|'), m) for e, m in EXPR]
# Those that are an error as a statement only.
STMT = [('int dup; char *dup;', 'dup'), ('int dup; int dup;', 'dup'), ('struct nosuch x;', None), ('struct nosuch *x; x->a;', None),
        ('int z[neg];', None), ('int z[0 - 1];', None), ('extern int nosuchv;', 'nosuchv'), ('int nosuchg(int a); nosuchg(3);', 'nosuchg'),
        ('extern int nosuchf(int a); nosuchf(3);', 'nosuchf'), ('sizeof(struct nosuch);', None)]

class Gen:
    """A program that fails in the innermost of a chain of calls."""

    def __init__(self, rng, hdr):
        self.rng, self.n = rng, 0
        self.hdr = hdr          # the innermost function lives in a header

    def out(self):
        self.n += 1
        return 'printf("o%d\\n");' % self.n

    def noise(self):
        r = self.rng
        return r.choice(['', '\n', '\n\n', '/* a\n comment */', '// comment', self.out(), self.out(), self.out() + ' /* } */', '{ int t; t = gi; }',
                         'if (gi == 77) nosuch9 = 3;', ';', '#define M%d 1' % r.randint(0, 99) + '\n', 'if (0) {\n  nosuch8();\n}',
                         '{ int t __attribute__((\n  aligned(4),\n unused)); t = gi; }', '{ char *t; t = "ab\\\nc"; }', 'gi =\n\n5;', '\n' * r.choice([9, 40, 300]),
                         '#define L%d(x) x + \\\n  x' % r.randint(0, 99) + '\n', '#if 0\n nosuch\n#endif\n', '/*' + '\n' * r.choice([9, 130, 600]) + '*/', '{ int t __asm__("t\\"(x"\n); }', '\\\n'])

    def place(self, err, stmt):
        err = '@<' + err + '@>'
        """err (which gets evaluated) in some context of a statement, on one line marked @E@."""
        r = self.rng
        if stmt:
            return r.choice(['@E@%s', '{ @E@%s }', 'if (gi) { @E@%s }', 'if (zero) { }\nelse {\n@E@%s\n}', 'for (int q = 0; q < 3; q++) {\n' + self.out() + '\nif (q == 1) {\n@E@%s\n}\n}',
                             'while (1) {\n@E@%s\n' + self.out() + ' }']) % err
        e = err
        simple = '@E@%s' % e
        k = r.randint(0, 22)
        return [
            simple + ';', '@E@gi = (%s);' % e, '@E@if (%s) { %s }' % (e, self.out()), '@E@while (%s) { %s }' % (e, self.out()),
            '@E@for (gi = 0; %s; gi++) { %s }' % (e, self.out()), '@E@for (%s; gi < 3; gi++) { %s }' % (e, self.out()),
            '@E@for (gi = 0; gi < 3; (%s)) { %s }' % (e, self.out()), '@E@int loc = (%s);' % e, '@E@f1(%s);' % ('(' + e + ')'), '@E@printf("never %%d\\n", (%s));' % e,
            '@E@return (%s);' % e, '@E@arr[(%s)] = 3;' % e, '{\n{\n%s;\n}\n}' % simple, 'for (int q = 0; q < 5; q++) {\n%s\nif (q == 3) {\n%s;\n}\n}' % (self.out(), simple),
            'if (gi == 5) {\n%s\n%s;\n}' % (self.out(), simple), 'if (zero) {\n%s;\n}\nelse\n%s;' % (e, simple), '@E@gi = gi ? (%s) : 3;' % e,
            '@E@%s, %s;' % ('gi', '(' + e + ')'), 'f2(1,\n@E@(%s) ? str\n: str);' % e, 'gi = 1 +\n@E@(%s)\n+ 2;' % e, '@E@gi && (%s);' % e, '@E@(char)(%s);' % e, '@E@{ %s; }' % e,
        ][k]

    def call(self, f):
        r = self.rng
        i = r.randint(0, 12)
        return [
            '%s(1);' % f, 'gi = %s(2) + 1;' % f, 'if (%s(1)) %s' % (f, self.out()), 'while (%s(0)) { %s }' % (f, self.out()),
            'f1(%s(4));' % f, 'return %s(7);' % f, 'arr[%s(1)] = 2;' % f, 'int loc%d = %s(3);' % (r.randint(0, 9), f),
            'fp = &%s; fp(3);' % f, '{ int (*tab[2])(int); tab[1] = &%s; tab[1](3); }' % f,
            'for (int w = 0; w < 4; w++) {\n%s\nif (w == 2) %s(w);\n}' % (self.out(), f), 'gi ? %s(1) : 0;' % f,
            '{ %s\n{ %s(6); } }' % (self.out(), f),
        ][i]

    def program(self, err, stmt):
        r = self.rng
        depth = r.randint(0, 4)
        funs = []
        names = ['fn%d' % i for i in range(depth)]
        via = None
        for i in range(depth - 1, -1, -1):
            inner = self.place(err, stmt) if i == depth - 1 else self.call(names[i + 1])
            cb = i == 0 and depth > 0 and r.random() < .15
            body = '\n'.join([self.noise(), self.out(), inner, self.out(), self.noise()])
            if cb:
                via = names[i]
                funs.append('int %s(const void *pa, const void *pb)\n{\n%s\nreturn 0;\n}' % (names[i], body))
            else:
                funs.append('int %s(int p)\n{\n%s\nreturn 0;\n}' % (names[i], body))
        if via:
            top = '{ int q[4]; q[0] = 3; q[1] = 1; q[2] = 2; q[3] = 0; qsort(q, 4, sizeof(int), &%s); }' % via
        elif depth:
            top = self.call(names[0])
        else:
            top = self.place(err, stmt)
        main = '\n'.join(['int main()\n{\n init();', self.noise(), self.out(), top, self.out(), self.noise(), 'return 0;', '}'])
        hdr = None
        if self.hdr and funs:
            hdr = funs[0]
            funs = funs[1:]
        src = GLOB + (self.noise().replace('nosuch9', 'gi').join(['', '']) if False else '')
        if hdr:
            src += '#include "er.h"\n'
        src += '\n'.join(funs) + '\n' + main + '\n'
        order = names[::-1] + ['main']
        return src, hdr, order


def ref_expr(text, err, stmt):
    return 'exit(101)' if not stmt else 'exit(101);'


def decide(c, item):
    src, hdr, order, err, stmt, name, gc = item
    d = K.scratch()
    mark = '@E@'

    def loc(text):
        return text[:text.index(mark)].count('\n') + 1
    if hdr:
        f, line = 'er.h', loc(hdr)
    else:
        f, line = 'p.c', loc(src)
    clean = lambda t: t.replace(mark, '').replace('@<', '').replace('@>', '')
    K.write(d + '/p.c', clean(src))
    if hdr:
        K.write(d + '/er.h', clean(hdr))
    # The reference: the error replaced by the end of the program.
    rd = K.scratch()
    rep = '(exit(101), 1)' if not stmt else '{ exit(101); }'

    def sub(t):
        return re.sub(r'@<.*?@>', rep, t).replace(mark, '')
    rs, rh = (sub(src), sub(hdr)) if hdr else (sub(src), None)
    drop = lambda t: re.sub(r'nosuch[89]( = 3|\(\))', 'gi', t)
    K.write(rd + '/p.c', drop(rs))
    if rh:
        K.write(rd + '/er.h', drop(rh))
    r = K.run(['gcc', '-w', '-std=gnu11', '-o', 'p', 'p.c'], cwd=rd)
    if r.rc:
        c.inconclusive_case('reference: %s %s' % (err, r.err[:200]))
        return
    ref = K.run(['./p'], cwd=rd)
    if ref.rc != 101:
        c.count('errors that are not reached')
        return
    o = K.bic(['-s', 'p.c'], gc=gc, cwd=d)
    c.case(src)
    files = {'p.c': clean(src), 'stderr.txt': o.err[:20000], 'expected.txt': ref.out, 'observed.txt': o.out}
    if hdr:
        files['er.h'] = clean(hdr)
    if o.timeout:
        o = K.bic(['-s', 'p.c'], gc=gc, cwd=d, timeout=120)
    why = o.crashed() or (o.timeout and 'does not end')
    if not why and o.rc != 1:
        why = 'exit status %d' % o.rc
    if not why and o.out != ref.out:
        why = 'expected output %r, observed %r' % (ref.out[-200:], o.out[-200:])
    if not why:
        m = re.match(r'(\S+?):(\d+):(\d+): error: (.+)\n(?:.*\n)*?Evaluator Backtrace:\n((?:.*\n)*)', o.err)
        if not m:
            why = 'no located error and backtrace: %r' % o.err[:300]
        elif (os.path.basename(m.group(1)), int(m.group(2))) != (f, line):
            why = 'error at %s:%d is reported at %s:%s' % (f, line, m.group(1), m.group(2))
        else:
            bt = m.group(5).split('\n')
            seq = [x for x in bt if x in order]
            c.count('backtrace entries', len(bt))
            # A function whose arguments are being bound may have its entry already.
            if seq != order:
                why = 'backtrace %s, expected %s' % (seq, order)
            elif name and name not in m.group(4):
                why = 'message %r does not name %s' % (m.group(4), name)
            elif o.err.count('error:') != 1:
                why = 'more than one error'
    c.count('errors planted')
    if why:
        c.violation('%s (%s): %s' % (err, 'statement' if stmt else 'expression', why), files)


# Two definitions of a name.
DUP = """int du(int a) { return 1; } int du(int a) { return 2; }|int du; int du() { return 1; }|int du() { return 1; } int du;|int du(); int du;
int du(); int du() { return 1; } int du() { return 1; }|enum e1 { du }; enum e2 { du };|enum e1 { du }; int du;|int du; enum e1 { du };
struct du { int a; }; struct du { int b; };|int du; typedef int du;|int du[3]; int du[3];|int printf;|int printf(const char *f, ...) { return 3; } int printf(const char *f, ...) { return 4; }
extern int stdout; int stdout;|int du(int a); int du(int a); int du(int a) { return 1; } int du(int a) { return 1; }|void du() { } int du2() { return 1; } void du() { }|union du { int a; }; union du { int a; };
int du(); char du;|struct { int a; } du; int du;|int (*du)(int); int du(int a) { return 1; }""".replace('\n', '|').split('|')


def counts(c):
    """Calls with another number of arguments than the function has parameters, of any number (through a pointer, which calls it natively, nothing is said)."""
    def f(x):
        n, m, via = x
        d = K.scratch()
        call = 'f(%s)' % ', '.join(map(str, range(m))) if via == 0 else 'p(%s)' % ', '.join(map(str, range(m)))
        src = 'int printf(const char *f, ...);\nint f(%s) { printf("called\\n"); return 3; }\nint main() {\n%sprintf("before\\n");\n%s;\nprintf("after\\n");\nreturn 0;\n}\n' % (
            ', '.join('int p%d' % i for i in range(n)), 'int (*p)(%s); p = f;\n' % ', '.join(['int'] * n) * via, call)
        K.write(d + '/p.c', src)
        r = K.bic(['-s', 'p.c'], cwd=d)
        c.case(src)
        c.count('calls with other numbers of arguments')
        m = re.match(r'p\.c:(\d+):\d+: error: .+\n', r.err)
        if r.crashed() or r.rc != 1 or r.out != 'before\n' or not m or int(m.group(1)) != 5 + via:
            c.violation('%d arguments for %d parameters: status %d, output %r, %r' % (x[1], n, r.rc, r.out, r.err[:200]), {'p.c': src, 'stderr.txt': r.err})
    K.pmap(f, [(n, m, v) for n in (1, 2, 3, 6, 7, 9, 12, 17, 33, 40) for m in sorted({1, n - 1, n + 1, 2 * n, n + 256 if n < 4 else n + 2} - {n, 0}) for v in (0,)])


def top_level(c):
    """Errors in code outside of any function and in initialisers."""
    T = ['int a = nosuch;', 'int a; a = nosuch;', 'int a = 3 / (1 - 1);', 'nosuch();', 'int z[0 - 3];', 'struct nosuch q;', 'int a; *a;',
         'static int a = nosuch;', 'int a; if (a == 0) { nosuch; }', 'int a; for (a = 0; a < 4; a++) { if (a == 2) { nosuch; } }']
    T += DUP
    for t in T:
        for pre in (0, 1, 5):
            d = K.scratch()
            src = 'int printf(const char *f, ...);\n' + 'int q%d; q%d = 3;\n' * 0 + ''.join('int q%d;\nprintf("o%d\\n");\n' % (i, i) for i in range(pre)) + \
                t + '\nprintf("never\\n");\n'
            K.write(d + '/p.c', src)
            r = K.bic(['-s', 'p.c'], cwd=d)
            c.case(src)
            exp = ''.join('o%d\n' % i for i in range(pre))
            m = re.match(r'p\.c:(\d+):\d+: error: .+\n', r.err)
            why = r.crashed()
            if not why and (r.out, r.rc) != (exp, 1):
                why = 'expected %r 1, observed %r %d' % (exp, r.out, r.rc)
            if not why and (not m or int(m.group(1)) != 2 + 2 * pre or 'Backtrace' not in r.err):
                why = 'expected an error at line %d: %r' % (2 + 2 * pre, r.err[:200])
            if why:
                c.violation('top level %s: %s' % (t, why), {'p.c': src, 'stderr.txt': r.err})


def run(c):
    c.rule = ('Each kind of error bic detects, as expression or statement, planted in a random chain of calls (plain, through pointers, '
              'in loops, conditions, arguments, initialisers, callbacks of qsort, functions of a header): the output up to the '
              'error is that of the compiled program that ends there, the message names file and line of the error, the backtrace the active '
              'calls, the status is 1. Non-trivial: a new program whose error is reached.')
    items = []
    for rep in range(30 if K.THOROUGH else 4):
        for e, m in EXPR + EXPR + STMT * 2 if K.THOROUGH or rep == 0 else EXPR + STMT:
            stmt = e.endswith(';')
            g = Gen(c.rng, c.rng.random() < .25)
            src, hdr, order = g.program(e, stmt)
            # Calls that fail while binding arguments have their own context already.
            items.append((src, hdr, order, e, stmt, m, c.rng.choice([None, None, '31', '9:%d' % len(items)])))
    K.pmap(lambda i: decide(c, i), items)
    top_level(c)
    counts(c)
    c.sample(items[0][0])
    c.sample(items[-1][0])
    return 50
