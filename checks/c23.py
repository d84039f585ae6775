"""Headers, macros and conditionals; locations of diagnostics; headers in the REPL."""
import os, random, re
from lib import common as K
from lib.session import SessGen, Norm, REF_HEAD, split, reference

DIRS = ['src', 'inc0', 'inc1', 'inc2']


class Proj:
    """A script with its headers.  `@k@' lines are places for a statement."""

    def __init__(self, rng):
        self.rng, self.n, self.marks = rng, 0, 0
        self.files = {}
        self.macros = {}            # object-like macros with an integer value
        self.tags = set()
        self.dirs = rng.sample(['inc0', 'inc1', 'inc2'], rng.randint(1, 3))
        self.headers()
        self.main()

    def id(self, p='m'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def mark(self):
        self.marks += 1
        return '@%d@' % self.marks

    # ---- headers
    def headers(self):
        r = self.rng
        self.have = {}
        names = ['h%d.h' % i for i in range(r.randint(2, 6))]
        for n in names:
            self.have[n] = r.sample(['src'] + self.dirs, r.randint(1, 1 + len(self.dirs)))
        for k, n in enumerate(names):
            for d in self.have[n]:
                u = '%s_%s' % (n[:-2], d)
                inc = []
                later = names[k + 1:]
                for m in r.sample(later, min(len(later), r.choice([0, 0, 1, 2]))):
                    inc.append(self.incline(m, d))
                # The same name further on in the list of directories.
                order = [x for x in self.dirs]
                if d in order and any(x in self.have[n] for x in order[order.index(d) + 1:]) and r.random() < .6:
                    inc.append('#include_next <%s>' % n)
                    self.tags.add('include_next')
                body = ['#undef WHICH_%s' % n[:-2], '#define WHICH_%s "%s"' % (n[:-2], u), '#undef LINE_%s' % n[:-2], '#define LINE_%s __LINE__' % n[:-2]] + inc
                body += ['static int f_%s(int a)' % u if r.random() < .3 else 'int f_%s(int a)' % u, '{']
                body += ['/* %s */' % ('x\n' * r.randint(0, 3))] if r.random() < .4 else []
                body += ['    printf("%s %d %d\\n", __FILE__, __LINE__, a);', self.mark(), '    return a + WHICHLEN(WHICH_%s);' % n[:-2] if r.random() < .5 else '    return a + 1;', '}']
                g = r.choice(['ifndef', 'once', 'defined'])
                gn = 'G_' + u.upper()
                if g == 'ifndef':
                    body = ['#ifndef ' + gn, '#define ' + gn] + body + ['#endif']
                elif g == 'once':
                    body = ['#pragma once'] + body
                else:
                    body = ['#if !defined(%s)' % gn, '# define %s 1' % gn] + body + ['# endif /* %s */' % gn]
                self.files['%s/%s' % (d, n)] = '\n'.join(body) + r.choice(['', '\n', '\n\n'])

    def incline(self, m, d):
        r = self.rng
        dirs = self.have[m]
        found = any(x in self.dirs for x in dirs)
        forms = []
        if d in dirs or found:
            forms.append('#include "%s"' % m)
        if found:
            forms += ['#include <%s>' % m, '#  include <%s> // comment' % m]
        if d == 'src' and 'src' in dirs:
            forms.append('#include "./%s"' % m)
            forms.append('#include "../src/%s"' % m)
        if not forms:
            return '/* none */'
        f = r.choice(forms)
        if r.random() < .15:
            self.tags.add('computed include')
            h = self.id('HDR')
            what = re.search(r'include\s*(\S+)', f).group(1)
            return '#define %s %s\n#include %s' % (h, what, h)
        return f

    # ---- macros
    def num(self):
        r = self.rng
        if self.macros and r.random() < .5:
            return r.choice(list(self.macros))
        return str(r.randint(0, 50))

    def macro(self):
        """(definitions, statements that show them)"""
        r = self.rng
        k = r.choice(['obj', 'obj', 'fn', 'fn', 'fn', 'str', 'paste', 'variadic', 'redef', 'self', 'multi', 'xmac', 'cond', 'cond', 'cond', 'line', 'counter', 'push', 'neg', 'rename',
                      'nest', 'late', 'empty', 'linedir', 'incbody', 'pragma', 'stmt', 'member', 'hasinc', 'predef', 'splice'])
        self.tags.add(k)
        m = self.id('M')
        if k == 'obj':
            e = r.choice(['(%s + %s * 2)', '%s', '(%s - %s)', '((%s) ^ (%s))', '(%s << 1) + %s'])
            e = e % tuple(self.num() for _ in range(e.count('%s')))
            self.macros[m] = 1
            return ['#define %s %s' % (m, e) if r.random() < .7 else '#\tdefine %s /* c */ %s // d' % (m, e)], [self.show('%s' % m), self.show('%s * 3' % m)]
        if k == 'fn':
            e = r.choice(['((a) * 2 + (b))', '(a + b)', 'a * b', '(a > b ? a : b)', '(b)', '((a), (b))'])
            a, b = r.choice([(self.num(), self.num()), ('(1, 2)', '3'), ('%s(1, 2)' % m, '%s(3, %s(4, 5))' % (m, m)), ('v0', '(v1)'), ('/* ( */ 1', '2\n'), ('v0\n+ 1', 'v1'), ("','", "')'")])
            return ['#define %s(a, b) %s' % (m, e)], [self.show('%s(%s, %s)' % (m, a, b)), self.show('%s (%s,\n    %s) + 1' % (m, a, b)) if r.random() < .4 else self.show('%s(%s,%s)' % (m, b, a))]
        if k == 'str':
            x = self.id('X')
            args = ['a + b', '"q\\n"', "v0  [ 1 ]", 'x "a\\t" y', m, '( , )', '1 /* c */ 2', self.num(), '__LINE__', '\\\\' if 0 else '->']
            a = r.choice(args)
            return ['#define %s(x) #x' % m, '#define %s(x) %s(x)' % (x, m)], ['printf("%%s %%s\\n", %s(%s), %s(%s));' % (m, a, x, a)]
        if k == 'paste':
            x = self.id('X')
            i = r.randint(0, 9)
            return ['#define %s(a, b) a##b' % m, '#define %s(a, b) %s(a, b)' % (x, m), 'int pv%d_%s = %d;' % (i, m, i), '#define P%s pv%d_' % (m, i)], \
                [self.show('%s(pv%d_, %s)' % (m, i, m)) if 0 else self.show('%s(1%d, 2)' % (m, i)), self.show('%s(%s, 7)' % (x, i)), self.show('%s(pv%d, _%s)' % (m, i, m)) if r.random() < .8 else '', '%s(pri, ntf)("pasted %%d\\n", %s(0x, f));' % (m, m)]
        if k == 'variadic':
            f = r.choice(['printf(f, ##__VA_ARGS__)', 'printf(f __VA_OPT__(,) __VA_ARGS__)'])
            c = self.id('C')
            return ['#define %s(f, ...) %s' % (m, f), '#define %s(...) %s("%%d\\n", count5(__VA_ARGS__))' % (c, m)], ['%s("%s none\\n");' % (m, m), '%s("%%d %%d\\n", %s, (%s, 2));' % (m, self.num(), self.num()), '%s(1, %s, 3, v0, v1);' % (c, self.num())]
        if k == 'redef':
            vs = [r.randint(0, 99) for _ in range(3)]
            return ['#define %s %d' % (m, vs[0])], [self.show(m), '#undef %s\n#define %s %d' % (m, m, vs[1]), self.show(m), '#undef %s' % m, 'int %s = %d;' % (m, vs[2]), self.show(m)]
        if k == 'self':
            return ['int %s = %d;' % (m, r.randint(0, 9)), '#define %s (%s + 1)' % (m, m), '#define R%s(x) S%s(x) + 1' % (m, m), '#define S%s(x) R%s(x)' % (m, m), 'int R%s(int x) { return x; }' % m if 0 else 'int id_%s(int x) { return x; }' % m, '#define id_%s(x) (2 * id_%s(x))' % (m, m)], \
                [self.show(m), self.show('id_%s(id_%s(%s))' % (m, m, self.num())), self.show('(id_%s)(4)' % m)]
        if k == 'multi':
            lines = ' \\\n'.join('printf("%s %%d\\n", %s + v%d);' % (m, self.num(), i % 2) for i in range(r.randint(1, 4)))
            return ['#define %s \\\n  %s' % (m, lines)], [m, 'printf("at %d\\n", __LINE__);']
        if k == 'xmac':
            xs = [(self.id('e'), r.randint(0, 99)) for _ in range(r.randint(1, 5))]
            return ['#define %s %s' % (m, ' \\\n'.join('X(%s, %d)' % x for x in xs)), '#define X(n, v) n = v,', 'enum en_%s { %s last_%s };' % (m, m, m), '#undef X'], \
                ['#define X(n, v) printf("%s %d %d\\n", #n, n, v);', m, '#undef X', self.show('last_' + m)]
        if k == 'cond':
            return [], self.conditional(r.randint(1, 3))
        if k == 'line':
            return ['#define %s printf("%%d\\n", __LINE__)' % m], [m + ';', '\n' * r.randint(1, 9) + m + ';', '{ ' + m + ';\n' + m + '; }', 'printf("%s %d\\n", __FILE__, __LINE__);']
        if k == 'counter':
            return [], ['v2 = __COUNTER__; printf("%d\\n", __COUNTER__ - v2);']
        if k == 'push':
            return ['#define %s 1' % m], ['#pragma push_macro("%s")\n#undef %s\n#define %s %d' % (m, m, m, r.randint(2, 9)), self.show(m), '#pragma pop_macro("%s")' % m, self.show(m)]
        if k == 'neg':
            return ['#define %s -%d' % (m, r.randint(1, 9)), '#define P%s -v0' % m], [self.show('v1-%s' % m), self.show('-%s' % m), self.show('v1+P%s' % m), self.show('v1 - -%s' % m)]
        if k == 'rename':
            return ['#define T%s %s' % (m, r.choice(['int', 'unsigned long', 'short', 'char'])), '#define BEGIN_%s {' % m, '#define END_%s }' % m, '#define IF_%s if' % m], ['{ T%s q = 300; printf("%%d\\n", (int)q); }' % m, 'IF_%s (v0 < 1000) BEGIN_%s printf("in\\n"); END_%s' % (m, m, m)]
        if k == 'nest':
            return ['#define %s(f, x) f(f(x))' % m, '#define D%s(x) ((x) * 2)' % m, '#define E%s() D%s' % (m, m)], [self.show('%s(D%s, %s)' % (m, m, self.num())), self.show('%s(tw, v0)' % m), self.show('E%s()(%s)' % (m, self.num()))]
        if k == 'late':
            return ['#define %s L%s' % (m, m), '#define L%s %d' % (m, r.randint(0, 9))], [self.show(m), '#undef L%s\n#define L%s %d' % (m, m, r.randint(10, 99)), self.show(m)]
        if k == 'empty':
            return ['#define %s' % m, '#define A%s(x)' % m, '#'], ['%s printf("%s %%d\\n" %s , 1) %s ;' % (m, m, m, m), 'A%s(printf("no\\n");) printf("yes\\n");' % m]
        if k == 'linedir':
            n = r.randint(1, 60000)
            f = r.choice(['', '', ' "gen%d.y"' % n, ' "a b.c"'])
            return [], ['#line %d%s' % (n, f), 'printf("%s %d\\n", __FILE__, __LINE__);', self.mark()]
        if k == 'incbody':
            f = self.id('part') + '.inc'
            self.files['src/' + f] = 'printf("%s %d\\n", __FILE__, __LINE__);\n%s\nv0 = v0 + 1;\n' % (self.mark().strip() and '@%d@' % self.marks, ) if 0 else 'printf("%s %d\\n", __FILE__, __LINE__);\nv0 = v0 + 1;\n' + self.mark() + '\n'
            return [], ['#include "%s"' % f, 'printf("%s %d %d\\n", __FILE__, __LINE__, v0);']
        if k == 'pragma':
            return ['#pragma GCC diagnostic ignored "-Wall"', '#pragma unknown %d' % r.randint(0, 9)], ['#pragma omp whatever (', 'printf("%d\\n", __LINE__);']
        if k == 'stmt':
            return ['#define %s(n, body) { int n; for (n = 0; n < 2; n++) { body } }' % m], ['%s(i%s, printf("%%d\\n", i%s); printf("%%d\\n", __LINE__);)' % (m, m, m), '%s(j%s,\n  printf("%%d\\n", j%s);\n  printf("%%d\\n", __LINE__);\n)' % (m, m, m), 'printf("%d\\n", __LINE__);']
        if k == 'member':
            return ['#define f_%s real_%s.b' % (m, m), 'struct st_%s { int a; int b; };' % m, 'struct st_%s real_%s;' % (m, m), '#define S_%s struct st_%s' % (m, m)], ['f_%s = %s;' % (m, self.num()), self.show('real_%s.b' % m), '{ S_%s *p; p = &real_%s; p->a = 3; printf("%%d %%d\\n", p->a, p->b); }' % (m, m), self.show('sizeof(S_%s)' % m)]
        if k == 'hasinc':
            h = r.choice(['<h%d.h>' % i for i in range(7)] + ['"h0.h"', '"h3.h"', '<stdio.h>', '<no/such.h>'])
            return [], ['#if __has_include(%s)\nprintf("has\\n");\n#else\nprintf("has not\\n");\n#endif' % h]
        if k == 'predef':
            e = r.choice(['__STDC__', '__STDC_HOSTED__', '__SIZEOF_INT__', '__SIZEOF_POINTER__', '__GNUC__', '__INT_MAX__', '__CHAR_BIT__', '__INCLUDE_LEVEL__', 'EOF', 'BUFSIZ', 'SEEK_END', 'EXIT_FAILURE', 'RAND_MAX', 'EINTR', 'ENOENT', 'INT_MAX', 'CHAR_BIT', 'SHRT_MIN', 'PATH_MAX', 'UCHAR_MAX', 'O_CREAT', 'SIGTERM', 'SIGKILL', 'INT32_MAX', 'UINT8_MAX'])
            return [], [self.show(e), '#if defined(%s)\nprintf("defined\\n");\n#endif' % e, '#ifdef __linux__\nprintf("linux\\n");\n#endif\n#if __STDC_VERSION__ >= 201112\nprintf("c11\\n");\n#endif']
        if k == 'splice':
            return ['#def\\\nine %s(x) ((x) \\\n   + 1)' % m], [self.show('%s(3)' % m), 'pri\\\nntf("sp\\\nliced\\n");', 'printf("%d\\n", __LINE__); // comment \\\n printf("no\\n");', 'printf("%d\\n", __LINE__);']

    def show(self, e):
        return 'printf("%%d\\n", (int)(%s));' % e

    def cexpr(self, depth=2):
        """An expression of #if."""
        r = self.rng
        if depth <= 0 or r.random() < .3:
            k = r.random()
            if k < .3:
                return 'defined(%s)' % r.choice(list(self.macros) + ['NOPE', '__linux__']) if r.random() < .5 else 'defined ' + r.choice(list(self.macros) + ['NOPE'])
            if k < .5:
                return r.choice(list(self.macros) + ['undefined_is_0', 'true'][:1])
            return r.choice(['0', '1', '3', '0x10', "'A'", '017', '-1', '0xffffffff', '5L', '7U', '-1 > 0u', 'VALUE'])
        op = r.choice(['&&', '||', '==', '!=', '<', '>', '+', '-', '*', '?', '!', '~', '<<', '>=', '%', '^'])
        a, b = self.cexpr(depth - 1), self.cexpr(depth - 1)
        if op in '!~':
            return '%s(%s)' % (op, a)
        if op == '?':
            return '(%s) ? (%s) : (%s)' % (a, b, self.cexpr(depth - 1))
        if op in '<<%':
            return '(%s) %s 3' % (a, op)
        return '(%s) %s (%s)' % (a, op, b)

    def conditional(self, depth):
        r = self.rng
        junk = ["it's not C", '" unbalanced', '#define INACTIVE_%d oops' % self.n, '#include <no/such/file.h>', '@ $ `', '#error not here', '#unknown', 'int main( {', '#if 1 / 0 == 3\n#endif' if 0 else '#ifdef QQ\n#else\n#endif']

        def arm():
            out = ['printf("arm %d\\n");' % r.randint(0, 9999)]
            if depth > 0 and r.random() < .5:
                out += self.conditional(depth - 1)
            if r.random() < .3:
                n = self.id('A')
                out.append('#define %s 1' % n)
                self.macros_maybe = n
            return out
        k = r.choice(['if', 'ifdef', 'ifndef', '0', '1'])
        m = r.choice(list(self.macros) + ['NOPE'])
        out = [{'if': '#if ' + self.cexpr(), 'ifdef': '#ifdef ' + m, 'ifndef': '#ifndef ' + m, '0': '#if 0', '1': '#if 1'}[k]]
        out += ([r.choice(junk), 'printf("never\\n");'] if k == '0' else arm())
        for _ in range(r.choice([0, 0, 1, 2])):
            out += ['#elif ' + self.cexpr()] + arm()
        if r.random() < .6:
            out += ['#else'] + ([r.choice(junk)] if k == '1' and '#elif' not in '\n'.join(out) else arm())
        return out + ['#endif']

    # ---- the script
    def main(self):
        r = self.rng
        self.macros['VALUE'] = 1
        head = ['#include %s' % h for h in ['<stdio.h>', '<stdlib.h>', '<limits.h>', '<errno.h>', '<fcntl.h>', '<signal.h>', '<stdint.h>', '<string.h>']]
        r.shuffle(head)
        head += ['#define VALUE %d' % r.randint(0, 9), 'int v0 = 3; int v1 = 40; int v2;', 'int tw(int x) { return 2 * x; }', 'int count5(int a, int b, int c, int d, int e) { return a + 10 * b + 100 * c + d + e; }',
                 '#define WHICHLEN(s) ((int)strlen(s))']
        body = []
        for n in self.have:
            for _ in range(r.choice([0, 1, 1, 2])):
                head.append(self.incline(n, 'src'))
        for n in self.have:
            body += ['#ifdef WHICH_%s' % n[:-2], 'printf("%%s %%d\\n", WHICH_%s, LINE_%s);' % (n[:-2], n[:-2]), '#else', 'printf("%s isn\'t included\\n");' % n, '#endif']
            for d in self.have[n]:
                u = '%s_%s' % (n[:-2], d)
                body += ['#ifdef G_' + u.upper(), 'v2 = f_%s(%d); printf("%%d\\n", v2);' % (u, r.randint(0, 99)), '#endif']
        body = [body]
        defs = []
        for _ in range(r.randint(3, 10)):
            d, s = self.macro()
            if r.random() < .25 and d:
                # In a header of its own.
                h = self.id('mac') + '.h'
                self.files['%s/%s' % (r.choice(self.dirs), h)] = '\n'.join(d) + '\n'
                d = ['#include <%s>' % h]
            defs += d
            body.append(s + ([self.mark()] if r.random() < .6 else []))
        r.shuffle(body)
        k = r.randint(0, len(defs))
        main = head + defs
        fn = []
        # Some in a function, the others in main.
        half = r.randint(0, len(body))
        fn = ['void work()', '{'] + [x for b in body[:half] for x in b] + ['}']
        main += fn + ['int main()', '{'] + [x for b in body[half:] for x in b] + [self.mark(), 'work();', self.mark(), 'printf("%s %d\\n", __FILE__, __LINE__);', 'return %d;' % r.randint(0, 60), '}']
        out = []
        for l in main:
            if r.random() < .06:
                out.append(r.choice(['', '/* a\n comment */', '// b', '\n\n']) if not out or not out[-1].endswith('\\') else '')
            out.append(l)
        self.files['src/main.c'] = '\n'.join(out) + '\n'

    def instance(self, which=None, text=''):
        return {f: re.sub(r'@(\d+)@', lambda m: text if m.group(1) == str(which) else '', t) for f, t in self.files.items()}

    def write(self, d, files):
        for s in DIRS:
            os.makedirs(d + '/' + s, exist_ok=True)
        for f, t in files.items():
            K.write(d + '/' + f, t)

    def opts(self):
        return [x for i in self.dirs for x in ('-I', i)]


def compiled(p, d):
    r = K.run(['gcc', '-w', '-fno-builtin'] + p.opts() + ['-o', 'ref.out', 'src/main.c'], cwd=d, timeout=60)
    if r.rc:
        return None, r.err
    r = K.run(['./ref.out'], cwd=d, timeout=20)
    return r, None


# At the place of the error: the text, and whether it is found when it is parsed.
FAULTS = [('zz_undeclared;', False, 'Could not resolve'), ('v0 = zz_undeclared + 1;', False, 'Could not resolve'), ('zz_f(v0);', False, 'Could not resolve'), ('{ int a; a = 1 / (v0 - v0); }', False, ''),
          (') ;', True, ''), ('int = 3;', True, ''), ('v0 = ;', True, ''), ('if if', True, ''), ('v0 v1;', True, ''), ('return return;', True, '')]


def project(c, seed, i):
    rng = random.Random(seed)
    p = Proj(rng)
    d = K.scratch()
    files = p.instance()
    p.write(d, files)
    ref, err = compiled(p, d)
    if ref is None:
        c.inconclusive_case('reference: ' + err[:300])
        return
    if ref.timeout or ref.rc < 0:
        c.inconclusive_case('the reference fails')
        return
    keep = {k.replace('/', '_'): t for k, t in files.items()}
    cmd = 'bic %s -s src/main.c\n' % ' '.join(p.opts())
    gc = [None, '53', '300:%d' % i][i % 3]
    r = K.bic(p.opts() + ['-s', 'src/main.c'], cwd=d, gc=gc, timeout=60)
    if r.timeout:
        return c.inconclusive_case('timeout')
    c.case('\n'.join('%s\n%s' % x for x in sorted(files.items())))
    c.count('projects')
    for t in p.tags:
        c.count('uses: ' + t)
    c.count('lines compared', ref.out.count('\n'))
    if i < 2:
        c.sample(files['src/main.c'][:1500])
    if r.crashed() or r.rc != ref.rc or r.out != ref.out:
        a = [(x, y) for x, y in zip(ref.out.split('\n') + [''], r.out.split('\n') + ['']) if x != y] or [('', '')]
        return c.violation('a project: %s: expected %r (status %d), observed %r (status %d): %s' % (r.crashed() or 'output differs', a[0][0], ref.rc, a[0][1], r.rc, r.err[:300]),
                           dict(keep, **{'expected.txt': ref.out, 'observed.txt': r.out, 'stderr.txt': r.err[:20000], 'replay.txt': 'the files are those of directories, _ stands for /: ' + cmd}))
    # An error at one of the places, where the compiled program tells where it is.
    for m in rng.sample(range(1, p.marks + 1), min(p.marks, 3)):
        text, syntax, msg = rng.choice(FAULTS)
        d2 = K.scratch()
        p.write(d2, p.instance(m, 'printf("\\001%s\\001%d\\001", __FILE__, __LINE__); fflush(stdout); exit(77);'))
        ref, err = compiled(p, d2)
        if ref is None or ref.rc != 77 or ref.out.count('\x01') != 3:
            c.count('places that are not reached')
            continue
        before, file, line = ref.out.split('\x01')[:3]
        bad = p.instance(m, text)
        p.write(d2, bad)
        r = K.bic(p.opts() + ['-s', 'src/main.c'], cwd=d2, gc=gc, timeout=60)
        if r.timeout:
            c.inconclusive_case('timeout')
            continue
        c.case('%s\n%s' % (text, '\n'.join(sorted(bad.values()))))
        c.count('errors located: ' + ('syntax' if syntax else 'evaluation'))
        c.count('errors located in ' + ('headers' if 'main.c' not in file else 'the script'))
        why = r.crashed()
        if not why and r.rc != 1:
            why = 'exit status %d' % r.rc
        if not why and r.out != ('' if syntax else before):
            why = 'output %r instead of %r' % (r.out[-200:], '' if syntax else before[-200:])
        if not why and syntax and not re.search(r'^Parser Error: %s:%s ' % (re.escape(file), line), r.err, re.M):
            why = 'the error is at %s:%s, reported: %s' % (file, line, r.err[:200])
        if not why and not syntax and not re.search(r'^%s:%s:\d+: error: %s' % (re.escape(file), line, msg), r.err, re.M):
            why = 'the error is at %s:%s, reported: %s' % (file, line, r.err[:200])
        if why:
            return c.violation('%s: %s' % (text, why), dict({k.replace('/', '_'): t for k, t in bad.items()}, **{'observed.txt': r.out, 'stderr.txt': r.err[:20000], 'replay.txt': cmd}))


# What the system's headers make available.
HDRS = {
    'stdio.h': ['EOF', 'SEEK_END', 'BUFSIZ', 'sizeof(size_t)', 'stdin == stdout', 'stdout != 0', 'fputs("", stdout) >= 0', 'FILENAME_MAX', 'puts("t")', 'fileno(stdout)'],
    'stdlib.h': ['EXIT_FAILURE', 'RAND_MAX', 'atoi("42")', 'abs(-7)', 'labs(-8)', 'strtol("ff", 0, 16)', 'MB_CUR_MAX > 0' if 0 else 'EXIT_SUCCESS', 'malloc(8) != 0', 'getenv("NO_SUCH") == 0'],
    'string.h': ['strlen("hello")', 'strcmp("a", "b") < 0', 'strcmp("a", "a")', 'memcmp("ab", "ac", 1)', 'strspn("aab", "a")', 'strchr("abc", 122) == 0', 'strncmp("abc", "abd", 2)'],
    'ctype.h': ['toupper(97)', 'tolower(65)', 'isdigit(53) != 0', 'isalpha(53) != 0', 'isspace(32) != 0', 'isupper(97)'],
    'limits.h': ['INT_MAX', 'CHAR_BIT', 'SHRT_MAX', 'SCHAR_MAX', 'UCHAR_MAX', 'PATH_MAX', 'INT_MAX - 1', 'SHRT_MIN'],
    'errno.h': ['EINTR', 'ENOENT', 'EINVAL + 1', 'ERANGE', 'EAGAIN == EWOULDBLOCK'],
    'signal.h': ['SIGINT', 'SIGTERM', 'SIGKILL', 'sizeof(sigset_t)', 'SIG_BLOCK', 'NSIG > 0' if 0 else 'SIGCHLD'],
    'fcntl.h': ['O_RDONLY', 'O_CREAT', 'O_WRONLY | O_TRUNC', 'F_GETFL', 'AT_FDCWD'],
    'stdint.h': ['sizeof(uint16_t)', 'sizeof(int64_t)', 'INT32_MAX', 'UINT8_MAX', 'INT8_MIN', 'sizeof(uintptr_t)', '(uint8_t)300', '(int8_t)200'],
    'stddef.h': ['sizeof(ptrdiff_t)', 'sizeof(size_t)', 'sizeof(wchar_t)'],
    'time.h': ['sizeof(time_t)', 'sizeof(struct tm)', 'time(0) > 1000', 'CLOCK_REALTIME', 'sizeof(struct timespec)'],
    'unistd.h': ['STDIN_FILENO', 'STDERR_FILENO', 'R_OK', 'getpid() > 1', 'access("/no/such", F_OK)', 'sizeof(off_t)', 'isatty(0)', 'SEEK_CUR'],
    'sys/types.h': ['sizeof(pid_t)', 'sizeof(mode_t)', 'sizeof(ssize_t)'],
    'sys/stat.h': ['sizeof(struct stat)', 'S_IRUSR', 'S_IFDIR', 'S_IRWXU'],
    'sys/time.h': ['sizeof(struct timeval)', 'ITIMER_REAL'],
    'float.h': ['FLT_DIG', 'DBL_MANT_DIG', 'DBL_MAX_EXP', 'FLT_RADIX'],
    'stdbool.h': ['true', 'false', '__bool_true_false_are_defined'],
    'locale.h': ['LC_ALL', 'LC_CTYPE'],
    'sys/wait.h': ['WNOHANG', 'WUNTRACED'],
    'dirent.h': ['DT_DIR', 'sizeof(struct dirent)'],
    'getopt.h': ['no_argument', 'required_argument'],
    'pthread.h': ['sizeof(pthread_t)', 'PTHREAD_CREATE_DETACHED', 'sizeof(pthread_mutex_t)'],
    'sys/socket.h': ['SOCK_STREAM', 'AF_INET', 'sizeof(struct sockaddr)'],
    'poll.h': ['POLLIN', 'sizeof(struct pollfd)'],
    'inttypes.h': ['sizeof(intmax_t)', 'sizeof(imaxdiv_t)'],
    'wchar.h': ['sizeof(wchar_t)', 'sizeof(wint_t)'],
    'search.h': ['ENTER', 'sizeof(ENTRY)'],
    'regex.h': ['REG_EXTENDED', 'REG_NOSUB'],
}
def sess(c, seed, i):
    rng = random.Random(seed)
    g = SessGen(rng)
    d = K.scratch()
    inc = d + '/own'
    os.mkdir(inc)
    got = []
    left = list(HDRS)
    rng.shuffle(left)
    left = left[:rng.randint(1, 7)]
    n = rng.randint(15, 30)
    g.decl_int()
    own = 0
    # Headers of macros alone, whose values depend on what was included before.
    cv, cur, nchain = {}, [0], rng.randint(2, 5)
    for k in range(nchain):
        j = rng.choice([x for x in range(nchain) if x != k])
        K.write('%s/chain%d.h' % (inc, k), '#ifndef CV_%d\n# ifdef CV_%d\n#  define CV_%d (CUR * 100 + %d)\n# else\n#  define CV_%d (CUR + %d)\n# endif\n# define CH_%d CV_%d\nenum { CE_%d = CV_%d };\n#endif\n#undef CUR\n#define CUR %d\n' % (
            k, j, k, k, k, k, k, k, k, k, k + 1))
        cv[k] = [j, None, None]
    K.write(inc + '/chain.h', '#undef CUR\n#define CUR 0\n')

    def val(k):
        # CV_k is expanded where it is used, CE_k was defined in the header.
        return cur[0] * 100 + k if cv[k][1] else cur[0] + k

    def chain():
        k = rng.choice([x for x in cv if cv[x][2] is None] or list(cv)) if rng.random() < .8 else rng.choice(list(cv))
        if cv[k][2] is None:
            cv[k][1] = cv[cv[k][0]][2] is not None
            cv[k][2] = val(k)
        cur[0] = k + 1
        g.add('#include <chain%d.h>' % k, '', 'include')
        have = [x for x in cv if cv[x][2] is not None]
        for x in rng.sample(have, min(2, len(have))):
            e, v = rng.choice([('CV_%d' % x, val(x)), ('CH_%d' % x, val(x)), ('CE_%d' % x, cv[x][2]), ('CUR', cur[0])])
            g.add(e + ';', 'V(); printf("%%d\\n", %d);' % v, 'from a chain of headers')
    g.add('#include <chain.h>', '', 'include')
    seen = set()
    while len(g.lines) < n or left:
        k = rng.random()
        if left and k < .25:
            h = left.pop()
            g.add('#include <%s>' % h if rng.random() < .8 else '#include\t<%s>' % h, '', 'include')
            got.append(h)
            for e in rng.sample(HDRS[h], min(2, len(HDRS[h]))):
                g.add(e + ';', 'SHOWI(%s);' % e, 'from a header')
        elif got and k < .3:
            # Again: nothing changes.
            g.add('#include <%s>' % rng.choice(got), '', 'include')
        elif k < .38:
            chain()
        elif own < 2 and k < .44:
            own += 1
            h = 'own%d.h' % own
            hd = rng.sample([x for x in HDRS if x in got] or ['stddef.h'], 1)[0]
            K.write('%s/%s' % (inc, h), '#ifndef OWN%d\n#define OWN%d\n#include <%s>\n#include "own_sub%d.h"\ntypedef own_sub_t%d own_t%d;\n#define OWNM%d(x) ((x) + SUBM%d)\nint own_v%d = %d;\nint own_f%d(own_t%d a) { own_v%d = own_v%d + a; return own_v%d; }\n#endif\n' % (
                own, own, hd, own, own, own, own, own, own, own * 11, own, own, own, own, own))
            K.write('%s/own_sub%d.h' % (inc, own), '#pragma once\ntypedef short own_sub_t%d;\n#define SUBM%d %d\nenum { SUBE%d = %d };\n' % (own, own, own * 100, own, own * 7))
            g.add('#include <%s>' % h, '', 'include')
            g.globs.append('#include "own/%s"' % h)
            g.uses = getattr(g, 'uses', []) + [(e, 'SHOWI(%s);') for e in ['own_f%d(3)' % own, 'OWNM%d(5)' % own, 'SUBE%d' % own, 'own_v%d' % own, 'sizeof(own_t%d)' % own, 'own_v%d = OWNM%d(1)' % (own, own)]]
        elif got and k < .63:
            h = rng.choice(got)
            e = rng.choice(HDRS[h])
            g.add(e + ';', 'SHOWI(%s);' % e, 'from a header')
        elif k < .73 and getattr(g, 'uses', None):
            g.use()
        else:
            rng.choice([g.decl_int, g.value, g.assign, g.var])()
    g.globs = ['#include <%s>' % h for h in HDRS] + g.globs
    ref, why = reference(g, '', d)
    if ref is None:
        c.count('sessions_discarded')
        return c.inconclusive_case(why)
    text = ''.join(l.text + '\n' for l in g.lines)
    gc = ['29', None, '300:%d' % i][i % 3]
    r = K.bic(['-I', 'own'], stdin=text, rl=True, cwd=d, home=d, gc=gc, timeout=120)
    if r.timeout:
        return c.inconclusive_case('timeout')
    c.case(text)
    c.count('sessions')
    for h in got:
        c.count('header ' + h)
    out, err, o0, e0 = split(r, len(g.lines))
    na, nb = Norm(), Norm()
    why = r.crashed()
    for j, l in enumerate(g.lines):
        c.count('lines: ' + l.kind)
        if j >= len(out):
            why = why or 'the session ended at %r: %s' % (g.lines[j - 1].text, r.err[-300:])
            break
        side, val = ref[j]
        if na(out[j]) != nb(side + (val or '')) or err[j]:
            why = 'line %d: %s: expected %r, observed %r %s' % (j + 1, l.text, side + (val or ''), out[j][:200], err[j][:300])
            break
    if not why and r.rc:
        why = 'exit status %d' % r.rc
    if why:
        c.violation('a session with headers: ' + why, {'session.txt': text, 'observed.txt': r.out, 'stderr.txt': r.err[:20000], 'replay.txt': 'BIC_VERIF_RL=1 bic -I own < session.txt'})


def tags(c, seed, i):
    """Structures and unions that are named, defined and used in different places: headers, the startup file, lines."""
    r = random.Random(seed)
    g = SessGen(r)
    d = K.scratch()
    n = r.randint(2, 5)
    T = {}
    for k in range(n):
        kw = r.choice(['struct', 'struct', 'union'])
        T[k] = {'kw': kw, 'name': '%s T%d' % (kw, k), 'mem': [], 'def': False, 'objs': [], 'ptrs': [], 'embeds': [x for x in range(k) if r.random() < .25]}
    for k, t in T.items():
        t['mem'] = ['%s a;' % r.choice(['int', 'long', 'short']), '%s *n%d;' % (T[r.randrange(n)]['name'], 0)] + ['%s e%d;' % (T[x]['name'], x) for x in t['embeds']]
        t['nx'] = int(re.search(r'T(\d+) \*', t['mem'][1]).group(1))
        if r.random() < .3:
            t['mem'].append('char c[%d];' % r.randint(1, 9))
        if r.random() < .4:
            t['mem'].append('int (*f)(%s *);' % T[r.randrange(n)]['name'])
    full = {k: '%s { %s };' % (t['name'], ' '.join(t['mem'])) for k, t in T.items()}
    count = [0]

    def fresh(p):
        count[0] += 1
        return '%s%d' % (p, count[0])

    def event():
        """Some declaration: its text, what it prints as a line, a definition for the compiled program."""
        k = r.randrange(n)
        t = T[k]
        q = r.random()
        if not t['def'] and q < .35 and all(T[x]['def'] for x in t['embeds']):
            t['def'] = True
            if r.random() < .25:
                o = fresh('o')
                t['objs'].append(o)
                return full[k][:-1] + ' %s;' % o, 'NAME("%s");' % o, '%s %s;' % (t['name'], o)
            if r.random() < .2:
                o = fresh('tt')
                return 'typedef %s %s;' % (full[k][:-1], o), 'NAME("%s");' % o, 'typedef %s %s;' % (t['name'], o)
            return full[k], '', ''
        if q < .45:
            return t['name'] + ';', 'NAME("T%d");' % k, ''
        if q < .6:
            o = fresh('p')
            t['ptrs'].append(o)
            x = '%s *%s;' % (t['name'], o)
            return x, 'NAME("%s");' % o, x
        if q < .67:
            o = fresh('ty')
            x = 'typedef %s%s %s;' % (t['name'], r.choice(['', ' *']), o)
            return x, 'NAME("%s");' % o, x
        if q < .72:
            x = 'struct %s { %s *q; int z; };' % (fresh('H'), t['name'])
            return x, '', x
        if t['def']:
            o = fresh('o')
            t['objs'].append(o)
            x = '%s %s;' % (t['name'], o)
            return x, 'NAME("%s");' % o, x
        return None

    def fun():
        """A function, which a header only can define."""
        k = r.randrange(n)
        t = T[k]
        o = fresh('f')
        if t['def'] and r.random() < .7:
            fs.append((k, '%s(%%s)' % o, True))
            return 'long %s(%s *p) { p->a = p->a + 2; return p->a; }' % (o, t['name'])
        fs.append((k, '%s(%%s)' % o, False))
        return 'int %s(%s *p) { return p != 0; }' % (o, t['name'])
    fs = []
    home, nh = [], 0
    late = []
    for _ in range(r.randint(0, 4)):
        e = event()
        if e:
            home.append(e[0])
            late.append(e[2])
        if r.random() < .3:
            home.append(fun())
            late.append(home[-1])
    K.write(d + '/.bic', '\n'.join(home) + '\n')
    lines = r.randint(15, 40)
    g.add('int start;', 'NAME("start");', 'declaration')
    g.globs = ['int start;'] + [t['name'] + ';' for t in T.values()] + [full[k] for k in T]
    while len(g.lines) < lines:
        q = r.random()
        if q < .12 and nh < 6:
            nh += 1
            txt = []
            for _ in range(r.randint(1, 4)):
                e = event() if r.random() < .8 else None
                if e:
                    txt.append(e[0])
                    late.append(e[2])
                else:
                    txt.append(fun())
                    late.append(txt[-1])
            K.write('%s/th%d.h' % (d, nh), '#ifndef TH%d\n#define TH%d\n%s\n#endif\n' % (nh, nh, '\n'.join(txt)))
            g.add('#include <th%d.h>' % nh, '', 'include')
        elif q < .45:
            e = event()
            if e:
                g.add(e[0], e[1], 'declaration of a tag or with one')
                late.append(e[2])
        else:
            k = r.randrange(n)
            t = T[k]
            if t['ptrs'] and t['objs'] and r.random() < .35:
                p = r.choice(t['ptrs'])
                t.setdefault('set', []).append(p)
                g.add('%s = &%s;' % (p, r.choice(t['objs'])), None, 'value')
                g.lines[-1].code = 'SHOWP(%s);' % g.lines[-1].text.strip().rstrip(';')
                continue
            refs = [(o + '.', '&' + o) for o in t['objs']] + [(o + '->', o) for o in t.get('set', ())]
            if not refs or not t['def']:
                continue
            m, ptr = r.choice(refs)
            es = [(m + 'a', 'I'), (m + 'a = %d' % r.randint(1, 99), 'I'), (m + 'a++', 'I'), ('sizeof(%s)' % t['name'], 'I'), (ptr + ' == ' + refs[0][1], 'I')]
            es += [(m + 'e%d.a = %d' % (x, r.randint(1, 99)), 'I') for x in t['embeds']] + [(m + 'e%d.a' % x, 'I') for x in t['embeds']]
            es += [(f % ptr, 'I') for kk, f, w in fs if kk == k]
            nx = T[t['nx']]
            if nx['objs'] and t['kw'] == 'struct':
                es.append((m + 'n0 = &' + r.choice(nx['objs']), 'P'))
                if nx['def']:
                    es.append(('(%sn0 = &%s)->a' % (m, r.choice(nx['objs'])), 'I'))
            if any('(*f)' in x for x in t['mem']) and t['kw'] == 'struct':
                kk = int(re.search(r'\(\*f\)\(\w+ T(\d+)', ' '.join(t['mem'])).group(1))
                cand = [f for k3, f, w in fs if k3 == kk and not w]
                if cand and T[kk]['objs']:
                    es.append(('(%sf = &%s, %sf(&%s))' % (m, r.choice(cand).split('(')[0], m, r.choice(T[kk]['objs'])), 'I'))
            e, sh = r.choice(es)
            g.add(e + ';', 'SHOW%s(%s);' % (sh, e), 'member or value')
    g.globs += late
    ref, why = reference(g, '', d)
    if ref is None:
        c.count('sessions_discarded')
        return c.inconclusive_case(why)
    text = ''.join(l.text + '\n' for l in g.lines)
    gc = ['29', None, '300:%d' % i][i % 3]
    o = K.bic(['-I', d], stdin=text, rl=True, cwd=d, home=d, gc=gc, timeout=120)
    if o.timeout:
        return c.inconclusive_case('timeout')
    c.case(text + ''.join(home))
    c.count('sessions of tags')
    why = o.crashed()
    out, err, o0, e0 = split(o, len(g.lines))
    na, nb = Norm(), Norm()
    for j, l in enumerate(g.lines):
        c.count('lines: ' + l.kind)
        if j >= len(out):
            why = why or 'the session ended at %r: %s' % (g.lines[j - 1].text, o.err[-300:])
            break
        side, val = ref[j]
        if na(out[j]) != nb(side + (val or '')) or err[j]:
            why = 'line %d: %s: expected %r, observed %r %s' % (j + 1, l.text, side + (val or ''), out[j][:200], err[j][:300])
            break
    if not why and o.rc:
        why = 'exit status %d' % o.rc
    if why:
        files = {'session.txt': text, 'observed.txt': o.out, 'stderr.txt': o.err[:20000], 'home.bic': '\n'.join(home)}
        for k in range(nh):
            files['th%d.h' % (k + 1)] = open('%s/th%d.h' % (d, k + 1)).read()
        c.violation('tags in a session: ' + why, files)


def run(c):
    c.rule = ('Random projects of a script and headers in up to four directories (-I in random order, headers of the same name, nested and computed includes, include_next, guards), with macros of all '
              'kinds, conditionals, line directives and pragmas; output and status are compared with the compiled project. Then an error is planted at up to three places that the compiled program '
              'reaches, whose file and line it prints itself, and the diagnostic is compared with them. Sessions include system headers and headers of -I (some of whose macros depend on what was included before) and use their macros, types, objects '
              'and functions. Non-trivial: a new project, a new place and error, a new session.')
    n = 1500 if K.THOROUGH else 130
    seeds = [c.rng.random() for _ in range(n)]
    K.pmap(lambda i: len(c.violations) < 4 and project(c, seeds[i], i), range(n))
    n = 2000 if K.THOROUGH else 100
    seeds = [c.rng.random() for _ in range(n)]
    K.pmap(lambda i: len(c.violations) < 4 and tags(c, seeds[i], i), range(n))
    n = 400 if K.THOROUGH else 40
    seeds = [c.rng.random() for _ in range(n)]
    K.pmap(lambda i: len(c.violations) < 4 and sess(c, seeds[i], i), range(n))
    return 60
