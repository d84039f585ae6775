"""Literals, comments, white space, names and adjacent tokens mean what they mean in C."""
import random, re
from lib import common as K
from lib.diff import Case, Config, differential, program, reference, sections, report

INC = ('stdio.h', 'stdlib.h', 'string.h')
LEX = ['auto', 'break', 'case', 'char', 'const', 'continue', 'default', 'do', 'double', 'else', 'enum', 'extern', 'float', 'for', 'goto', 'if', 'int', '_Bool', 'long', 'register', 'return', 'short',
       'signed', 'sizeof', 'static', 'struct', 'switch', 'typedef', 'union', 'unsigned', 'void', 'while', 'volatile', 'restrict', '__restrict', 'inline', '__inline', '__inline__', '__attribute__',
       '__asm', '__asm__', '__extension__', '_Nullable', '_Nonnull', 'REPL', '__builtin_va_list', '_Float128', 'true', 'null', 'NULL', 'main', 'L', 'include', 'define']
TOKEN = re.compile(r'''[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[][(){};,.?:~!=<>+*/%&|^-]''')


# ---------------------------------------------------------------- layout
def tokens(text):
    out, pos = [], 0
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    while pos < len(text):
        if text[pos].isspace():
            pos += 1
            continue
        m = TOKEN.match(text, pos)
        if not m:
            raise K.HarnessError('no token at %r' % text[pos:pos + 40])
        out.append(m.group(0))
        pos = m.end()
    return out


def apart(a, b):
    """Do these tokens need something between them?"""
    w = lambda x: x.isalnum() or x == '_'
    if w(a[-1]) and w(b[0]) or w(a[-1]) and b[0] in '"\'' or (a[0].isdigit() or a[0] == '.') and b[0] in '+-.':
        return True
    if a[-1] == '.' and b[0].isdigit() or a + b[0] in ('//', '/*'):
        return True
    m = TOKEN.match(a + b)
    return m.group(0) != a


NASTY = ['"', "'", ' \\n ', '//', ' * / ', ' /* ', '***', 'int x;', '"unterminated', "isn't", '{', '}', '#include', '\\', '??/', '<REPL>', ';', '*']


def comment(r):
    s = ''.join(r.choice(NASTY) for _ in range(r.randint(0, 4))).replace('*/', '* /')
    if r.random() < .02:
        s *= r.randint(1, 3000)
    if r.random() < .3:
        s = '\n'.join(s)
    s = s.replace('*/', '* /')
    if r.random() < .4:
        return '//' + s.replace('\n', ' ').rstrip('\\/') + '.\n'
    return '/*' + s + ' */'


def blank(r, style):
    if style == 'spaces':
        return r.choice(' \t\n\f\v') * r.choice([1, 1, 2, 5])
    if style == 'lines':
        return '\n' * r.choice([1, 1, 1, 2, 7, 8, 9, 10, 25])
    if style == 'comments':
        return r.choice([' ', '', '\n']) + comment(r) + r.choice(['', ' '])
    if style == 'splices':
        return r.choice([' ', '']) + '\\\n' * r.randint(1, 2) + r.choice(' \t')
    if style == 'crlf':
        return r.choice([' ', '\t', '\r\n', '\r\n\r\n', '/* \r\n */'])
    return ' '


STYLES = ['minimal', 'spaces', 'lines', 'comments', 'splices', 'crlf', 'mixed']


def layout(toks, r, style):
    out, n = [], 0
    prev = ''
    for t in toks:
        st = r.choice(STYLES[:-2]) if style == 'mixed' else style
        if prev:
            if st == 'minimal':
                s = (' ' if n < 4000 or r.random() < .9 else '\n') if apart(prev, t) else ''
                n = 0 if s == '\n' else n + len(s) + len(t)
            elif style != 'mixed' and r.random() < .5 and not apart(prev, t):
                s = ''
            else:
                s = blank(r, st)
                if prev == '/' and s[0] == '/':
                    s = ' ' + s
            # A splice can be within a token.
            if st == 'splices' and r.random() < .1 and len(t) > 1:
                k = r.randint(1, len(t) - 1)
                if not (prev == '/' and not s):
                    t = t[:k] + '\\\n' + t[k:]
            out.append(s)
        out.append(t)
        prev = t.replace('\\\n', '')
    return ''.join(out)


# ---------------------------------------------------------------- names
def reserved(inc):
    text = ''.join('#include <%s>\n' % i for i in inc).encode()
    r = [K.run(['gcc', '-E', f, '-x', 'c', '-'], stdin=text).out for f in ('-dD', '-dM')]
    return set(re.findall(r'[A-Za-z_]\w*', ''.join(r))) | set(LEX) | {a + k + b for k in
            'restrict inline volatile const signed asm attribute attribute__ typeof alignof complex real imag extension label thread func FUNCTION PRETTY_FUNCTION builtin_offsetof auto_type int128 null null__ Float128x'.split()
            for a in ('', '_', '__') for b in ('', '_', '__')}


class Names:
    def __init__(self, r, taken):
        self.r, self.taken, self.map = r, taken, {}
        self.long = 'a_long_name_' + 'x' * r.choice([30, 300, 5000])

    def fresh(self):
        r = self.r
        k = r.random()
        if k < .5:
            n = r.choice(['', '', 'a', '_', '__', 'x1', 'L', 'int', 'if']) + r.choice(LEX) + r.choice(['', '_', '__', '1', 's', 'x', 'int', 'for', 'X'])
        elif k < .6:
            n = r.choice(LEX).upper() if k < .55 else r.choice(LEX).capitalize()
        elif k < .65:
            n = r.choice(LEX)[:-1]
        elif k < .7:
            n = self.long + str(r.randint(0, 99))
        elif k < .8:
            n = r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_') + r.choice(['', '_', '0'])
        else:
            n = 'x' + ''.join(r.choice('_0xXeEfLuU') for _ in range(r.randint(1, 6)))
        return n

    def get(self, n):
        while n not in self.map:
            f = self.fresh()
            if f and f not in self.taken:
                self.taken.add(f)
                self.map[n] = f
        return self.map[n]


def rename(toks, r, keep):
    names = Names(r, set(keep) | {t for t in toks if re.match(r'[A-Za-z_]', t)})
    return [names.get(t) if re.match(r'[A-Za-z_]', t) and t not in keep else t for t in toks], names


def relaid(c, seed, make, n, keep, gc):
    r = random.Random(seed)
    cases = []
    for _ in range(n):
        g, b = make(r)
        cases.append(Case(b, g))
    cfg = Config(includes=INC, gcs=(gc,))
    src = program(cases, cfg)
    d = K.scratch()
    ref, err = reference(src, cfg, d)
    if ref is None or ref[1] or ref[2].rc:
        return c.count('programs with undefined behaviour discarded')
    head, body = [], []
    for l in src.split('\n'):
        (head if l.startswith('#') else body).append(l)
    toks = tokens('\n'.join(body))
    for style in r.sample(STYLES, 3):
        ts = toks
        if r.random() < .6:
            ts, names = rename(toks, r, keep)
            for n in names.map.values():
                c.count('names')
        text = '\n'.join(head) + '\n' + layout(ts, r, style) + r.choice(['\n', '\n', '\n\n/* end */ // .\n'])
        if style == 'crlf':
            text = text.replace('\r\n', '\n').replace('\n', '\r\n')
        K.write(d + '/p.c', text)
        o = K.run(['gcc', '-w', '-fsyntax-only', d + '/p.c'], timeout=60)
        if o.rc:
            c.inconclusive_case('the compiler rejects the layout %s of seed %r: %s' % (style, seed, o.err[:300]))
            continue
        o = K.bic(['-s', 'p.c'], cwd=d, gc=gc, timeout=60)
        if o.timeout:
            c.inconclusive_case('timeout')
            continue
        c.case(text)
        c.count('layout: ' + style)
        c.count('tokens', len(ts))
        why = o.crashed()
        if not why and o.rc:
            why = 'exit status %d' % o.rc
        if not why and sections(o.out) != ref[0]:
            a, b = ref[2].out.split('\n'), o.out.split('\n')
            k = [k for k in range(min(len(a), len(b))) if a[k] != b[k]] or [min(len(a), len(b)) - 1]
            why = 'line %d of the output is %r, not %r' % (k[0], b[k[0]], a[k[0]])
        if why:
            c.violation('layout %s%s: %s %s' % (style, '' if ts is toks else ' and other names', why, o.err[:300]), {'p.c': text, 'plain.c': src})
            return


# ---------------------------------------------------------------- literals
def spell(r, v):
    k = r.randint(0, 4)
    if k == 0:
        s = '%x' % v
        return '0x' + '0' * r.choice([0, 0, 1, 5]) + ''.join(r.choice([x, x.upper()]) for x in s)
    if k == 1:
        return '0' * r.choice([1, 1, 2, 6]) + '%o' % v
    if k == 2 and 32 <= v < 127 and chr(v) not in "'\\$":
        return "'%c'" % v
    if k == 2 and v in (10, 13, 92):
        return {10: r"'\n'", 13: r"'\r'", 92: r"'\\'"}[v]
    return str(v)


EDGE = [0, 1, 7, 8, 9, 10, 15, 16, 63, 64, 127, 128, 255, 256, 511, 512, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1] + list(range(32, 127)) + [10, 13, 92]


def int_case(r):
    out = []
    for _ in range(6):
        v = r.choice(EDGE) if r.random() < .7 else r.randint(0, 2**r.randint(1, 64) - 1)
        a, b = spell(r, v), spell(r, v)
        out.append('{ unsigned long v = %s; printf("%%lu %%d\\n", v, v == %s); }' % (a, b))
        # The negation of an unsigned constant is positive.
        if 2**31 <= v < 2**63:
            a = b = str(v)
        if v < 2**63:
            out.append('{ long v = -%s; printf("%%ld %%d\\n", v, v == -%s); }' % (b, a) if r.random() < .5 else '{ long v; v = %s; if (v != %s) printf("no\\n"); printf("%%ld\\n", v); }' % (b, a))
        if v < 2**31:
            out.append('printf("%%d %%d %%d\\n", %s, %s + 0, -%s);' % (a, b, a))
        if v < 100:
            out.append('{ int a[%s + 1]; a[%s] = %s; a[0] = 7; printf("%%d %%d\\n", a[%s], (int)(sizeof(a) / sizeof(int))); }' % (a, b, b, spell(r, v)))
        if v < 1000:
            out.append('{ int n = 0; for (int i = 0; i < %s; i++) n = n + i; printf("%%d\\n", n); }' % a)
    return Case('\n'.join(out), tags=('integer and character literals',))


def flt_case(r):
    out = []
    for _ in range(6):
        k = r.randint(0, 4)
        i = r.choice(['0', '00', '1', '7', '10', '123456789', '4503599627370497', '0' * 20 + '1', str(r.randint(0, 10**r.randint(1, 30)))])
        f = r.choice(['0', '5', '25', '1', '3333333333333333', '0000000001', '1' * 40, '%d' % r.randint(0, 10**r.randint(1, 20))])
        if k == 0:
            i, f = '0', '0' * r.randint(1, 300) + f
        if k == 1:
            i += '0' * r.randint(1, 270)
        out.append('{ double d = %s.%s; printf("%%.17g %%a\\n", d, d); }' % (i, f))
        if (i + f).strip('0'):
            out.append('{ double d; d = -%s.%s; printf("%%a\\n", d); }' % (i, f))
        out.append('printf("%%a\\n", %s.%s);' % (i, f))
        if len(i) < 9:
            out.append('{ float f = %s.%s; printf("%%a\\n", f); }' % (i, f))
    return Case('\n'.join(out), tags=('floating literals',))


def strlit(r, b):
    """A spelling of these bytes."""
    out = ''
    for i, x in enumerate(b):
        digit = i + 1 < len(b) and 48 <= b[i + 1] < 56
        k = r.random()
        if x == 10 and k < .5:
            out += '\\n'
        elif x == 9 and k < .5:
            out += '\\t'
        elif x in (34, 92):
            out += '\\' + chr(x) if k < .7 else '\\%03o' % x
        elif 32 <= x < 127 and x != 36 and k < .9 or x >= 128 and k < .5:
            # Not as the next digit of an escape.
            if out[-1:].isdigit() and chr(x) in '01234567' and re.search(r'\\[0-7]{1,2}$', out):
                out += '\\%03o' % x
            else:
                out += chr(x)
        else:
            out += '\\%03o' % x if digit or k < .6 else '\\%o' % x
    return '"' + out.replace('??', '?\\077') + '"'


def str_case(r):
    out = []
    for _ in range(5):
        b = bytes(r.choice([r.randint(0, 255), r.randint(32, 126), r.randint(32, 126), 34, 92, 10, 9, 48, 55, 0, 39, 47, 42, 63, 37, 195, 169]) for _ in range(r.choice([0, 1, 2, 5, 9, 20, 60])))
        if r.random() < .1:
            b = r.choice([b'// no comment', b'/* no comment */', b'int main() { return 1; }', b'#include <x>', b'a' * 3000, b"'", b'%', b'\\n', b'\\\\', b'"', b'\\"', b'<REPL>'])
        a = strlit(r, b)
        out.append('{ char *s; s = %s; for (int i = 0; i < %d; i++) printf("%%d ", s[i]); printf("\\n"); }' % (a, len(b) + 1))
        k = r.randint(0, 5)
        if k >= 4:
            n = r.choice(['', '', len(b) + 1, len(b) + 1 + r.randint(1, 30)])
            out.append('{ %schar a[%s] = %s; printf("%%d\\n", (int)sizeof(a)); for (int i = 0; i < (int)sizeof(a); i++) printf("%%d ", a[i]); printf("\\n"); }' % (r.choice(['', '', 'unsigned ', 'signed ']), n, a))
        elif k == 0:
            out.append('printf("%%d %%d\\n", (int)strlen(%s), strcmp(%s, %s) == 0);' % (a, strlit(r, b), a))
        elif k == 1:
            out.append('fwrite(%s, 1, %d, stdout); printf("\\n");' % (a, len(b)))
        elif k == 2:
            out.append('show$(%s, %d);' % (a, len(b) + 1))
        else:
            out.append('{ char *last = 0; for (int i = 0; i < 3; i++) { char *s; s = %s; if (i > 0 && s != last) printf("another\\n"); last = s; } }' % a)
    return Case('\n'.join(out), 'void show$(char *s, int n) { while (n-- > 0) printf("%d,", *s++); printf("\\n"); }', tags=('string literals',))


# Compilers ignore these, like bic; what surrounds them is not to be ignored.
ATTR = ['__attribute__((unused))', '__attribute__ ((aligned(8), unused))', '__attribute__\n(\n(unused))', '__attribute__((annotate(")")))', '__attribute__((annotate("(")))', '__attribute__((aligned(sizeof(int))))',
        '__attribute__((annotate("\\")")))', '__attribute__((aligned((((8))))))', '__attribute__((unused)) __attribute__((aligned(16)))', '__attribute__(())', '__attribute__((aligned(\'\\n\' + 6)))', '__attribute__((aligned(\'"\' - 26)))', '__attribute__((aligned(\')\' - 33)))', '__attribute__((aligned(\'(\' - 32)))', '__attribute__((aligned(\'\\\'\' - 31)))', '__attribute__((annotate("\'")))']


# ---------------------------------------------------------------- adjacent tokens
def adj_case(r):
    n = [0]
    decl = []

    def var():
        n[0] += 1
        at = r.choice(ATTR) if r.random() < .15 else ''
        w, v = 'int v%d' % n[0], r.randint(1, 40)
        decl.append(r.choice(['%s %s = (%d);', '%s %s; v%d = ((%%d));' % ('%s', '%s', n[0])]) % (w, at, v) if at else '%s = %d;' % (w, v))
        return 'v%d' % n[0]

    def leaf():
        k = r.randint(0, 9)
        if k == 0:
            return [str(r.randint(0, 50))]
        v = var()
        if k <= 2:
            return [v, r.choice(['++', '--'])]
        if k <= 4:
            return [r.choice(['++', '--']), v]
        if k == 5:
            decl.append('int *p%s = &%s;' % (v, v))
            return ['*', 'p' + v]
        if k == 6:
            decl.append('int *p%s = &%s;' % (v, v))
            return ['(', '*', 'p' + v, ')', r.choice(['++', '--'])]
        if k == 7:
            decl.append('int *p%s = &%s; int **q%s = &p%s;' % (v, v, v, v))
            return ['*', '*', 'q' + v]
        if k == 8:
            return ['*', '&', v]
        return [v]

    def unary(d):
        ops = [r.choice(['-', '~', '!']) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        return ops + (leaf() if d <= 0 or r.random() < .7 else ['('] + expr(d - 1) + [')'])

    def expr(d):
        out = unary(d)
        for _ in range(r.randint(1, 3)):
            op = r.choice(['+', '-', '*', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '<<', '>>', '?', '/', '%'])
            if op == '?':
                out += ['?'] + unary(0) + [':'] + unary(0)
                break
            if op in ('<<', '>>'):
                out = ['('] + out + [')', '&', '255', op, '(', str(r.randint(0, 9)), ')']
            elif op in ('/', '%'):
                out += [op, '(', str(r.randint(1, 9)), ')'] if r.random() < .5 else [op, '(', '3', '+', '(', '*', '&', var(), ')', ')']
            else:
                out += [op] + unary(d)
        return out
    body = []
    for _ in range(3):
        e = expr(2)
        v = var()
        op = r.choice(['=', '+=', '-=', '^='])
        body.append((v, [v, op] + e + [';']))
    style = r.choice(['minimal', 'minimal', 'minimal', 'spaces', 'lines'])
    text = ''
    for v, ts in body:
        text += layout(ts, r, style) + ' printf("%%d\\n", %s);\n' % v
    used = ['v%d' % i for i in range(1, n[0] + 1)]
    text += '\n'.join('printf("%s\\n", %s);' % (' '.join('%d' for _ in g), ', '.join(g)) for g in [used[i:i + 6] for i in range(0, len(used), 6)])
    return Case('\n'.join(decl) + '\n' + text, tags=('adjacent tokens',))


def run(c):
    from checks import c01, c03, c04, c05, c07
    c.rule = ('(1) Integer, character, floating and string literals in all the spellings that bic supports, and expressions of all operators with as little (or odd) white space as C permits: the values printed '
              'are those of the compiled program. (2) Programs of other checks laid out anew (%s) and with names made of keywords, parts of numbers, of 5000 characters: the output is that '
              'of the original compiled. Non-trivial: a new text.' % ', '.join(STYLES))
    k = 12 if K.THOROUGH else 1
    cases = [int_case(c.rng) for _ in range(160 * k)] + [flt_case(c.rng) for _ in range(60 * k)] + [str_case(c.rng) for _ in range(160 * k)] + [adj_case(c.rng) for _ in range(300 * k)]
    c.rng.shuffle(cases)
    differential(c, cases, Config(sessions=6, includes=INC, gcs=('97', '700:%d', None), ref_flags=['-fno-sanitize=unsigned-integer-overflow,float-cast-overflow']), batch=20)
    keep = reserved(INC)
    seeds = [c.rng.random() for _ in range(60 * k)]
    makes = [(lambda r: c01.make(r, 4), 3), (c03.make, 3), (c04.make, 3), (c05.make, 1), (c07.make, 3)]

    def f(i):
        if len(c.violations) < 4:
            relaid(c, seeds[i], *makes[i % 5], keep, [None, '700:%d' % i, '97'][i % 3])
    K.pmap(f, range(len(seeds)))
    return 60
