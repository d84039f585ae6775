"""Syntax errors: where they are reported, and that nothing happens before."""
import os, random, re
from lib import common as K
from lib.session import SessGen, Line, Norm, PRELUDE, REF_HEAD, split, reference
from . import c05, c12, c23

TOKEN = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|[A-Za-z_]\w*|[0-9][\w.]*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.''', re.S)
INSERT = ['{', '}', '(', ')', '[', ']', ';', ',', '=', '+', '*', '&', '==', '!', '~', '?', '.', '->', '++', 'if', 'else', 'while', 'for', 'return', 'int', 'struct', 'sizeof',
          'typedef', 'char', '0', '42', '"s"', "'c'", '...', 'zz', 'void', 'enum', '/', '%', '<', '>>', '^=', '@', '`', '\\', '#']
# What gcc says when the grammar, not the meaning, is at fault.
SYNTAX = re.compile(r"error: (expected .*|stray .* in program|missing terminating .* character|'else' without a previous 'if')$")

# All of the grammar that bic implements.
SAMPLE = '''#include <stdio.h>
#include <stdlib.h>
typedef struct node { int value; struct node *next; } node;
typedef unsigned long (*op)(unsigned long, int);
typedef enum { RED, GREEN = 5, BLUE = GREEN + 2 } colour;
union mix { char c[8]; long l; double d; };
struct outer { int a, b[3]; struct { short s; union mix m; } in; colour col; const char *name; };
extern int putchar(int c);
static int counter = 3;
int grid[3][4];
const char *text = "some (text) with ; and }";
static node *push(node *head, int value);
unsigned long shift(unsigned long x, int n)
{
    return x << n;
}
unsigned long mulx(unsigned long x, int n) { return x * n; }
static node *push(node *head, int value)
{
    node *n = malloc(sizeof(node));
    n->value = value;
    n->next = head;
    return n;
}
int sum(node *list)
{
    int total = 0;
    while (list) {
        total += list->value;
        list = list->next;
    }
    return total;
}
int classify(int c)
{
    if (c < 0)
        return -1;
    else if (c == 0)
        return 0;
    else {
        int k;
        for (k = 0; k < 10 && c > 0; k++)
            c >>= 1;
        return k;
    }
}
void show(struct outer *o)
{
    printf("%d %d %d %s\\n", o->a, o->b[1], (int)o->in.s, o->name);
    printf("%d\\n", o->col == GREEN ? 1 : 2);
}
int main()
{
    struct outer o;
    struct outer *p = &o;
    node *list = 0;
    op f[2];
    int i, j = 4;
    char buf[20];
    printf("start %d\\n", counter);
    f[0] = &shift;
    f[1] = &mulx;
    o.a = 7; o.b[1] = 3 * (o.a - 1);
    (*p).in.s = (short)(o.a | 8);
    p->col = BLUE;
    p->name = text;
    show(p);
    for (i = 0; i < 5; i++)
        list = push(list, i * i);
    for (int q = 0; q < 2; ++q) {
        printf("%d\\n", (int)f[q](3, 4));
    }
    printf("%d %d\\n", sum(list), classify(100));
    for (i = 0; i < 3; i++)
        for (j = 0; j < 4; j++) {
            grid[i][j] = i ^ j & ~1;
        }
    buf[0] = 'a'; buf[1] = '\\n'; buf[2] = 0;
    printf("%s%d\\n", buf, grid[2][3]);
    counter -= 1, counter <<= 2;
    counter /= 3;
    if (counter != 0 && !(counter > 100) || counter == 7)
        printf("%d %d\\n", counter, (int)sizeof(union mix));
    else
        printf("else\\n");
    ;
    i = counter--;
    {
        static int hidden;
        hidden++;
        i = -hidden + i % 3;
    }
    putchar(65);
    putchar('\\n');
    return i ? 0 : 3;
}
'''


def tokens(text):
    return [(m.start(), m.group(0)) for m in TOKEN.finditer(text)]


def mutable(text):
    """The tokens of text that aren't parts of directives or comments."""
    spans, pos = [], 0
    cont = False
    for l in text.split('\n'):
        if cont or l.lstrip().startswith('#'):
            spans.append((pos, pos + len(l)))
            cont = l.endswith('\\')
        else:
            cont = False
        pos += len(l) + 1
    return [(p, t) for p, t in tokens(text) if not t.isspace() and not t.startswith(('//', '/*')) and not any(a <= p <= b for a, b in spans)]


def mutate(rng, text, whole=True):
    """(kind, text) with one fault, or None."""
    ts = mutable(text)
    if not ts:
        return None
    i = rng.randrange(len(ts))
    p, t = ts[i]
    if t in ('const', 'volatile', 'restrict', 'inline'):
        return None             # Ignored wherever they are.
    k = rng.choice(['delete', 'delete', 'insert', 'insert', 'replace', 'double', 'swap', 'truncate', 'quote', 'move'])
    if k == 'delete':
        new = text[:p] + ' ' + text[p + len(t):]
    elif k == 'insert':
        new = text[:p] + ' %s ' % rng.choice(INSERT) + text[p:]
    elif k == 'replace':
        new = text[:p] + ' %s ' % rng.choice(INSERT) + text[p + len(t):]
    elif k == 'double':
        new = text[:p] + t + ' ' + text[p:]
    elif k == 'swap' and i + 1 < len(ts):
        q, u = ts[i + 1]
        if u in ('const', 'volatile'):
            return None
        new = text[:p] + u + text[p + len(t):q] + t + text[q + len(u):]
    elif k == 'truncate':
        new = text[:p] + rng.choice(['', '\n'])
    elif k == 'quote' and t[0] in '"\'' and len(t) > 1:
        new = text[:p] + (t[1:] if rng.random() < .5 else t[:-1]) + text[p + len(t):]
    elif k == 'move':
        # Another place for this token.
        q, u = rng.choice(ts)
        a, b = min(p, q), max(p, q)
        new = text[:p] + ' ' * len(t) + text[p + len(t):]
        new = new[:q] + t + ' ' + new[q:]
    else:
        return None
    if new == text or new.count('/*') != text.count('/*') or new.count('//') != text.count('//') or new.count('*/') != text.count('*/'):
        return None
    ts = [t for _, t in tokens(new) if not t.isspace() and not t.startswith(('//', '/*'))]
    for a, b in zip(ts, ts[1:]):
        # What other compilers accept where bic's grammar ends: texts in a row, unary +, labels,
        # extensions of gcc.
        if a[0] == '"' and b[0] == '"' or b == '+' and not re.match(r'[\w)\]"\']|\+\+|--', a) or (a, b) in (('?', ':'), ('(', '{')) or b == ':' and t == ':':
            return None
    return k, new


def located(d, opts, main):
    """The tokens of the preprocessed script: (file, line, token)."""
    r = K.run(['gcc', '-E', '-w'] + opts + [main], cwd=d, timeout=60)
    out, f, n = [], None, 0
    for l in r.out.split('\n'):
        m = re.match(r'# (\d+) "((?:[^"\\]|\\.)*)"', l)
        if m:
            n, f = int(m.group(1)), m.group(2)
            continue
        for _, t in tokens(l):
            if not t.isspace():
                out.append((f, n, t))
        n += 1
    return out


WORDS = set('int char short long unsigned signed float double void struct union enum _Bool'.split())


def typenames(ts):
    """The names that the typedefs among the tokens declare (or more)."""
    out = set()
    for i, t in enumerate(ts):
        if t == 'typedef':
            depth = 0
            for j in range(i + 1, min(i + 400, len(ts))):
                depth += (ts[j] == '{') - (ts[j] == '}')
                if not depth and ts[j] == ';':
                    out.add(ts[j - 1])
                    break
            k = [x for x in range(i, min(i + 12, len(ts) - 1)) if ts[x] == '*' and ts[x - 1] == '(']
            if k:
                out.add(ts[k[0] + 1])
    return {t for t in out if re.match(r'[A-Za-z_]', t)}


def judge(d, opts, main):
    """None, or the places (file, line) where the grammar may be said to be broken."""
    r = K.run(['gcc', '-fsyntax-only', '-w', '-std=gnu11', '-fno-diagnostics-show-caret', '-fdiagnostics-color=never'] + opts + [main], cwd=d, timeout=60, env=dict(K.base_env(), LC_ALL='C'))
    if not r.rc:
        return None
    es = [l for l in r.err.split('\n') if re.search(r'(error): ', l)]
    # Outside of functions scripts have statements, which C has not.
    if not es or 'macro' in r.err or not SYNTAX.search(es[0]) or 'In function' not in r.err[:r.err.index(es[0])]:
        return None
    m = re.match(r'(.*?):(\d+):(?:\d+:)? error: (.*)', es[0])
    if not m:
        return None
    f, n, msg = m.group(1), int(m.group(2)), m.group(3)
    # Extensions that gcc took for what comes before the error.
    r2 = K.run(['gcc', '-fsyntax-only', '-pedantic-errors', '-std=gnu11', '-fno-diagnostics-show-caret', '-fdiagnostics-color=never'] + opts + [main], cwd=d, timeout=60, env=dict(K.base_env(), LC_ALL='C'))
    if [l for l in r2.err.split('\n') if 'error: ' in l][:1] != es[:1]:
        return None
    ts = located(d, opts, main)
    types = typenames([t[2] for t in ts])
    for a, b, e in zip(ts, ts[1:], ts[2:] + [(0, 0, '')]):
        if a[0][0] == '/':
            continue
        # Texts in a row; several types in a row (which the grammar has, they only mean nothing).
        if a[2][0] == '"' and b[2][0] == '"' or a[2] in types and b[2] in types | WORDS or b[2] in types and a[2] in WORDS and a[2] not in ('struct', 'union', 'enum') and e[2] != ';':
            return None
    if "expected ';', identifier or '('" in msg:
        return None
    at = [i for i, t in enumerate(ts) if t[0] == f and t[1] == n]
    if '#' in msg or 'at end of input' in msg and any('#line' in open(d + '/' + x).read() for x in ([f, main] if os.path.exists(d + '/' + f) else [main])):
        return None
    if 'at end of input' in msg or not ts:
        last = max([t[1] for t in ts if t[0] == main] or [1])
        # Where the end of a file is: on its last line or past it.
        text = open(d + '/' + main).read()
        return {(f, k) for k in range(n, text.count('\n') + 3)} | {(f, last)}, msg
    types = typenames([t[2] for t in ts])
    for a, b, e in zip(ts, ts[1:], ts[2:] + [(0, 0, '')]):
        if a[0][0] == '/':
            continue
        # Texts in a row; several types in a row (which the grammar has, they only mean nothing).
        if a[2][0] == '"' and b[2][0] == '"' or a[2] in types and b[2] in types | WORDS or b[2] in types and a[2] in WORDS and a[2] not in ('struct', 'union', 'enum') and e[2] != ';':
            return None
    if "expected ';', identifier or '('" in msg:
        return None
    at = [i for i, t in enumerate(ts) if t[0] == f and t[1] == n]
    if not at:
        return None
    places = {(f, n)}
    b = re.search(r"before (.*?)(?: token)?$", msg)
    if at[-1] + 1 < len(ts):
        nxt = ts[at[-1] + 1]
        if b:
            x = b.group(1).strip("'\u2018\u2019")
            here = [ts[i][2] for i in at]
            kind = {'string constant': '"', 'numeric constant': '0', 'constant': "0'"}.get(x)
            char = (len(x) == 1 or x[0] == '\\') and b.group(1)[-1] != 'n'
            same = lambda t: char and t[0] == "'" or (t[0] in kind or kind == '0' and t[0].isdigit() if kind else t == x)
            if not any(same(t) for t in here):
                places = {nxt[:2]}
            elif same(nxt[2]):
                places.add(nxt[:2])
        else:
            places.add(nxt[:2])
    return places, msg


def base(rng, i):
    k = ['sample', 'scopes', 'errors', 'project'][i % 4]
    if k == 'sample':
        return k, {'src/main.c': SAMPLE}, []
    if k == 'scopes':
        g, b = c05.make(rng)
        return k, {'src/main.c': ('#include <stdio.h>\n%s\nint main() { puts("start"); %s return 0; }\n' % (g, b)).replace('$', '_1')}, []
    if k == 'errors':
        g = c12.Gen(rng, rng.random() < .5)
        src, hdr, order = g.program('gi', False)
        while '__a' in src + (hdr or ''):      # bic skips what these have in parentheses
            src, hdr, order = g.program('gi', False)
        cl = lambda t: t.replace('@E@', '').replace('@<', '').replace('@>', '').replace('#define', '//')
        files = {'src/main.c': cl(src)}
        if hdr:
            files['src/er.h'] = cl(hdr)
        return k, files, []
    p = c23.Proj(rng)
    return k, p.instance(), p.opts()


def script(c, seed, i):
    rng = random.Random(seed)
    kind, files, opts = base(rng, i)
    d = K.scratch()
    for s in c23.DIRS:
        os.makedirs(d + '/' + s, exist_ok=True)
    for f, t in files.items():
        K.write(d + '/' + f, t)
    r = K.run(['gcc', '-fsyntax-only', '-w', '-std=gnu11'] + opts + ['src/main.c'], cwd=d, timeout=60)
    if r.rc and kind != 'errors':
        return c.inconclusive_case('base: %s %s' % (kind, r.err[:200]))
    found = 0
    for _ in range(60):
        if found >= 4:
            break
        f = 'src/main.c' if rng.random() < .7 else rng.choice(list(files))
        m = mutate(rng, files[f])
        if not m:
            continue
        how, new = m
        K.write(d + '/' + f, new)
        where = judge(d, opts, 'src/main.c')
        if where:
            found += 1
            bad = dict(files)
            bad[f] = new
            if not one(c, rng, d, bad, opts, where, kind, how, f, i):
                return
        else:
            c.count('faults that are not of syntax')
        K.write(d + '/' + f, files[f])


def one(c, rng, d, files, opts, where, kind, how, mutated, i):
    gc = [None, None, '37'][i % 3]
    r = K.bic(opts + ['-s', 'src/main.c'], cwd=d, gc=gc, timeout=30)
    places, msg = where
    if r.timeout:
        r = K.bic(opts + ['-s', 'src/main.c'], cwd=d, gc=gc, timeout=120)
    c.case('\n'.join(files.values()))
    c.count('faults: ' + how)
    c.count('program: ' + kind)
    c.count('in ' + ('the script' if min(places)[0] == 'src/main.c' else 'a header'))
    c.count('lines before the errors', min(n for f, n in places))
    c.count('gcc: ' + re.sub(r"['\u2018].*?['\u2019]", 'X', msg)[:60])
    why = r.crashed() or (r.timeout and 'does not end')
    if not why and r.rc != 1:
        why = 'exit status %d' % r.rc
    if not why and r.out:
        why = 'output %r' % r.out[:200]
    if not why:
        m = re.findall(r'^Parser Error: (.*?):(\d+) (.*)$', r.err, re.M)
        if len(m) != 1:
            why = '%d messages: %r' % (len(m), r.err[-300:])
        elif (m[0][0], int(m[0][1])) not in places:
            why = 'reported at %s:%s (%s)' % m[0]
    if why:
        c.violation('syntax error at %s (%s): %s' % (sorted(places)[:3], msg, why),
                    dict({k.replace('/', '_'): t for k, t in files.items()}, **{'observed.txt': r.out, 'stderr.txt': r.err[:20000], 'replay.txt': 'changed: %s (%s)\nbic %s -s src/main.c\n' % (mutated, how, ' '.join(opts))}))
        return False
    return True


# What the preprocessor or the file system finds.
LIM = 60

OTHER = [('#include "nosuch.h"\n', None), ('#include <nosuch/nosuch.h>\n', None), ('#error stop\n', None), ('#if\n#endif\n', None), ('#if 1 +\n#endif\n', None), ('#endif\n', None),
         ('#define F(a b) a\n', None), ('#define 3 4\n', None), ('#else\n', None), ('#if 1\n', None), ('/* never ends\n', None), ('#bogus\n', None), ('#define G(x) x\nG(1\n', None), ('#undef\n', None),
         ('#include\n', None), ('#define P(a,b) a##b\nint P(+,/) ;\n', None), ('#if 1/0\n#endif\n', None), ('#define H(a) a\nint q = H(1,2);\n', None)]


def others(c):
    def f(x):
        t, at = x
        pre = '#include <stdio.h>\nint zq = 3;\nputs("effect");\n'
        src = {0: t + pre, 1: pre + t + 'puts("more");\n', 2: pre + t}[at]
        d = K.scratch()
        K.write(d + '/p.c', src)
        r = K.bic(['-s', 'p.c'], cwd=d, timeout=30)
        c.case(src)
        c.count('errors of the preprocessor')
        why = r.crashed() or (r.timeout and 'does not end') or (r.rc != 1 and 'exit status %d' % r.rc) or (r.out and 'output %r' % r.out)
        if 'G(1' in t and not why:
            return
        line = {0: 1, 1: 4, 2: 4}[at]
        if not why and not re.search(r'p\.c:\d+', r.err):
            why = 'no location: %r' % r.err[:200]
        if not why and t.count('\n') == 1 and 'ends' not in t and not re.search(r'p\.c:%d\b' % line, r.err):
            why = 'not reported at line %d: %r' % (line, r.err[:200])
        if why:
            c.violation('%r: %s' % (t, why), {'p.c': src, 'stderr.txt': r.err[:20000], 'observed.txt': r.out})
    K.pmap(f, [(t, a) for t, _ in OTHER for a in (0, 1, 2)])


KEYWORDS = 'auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while'.split()


def top(c):
    """Statements outside of functions are no more executed than others."""
    bad = ['puts("x"', 'int ;;; = 3;', 'puts("x"));', '}', 'int f( { }', 'puts("a") puts("b");', 'struct { int a }; ', 'for (;;', 'if', 'int a[;', '@', 'x = = 3;', 'return', '"abc', "'a", 'int f() {'] + ['%s %s { int a; };' % x for x in zip(['struct', 'union'] * 30, KEYWORDS) if x[1] not in ('const', 'volatile')] + ['int %s = 1;' % x for x in KEYWORDS if x not in ('const', 'volatile')]

    def f(x):
        b, n = x
        src = '#include <stdio.h>\n' + ''.join('int t%d;\nt%d = puts("effect");\n' % (i, i) for i in range(n)) + b + '\n'
        d = K.scratch()
        K.write(d + '/p.c', src)
        r = K.bic(['-s', 'p.c'], cwd=d, timeout=30)
        c.case(src)
        c.count('statements at top level before the error', n)
        m = re.findall(r'^Parser Error: (.*?):(\d+) ', r.err, re.M)
        why = r.crashed() or (r.timeout and 'does not end') or (r.rc != 1 and 'exit status %d' % r.rc) or (r.out and 'output %r' % r.out)
        if not why and (len(m) != 1 or m[0][0] != 'p.c' or not 0 <= int(m[0][1]) - (2 + 2 * n) <= 1):
            why = 'reported: %r' % r.err[:200]
        if why:
            c.violation('%r after %d statements: %s' % (b, n, why), {'p.c': src, 'stderr.txt': r.err[:20000], 'observed.txt': r.out})
    K.pmap(f, [(b, n) for b in bad for n in (0, 1, 7, 100)])


LAYOUT = ['\n', '\n' * 300, '\n' * 33000, '\n' * 70000, 'int zz __attribute__((\n aligned(4),\n unused));\n', 'int zz __attribute__((unused))\n;\n', 'int zz __asm__("zz(\\""\n"(")\n;\n', '/* a\n * b\n */\n', '// c\\\nd\n',
          '#define M(x) x \\\n x\n', '#if 0\n x\n\n#endif\n', 'char *zz = "a\\\nb";\n', '#include "lay.h"\n', '#pragma once\n', '#line 500\n', '#line 70000\n', '#line 100000 "other.c"\n', '__extension__\nint zz\n;\n', '\f\v\t\n',
          'int zz = sizeof(\nint\n)\n;\n', '#define E\nE E\nE\n', '#define C(a, b) int a##b;\nC(z,\n\nz)\n']


def layout(c):
    """Where an error is does not depend on how the text before is laid out."""
    items = [(l,) for l in LAYOUT] + [tuple(c.rng.choice(LAYOUT) for _ in range(c.rng.choice([2, 3, 5]))) for _ in range(300 if K.THOROUGH else 60)]

    def f(x):
        head, seen = '', ''
        for k, l in enumerate(x):
            head += l.replace('zz', 'zz%d' % k).replace('C(z,', 'C(z%d,' % k).replace('"lay.h"', '"lay%d.h"' % k)
        d = K.scratch()
        for k in range(len(x)):
            K.write(d + '/lay%d.h' % k, '\n\nint lay%d\n;\n\n' % k)
        src = head + 'int va;\nint vb = ;\n'
        K.write(d + '/p.c', src)
        want = [t for t in located(d, [], 'p.c') if t[2] == ';'][-1][:2]
        r = K.bic(['-s', 'p.c'], cwd=d, timeout=60)
        c.case(src)
        c.count('layouts')
        m = re.findall(r'^Parser Error: (.*?):(\d+) ', r.err, re.M)
        why = r.crashed() or (r.timeout and 'does not end') or (r.rc != 1 and 'exit status %d' % r.rc)
        if not why and [(a, int(b)) for a, b in m] != [want]:
            why = 'at %s:%d, reported: %r' % (want + (r.err[:200],))
        # An error found when the text is run is at the same place.
        if not why:
            K.write(d + '/q.c', head + 'int va;\nint vb = nosuch;\n')
            want = [t for t in located(d, [], 'q.c') if t[2] == 'nosuch'][-1][:2]
            r = K.bic(['-s', 'q.c'], cwd=d, timeout=60)
            m = re.findall(r'^(.*?):(\d+):(\d+): error: ', r.err, re.M)
            if r.rc != 1 or [(a, int(b)) for a, b, _ in m] != [want]:
                why = 'evaluated: at %s:%d, reported: %r' % (want + (r.err[:200],))
        if why:
            c.violation('%r: %s' % (head[:200], why), {'p.c': src, 'stderr.txt': r.err[:20000]})
    K.pmap(f, items)


def sess(c, seed, i):
    rng = random.Random(seed)
    g = SessGen(rng)
    g.errors = False
    d = K.scratch()
    g.make(rng.randint(12, 25))
    ref, why = reference_of(g, d)
    if ref is None:
        c.count('sessions_discarded')
        return c.inconclusive_case(why)
    # Faulty variants of its lines, somewhere later in the session.
    lines = []
    for j, l in enumerate(g.lines):
        lines.append((l, ref[j]))
        for _ in range(rng.choice([0, 1, 2])):
            src = rng.choice(g.lines[:j + 1])
            if src.kind == 'include':
                continue
            m = mutate(rng, src.text)
            if not m or '\n' in m[1] or m[1].lstrip()[:1] in '#?':
                continue
            K.write(d + '/j.c', '#include <stdio.h>\n' + REF_HEAD + PRELUDE + '\n'.join(g.globs) + '\nvoid judged()\n{\n%s\n}\n' % m[1])
            w = judge(d, ['-I.'], 'j.c')
            if w:
                lines.append((Line(m[1], '', 'syntax error', True), None))
                c.count('faults: ' + m[0])
    text = ''.join(l.text + '\n' for l, _ in lines)
    home = d + '/home'
    os.mkdir(home)
    K.write(home + '/.bic', '#include <stdio.h>\n' + PRELUDE)
    r = K.bic(['-I', '.'], stdin=text, rl=True, cwd=d, home=home, gc=[None, '31', '200:%d' % i][i % 3], timeout=120)
    c.case(text)
    c.count('sessions')
    out, err, o0, e0 = split(r, len(lines))
    na, nb = Norm(), Norm()
    why = r.crashed() or (r.timeout and 'does not end')
    for j, (l, e) in enumerate(lines):
        if why:
            break
        if j >= len(out):
            why = 'the session ended at %r: %s' % (lines[j - 1][0].text, r.err[-300:])
        elif l.err:
            c.count('erroneous lines')
            if out[j] or not re.match(r'Parser Error: ', err[j]) or err[j].count('Parser Error') != 1:
                why = 'line %d: %s: output %r, diagnostics %r' % (j + 1, l.text, out[j][:200], err[j][:300])
        else:
            side, val = e
            if na(out[j]) != nb(side + (val or '')) or err[j]:
                why = 'line %d: %s: expected %r, observed %r %s' % (j + 1, l.text, side + (val or ''), out[j][:200], err[j][:300])
    if not why and r.rc:
        why = 'exit status %d' % r.rc
    if why:
        c.violation('a session: ' + why, {'session.txt': text, 'home.bic': open(home + '/.bic').read(), 'observed.txt': r.out, 'stderr.txt': r.err[:20000]})


def reference_of(g, d):
    for n, t in g.headers:
        K.write(d + '/' + n, t)
    return reference(g, PRELUDE, d)


def run(c):
    c.rule = ('One token of a valid program (which covers the grammar bic implements, or is randomly generated, with headers and macros) is removed, added, replaced, doubled, moved or swapped, or the rest cut '
              'off; variants that gcc finds no sentences of the grammar of C are run: no output, status 1, one message that names the file and the line of the first token that no program continues. The '
              'same with errors of the preprocessor, with statements at top level, and with lines of sessions, whose other lines do what they do in a C program without the erroneous ones. '
              'Non-trivial: a new erroneous program, a new session.')
    others(c)
    top(c)
    layout(c)
    n = 2500 if K.THOROUGH else 160
    seeds = [c.rng.random() for _ in range(n)]
    K.pmap(lambda i: len(c.violations) < LIM and script(c, seeds[i], i), range(n))
    n = 800 if K.THOROUGH else 60
    seeds = [c.rng.random() for _ in range(n)]
    K.pmap(lambda i: len(c.violations) < LIM and sess(c, seeds[i], i), range(n))
    c.sample(SAMPLE[:600])
    return 200
