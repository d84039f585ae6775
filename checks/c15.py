"""The REPL prints the value and type that an expression has."""
import random
from lib import common as K
from lib.session import *
from lib.typegen import nodes
from checks.c14 import observe, compare

FUNS = ''.join('%s id_%s(%s v) { return v; }\n%s *at_%s(%s *p) { return p; }\n' % (t, t.replace(' ', '_'), t, t, t.replace(' ', '_'), t)
               for t in INTTYPES + ['float', 'double', 'long double']) + r'''
long sumb(unsigned char *p, int n)
{
    long s = 0;
    int i;
    for (i = 0; i < n; i++)
        s = (s * 31 + p[i]) & 268435455;
    return s;
}
void *ptr(void *p) { return p; }
char *strid(char *p) { return p; }
int evals;
int eval1(int v) { evals++; return v; }
'''
FMT = {'char': '%hhd', 'unsigned char': '%hhu', 'short': '%hd', 'unsigned short': '%hu', 'int': '%d', 'unsigned int': '%u', 'long': '%ld', 'unsigned long': '%lu',
       'long long': '%lld', 'unsigned long long': '%llu'}


def settle(g, lv, t, v):
    """Lines that give an object a value without literals of a particular size."""
    if v == -(1 << 63):
        g.add('%s = -9223372036854775807;' % lv, 'SHOWI(%s = -9223372036854775807);' % lv, 'assignment')
        g.add('%s = %s - 1;' % (lv, lv), 'SHOWI(%s = %s - 1);' % (lv, lv), 'assignment')
    elif v >= 1 << 63:
        g.add('%s = %d;' % (lv, v >> 1), 'SHOWI(%s = %d);' % (lv, v >> 1), 'assignment')
        s = '%s = %s + %d' % (lv, lv, v - (v >> 1))
        g.add(s + ';', 'SHOWI(%s);' % s, 'assignment')
    else:
        g.add('%s = %d;' % (lv, v), 'SHOWI(%s = %d);' % (lv, v), 'assignment')


def ints(g, rng, t):
    n, p, a, s = g.name('v'), g.name('p'), g.name('a'), g.name('s')
    spell = rng.choice([t, t, 'volatile ' + t, {'unsigned int': 'unsigned', 'long': 'long int', 'short': 'short int', 'unsigned long': 'long unsigned int', 'char': 'signed char' if rng.random() < .5 else 'char',
                                                'long long': 'long long int'}.get(t, t)])
    for text in ('%s %s;' % (spell, n), '%s *%s;' % (spell, p), '%s %s[3];' % (spell, a)):
        g.globs.append(text)
        g.add(text, 'NAME("%s");' % (n if text.startswith(spell + ' ' + n) else p if '*' in text else a), 'declaration')
    d = 'struct { char c; %s m; %s k[2]; } %s;' % (spell, spell, s)
    g.globs.append(d)
    g.add(d, 'NAME("%s");' % s, 'declaration')
    u = t.replace(' ', '_')
    for lv in rng.sample([n, a + '[1]', s + '.m', s + '.k[1]'], 2):
        v = interesting(rng, t)
        settle(g, lv, t, v)
        q = '%s = &%s' % (p, lv)
        g.add(q + ';', 'SHOW%s(%s);' % ('P', q) if t != 'char' else '%s; V(); printf("skip\\n");' % q, 'pointer' if t != 'char' else 'ignored')
        for e in rng.sample([lv, '*' + p, 'id_%s(%s)' % (u, lv), '*at_%s(&%s)' % (u, lv), '(%s)%s' % (t, lv), '%s[0]' % p, '(%s)' % lv, '1 ? %s : %s' % (lv, lv), '0, ' + lv, lv + ' == ' + lv,
                             '*&%s' % lv, '!' + lv, '%s && 1' % lv], 6):
            g.add(e + ';', 'SHOWI((%s));' % e, 'integer of type ' + t)
            if rng.random() < .4:
                f = 'printf("%s %%d\\n", %s, evals)' % (FMT[t] if e[-1] != '1' and '==' not in e and e[0] != '!' else '%d', '(%s)' % e)
                g.add(f + ';', 'SHOWI(%s);' % f, 'printf of the same expression')
        other = rng.choice(INTTYPES)
        e = '(%s)%s' % (other, lv)
        g.add(e + ';', '{ %s w_ = (%s)%s; SHOWI(w_); }' % (other, other, lv), 'integer of type ' + other)
        if t not in ('char', 'unsigned char', 'short', 'unsigned short') and v < (1 << BITS[t][0] - 2) and v > -(1 << 30):
            for e in (lv + '++', '++' + lv, lv + '--'):
                g.add(e + ';', 'SHOWI(%s);' % e, 'effect evaluated once')
                g.add(lv + ';', 'SHOWI(%s);' % lv, 'integer of type ' + t)
    for _ in range(3):
        v = rng.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, rng.getrandbits(rng.randint(1, 63))])
        e = rng.choice(['%d', '0x%x', '-%d', '0%o', '%d']) % v
        g.add(e + ';', 'SHOWI((%s));' % e, 'integer literal')
    v = rng.choice([2**63, 2**64 - 1, rng.getrandbits(64)])
    e = rng.choice(['0x%x', '0x%X', '0%o', '(0x%x)', '0x%x & 0xffffffffffffffff', '0x%x | 1']) % v
    g.add(e + ';', 'SHOWI((%s));' % e, 'integer literal')
    e = 'eval1(%d)' % rng.randint(0, 99)
    g.add(e + ';', 'SHOWI(%s);' % e, 'effect evaluated once')
    g.add('evals;', 'SHOWI(evals);', 'effect evaluated once')


def floats(g, rng, t):
    n = g.name('f')
    g.globs.append('%s %s, *p%s, a%s[2];' % (t, n, n, n))
    g.add('%s %s, *p%s, a%s[2];' % (t, n, n, n), 'NAME("a%s");' % n, 'declaration')
    for _ in range(4):
        v = rng.choice(['%d.%d' % (rng.randint(0, 10 ** rng.randint(1, 8)), rng.randint(0, 999999)), '%.2f' % (rng.random() * 100), '0.5', '1.0', '0.000001', '12345678.5', '99.999999'])
        lv = rng.choice([n, 'a%s[1]' % n])
        g.add('%s = %s;' % (lv, v), 'SHOWF(%s = %s);' % (lv, v), 'floating point')
        g.add('p%s = &%s;' % (n, lv), 'SHOWP(p%s = &%s);' % (n, lv), 'pointer')
        for e in rng.sample([lv, '*p' + n, 'id_%s(%s)' % (t.replace(' ', '_'), lv), '(%s)' % lv, '1 ? %s : %s' % (lv, lv)], 2):
            g.add(e + ';', 'SHOWF((%s));' % e, 'floating point')
        if t != 'long double':
            f = 'printf("%%f\\n", %s)' % lv
            g.add(f + ';', 'SHOWI(%s);' % f, 'printf of the same expression')
        o = rng.choice(['float', 'double', 'long double'])
        e = '(%s)%s' % (o, lv)
        g.add(e + ';', 'SHOWF(%s);' % e, 'floating point')
    i = rng.choice(INTTYPES)
    x = rng.randint(0, 120)
    g.add('(%s)%s;' % (t, x), 'SHOWF((%s)%s);' % (t, x), 'floating point')
    g.add('%s = %d;' % (n, x), 'SHOWF(%s = %d);' % (n, x), 'floating point')
    g.add('(%s)%s;' % (i, n), '{ %s w_ = (%s)%s; SHOWI(w_); }' % (i, i, n), 'integer of type ' + i)
    lit = '%d.%d' % (rng.randint(0, 5000), rng.choice([5, 25, 125, 75, 0, 1, 123456, 99, 333]))
    g.add(lit + ';', 'V(); printf("%%f\\n", %s);' % lit, 'floating point literal')


def strings(g, rng):
    s, b = g.name('s'), g.name('b')
    n = rng.randint(1, 9)
    txt = ''.join(rng.choice(['a', 'Z', ' ', '%', '%d', '{', '.', '0x', '\\n', '\\t', '\\"', '\\\\', "'", '(', 'word']) for _ in range(rng.randint(0, 8)))
    g.globs.append('char *%s, **p%s, %s[%d]; unsigned char u%s[3];' % (s, s, b, n, b))
    g.add('char *%s, **p%s, %s[%d];' % (s, s, b, n), 'NAME("%s");' % b, 'declaration')
    g.add('unsigned char u%s[3];' % b, 'NAME("u%s");' % b, 'declaration')
    g.add('%s;' % s, 'SHOWS(%s);' % s, 'string')
    g.add('%s = "%s";' % (s, txt), 'SHOWS(%s = "%s");' % (s, txt), 'string')
    g.add('p%s = &%s;' % (s, s), 'SHOWP(p%s = &%s);' % (s, s), 'pointer')
    for e in (s, '*p' + s, 'strid(%s)' % s, '(char *)%s' % s, 'strid("%s")' % txt):
        g.add(e + ';', 'SHOWS(%s);' % e, 'string')
    for e in ('p' + s, 'ptr(%s)' % s, '(void *)%s' % s, 'u' + b, '(unsigned char *)%s' % s, '(int *)' + s, '&' + s):
        if 'ptr' in e or '*)' in e:
            g.add('%s == %s;' % (e, e), 'SHOWI(%s == %s);' % (e, e), 'pointer')
        else:
            g.add(e + ';', 'SHOWP(%s);' % e, 'pointer')
    g.add('"%s";' % txt, 'V(); printf("\\"%%s\\"\\n", "%s");' % txt, 'string literal')
    full = rng.random() < .5
    for i in range(n if full else rng.randint(0, n - 1)):
        e = "%s[%d] = '%s'" % (b, i, rng.choice('abcXYZ'))
        g.add(e + ';', 'SHOWI(%s);' % e, 'assignment')
    g.add(b + ';', 'V(); printf("%%p (\\"%%.*s\\")\\n", (void *)%s, %d, %s);' % (b, n, b), 'character array')
    f = 'printf("[%%.%ds]\\n", %s)' % (n, b)
    g.add(f + ';', 'SHOWI(%s);' % f, 'printf of the same expression')


def pointers(g, rng):
    n = g.name('q')
    t = rng.choice(['int', 'long', 'short', 'double', 'unsigned'])
    d = '%s %s[6], *p%s, **pp%s; void *v%s; int (*f%s)(int);' % (t, n, n, n, n, n)
    g.globs.append(d)
    for x in d.split('; '):
        g.add(x.rstrip(';') + ';', 'NAME("%s");' % {'v': 'v' + n, 'i': 'f' + n}.get(x[0] if x.startswith('void') or '(*' in x else '', 'pp' + n), 'declaration')
    k = rng.randint(0, 5)
    for e in (n, '&%s[0]' % n, 'p%s = %s' % (n, n), 'p%s = p%s + %d' % (n, n, k), 'p' + n, '&%s[%d]' % (n, k), 'pp%s = &p%s' % (n, n), '*pp' + n, 'v%s = p%s' % (n, n), 'v' + n, '(void *)p' + n,
              'ptr(%s)' % n, 'f' + n, '0 ? p%s : p%s' % (n, n), 'p%s = 0' % n, '*pp' + n, '(char **)0', '(void *)16', '(int *)0', '&' + n + '[5]'):
        g.add(e + ';', 'SHOWP((%s));' % e, 'pointer')
        if rng.random() < .3 and '=' not in e:
            f = 'printf("%%p\\n", (%s))' % e
            g.add('(%s) == (%s);' % (e, e), 'SHOWI((%s) == (%s));' % (e, e), 'pointer')
    for e in ('&id_int', 'f%s = &id_int' % n, 'f' + n, '*f%s == 0' % n if False else 'f%s == 0' % n, '&%s[4] == &%s[4]' % (n, n)):
        g.add(e + ';', ('SHOWI(%s);' if '==' in e else 'SHOWP(%s);') % e, 'pointer')


def comps(g, rng):
    while True:
        g.n += 1
        ty = Types(rng, pfx='S%d' % g.n, flt=True, fnptr=True, maxdepth=3)
        t = ty.compound()
        if printable(t):
            break
    for d in ty.decls:
        g.globs.append(d)
        g.add(d, 'NAME("%s");' % d.rstrip(';').split()[-1] if d.startswith('typedef') else '', 'compound type')
    n, p, a = g.name('st'), g.name('ps'), g.name('sa')
    d = '%s %s, *%s, %s[3];' % (t.spelled, n, p, a)
    g.globs.append(d)
    g.add(d, 'NAME("%s");' % a, 'declaration')
    g.add('%s;' % n, 'V(); %s printf("\\n");' % show_code(t, n), 'compound')
    for base in (n, a + '[1]'):
        for path, l in leaves(t, base):
            if rng.random() < .8:
                if l.kind == 'scalar' and l.name in BITS:
                    v = interesting(rng, l.name)
                    if not -(1 << 62) < v < 1 << 62:
                        v >>= 2
                    g.add('%s = %d;' % (path, v), 'SHOWI(%s = %d);' % (path, v), 'assignment')
                elif l.kind == 'scalar':
                    v = rng.choice(['1.5', '2.25', '0.125', '77.0', '0.1'])
                    g.add('%s = %s;' % (path, v), 'SHOWF(%s = %s);' % (path, v), 'assignment')
                elif l.kind == 'ptr' and l.name.strip() == 'char *':
                    g.add('%s = "%d\\n";' % (path, len(path)), 'SHOWS(%s = "%d\\n");' % (path, len(path)), 'assignment')
                elif l.kind == 'ptr':
                    g.add('%s = &evals;' % path, 'SHOWP(%s = (void *)&evals);' % path, 'assignment')
                else:
                    g.add('%s = &eval1;' % path, 'SHOWP(%s = &eval1);' % path, 'assignment')
            if len(g.lines) > 150:
                break
    g.add('%s = &%s[1];' % (p, a), 'SHOWP(%s = &%s[1]);' % (p, a), 'pointer')
    sums = ['sumb((unsigned char *)&%s, sizeof(%s))' % (n, n), 'sumb((unsigned char *)%s, sizeof(%s))' % (a, a)]
    before = len(g.lines)
    for s in sums:
        g.add(s + ';', None, 'checksum')
    for e in (n, '*' + p, a + '[1]', n, a + '[0]', '%s[-1]' % p, '*(%s + 0)' % a, '*&' + n):
        ref = {'*' + p: a + '[1]', '%s[-1]' % p: a + '[0]', '*(%s + 0)' % a: a + '[0]', '*&' + n: n}.get(e, e)
        g.add(e + ';', 'V(); %s printf("\\n");' % show_code(t, ref), 'compound')
    for path, l in nodes(t, n):
        if l.kind == 'compound' and path != n and rng.random() < .7:
            g.add(path + ';', 'V(); %s printf("\\n");' % show_code(l, path), 'member compound')
        elif l.kind == 'array' and rng.random() < .7:
            g.add(path + ';', 'V(); %s printf("\\n");' % show_code(l, path), 'member array')
    for s in sums:
        g.add(s + ';', None, 'checksum')
    return before


def one(c, i, seed, gc):
    rng = random.Random(seed)
    g = SessGen(rng)
    kind = min(4, i % 7)
    if kind == 0:
        for t in rng.sample(INTTYPES, 3):
            ints(g, rng, t)
    elif kind == 1:
        for t in ['float', 'double', 'long double']:
            floats(g, rng, t)
        for t in rng.sample(INTTYPES, 1):
            ints(g, rng, t)
    elif kind == 2:
        for _ in range(3):
            strings(g, rng)
    elif kind == 3:
        for _ in range(3):
            pointers(g, rng)
    else:
        comps(g, rng)
    d = K.scratch()
    home = 'int printf(const char *f, ...);\n' + FUNS
    K.write(d + '/.bic', home)
    codes = [l.code for l in g.lines]
    for l in g.lines:
        if l.code is None:
            l.code = 'V(); printf("?\\n");'
    ref, why = reference(g, FUNS, d, [f for f in REF_FLAGS if 'sign-change' not in f] + ['-fno-sanitize=implicit-integer-sign-change,unsigned-integer-overflow'])
    if ref is None:
        c.count('sessions_discarded')
        return c.inconclusive_case(why)
    r = observe(g, d, gc, home=d)
    if r.timeout:
        return c.inconclusive_case('timeout')
    files = {'session.txt': ''.join(l.text + '\n' for l in g.lines), 'home.bic': home, 'observed.txt': r.out, 'stderr.txt': r.err[:20000]}
    # Printing leaves the objects alone: the checksums before and after agree.
    out, err, _, _ = split(r, len(g.lines))
    sums = {}
    for k, l in enumerate(g.lines):
        if codes[k] is None and k < len(out):
            ref[k] = ('', out[k])
            if sums.setdefault(l.text, out[k]) != out[k] and out[k].strip().isdigit():
                return c.violation('printing changed an object: %s: %r, then %r' % (l.text, sums[l.text], out[k]), files)
            c.count('checksums of printed objects')
        if l.kind == 'ignored' and k < len(out):
            ref[k] = ('', out[k])
    why = compare(c, g, r, ref)
    for k, l in enumerate(g.lines):
        if not why and k < len(out) and out[k].startswith('{\n') and '"' not in out[k]:
            c.count('printed compounds')
            bad = misplaced(out[k])
            if bad:
                why = 'line %r: the member %r is not indented as its siblings and more than its parent, in %r' % (l.text, bad, out[k][:600])
    for l in g.lines:
        if l.kind not in ('declaration', 'assignment', 'compound type', 'ignored', 'checksum'):
            c.case(str(seed) + l.text if kind in (0, 1, 4) else l.text)
            c.count('printed: ' + l.kind)
    c.sample('\n'.join(l.text for l in g.lines)[:700])
    if why:
        c.violation('a session: ' + why, files)


def misplaced(text):
    """The first member of a printed compound that isn't indented like its siblings and more than its parent."""
    stack, last = [], -1
    for l in text.split('\n'):
        m = re.match(r'( *)\.\w+ = ', l)
        if m:
            n = len(m.group(1))
            if not stack:
                return None
            if stack[-1][1] is None and n > stack[-1][0]:
                stack[-1][1] = n
            if n != stack[-1][1]:
                return l
            last = n
        if l.endswith('{'):
            stack.append([last, None])
        elif l.strip() == '}' and stack:
            last = stack.pop()[0]
    return None


def run(c):
    c.rule = ('Sessions that print objects of every integer and floating point type with boundary values (as variables, members, elements, through pointers, calls, casts and operators), strings and '
              'character arrays, pointers of all kinds and random nested compounds; the text is compared with what a compiled C program prints for the type and value that C gives the expression, with '
              'printf called from the session for the same expression, and checksums of the objects are compared around the printing. Non-trivial: a line printing a value.')
    n = 70 if not K.THOROUGH else 900
    seeds = [c.rng.random() for _ in range(n)]
    gcs = ['31', None, '200:%d']

    def f(i):
        if len(c.violations) < 4:
            g = gcs[i % 3]
            one(c, i, seeds[i], g % (c.seed * 100 + i) if g and '%d' in g else g)
    K.pmap(f, range(n))
    return 300
