"""A REPL session is the program its lines make up."""
import random, re
from lib import common as K
from lib.session import *
from checks import c21


def observe(g, d, gc=None, stdin=None, timeout=120, home=None):
    text = stdin if stdin is not None else ''.join(l.text + '\n' for l in g.lines)
    return K.bic(['-I', d], stdin=text, rl=True, cwd=d, home=home or d, gc=gc, timeout=timeout)


def compare(c, g, r, ref, skip=()):
    """None, or what a line did that it shouldn't have."""
    why = r.crashed()
    out, err, o0, e0 = split(r, len(g.lines))
    na, nb = Norm(), Norm()
    for i, l in enumerate(g.lines):
        if i >= len(out):
            return why or 'the session ended at line %d: %s (exit %d): %s' % (i, g.lines[i - 1].text, r.rc, r.err[-300:])
        side, val = ref[i]
        exp = side + (val if val is not None else '')
        if na(out[i]) != nb(exp):
            return 'line %d: %s: expected %r, observed %r %s' % (i + 1, l.text, exp[:300], out[i][:300], err[i][:300] if i < len(err) else '')
        if l.err and not err[i].startswith('Parser Error: ') or not l.err and err[i]:
            return 'line %d: %s: diagnostics: %r' % (i + 1, l.text, err[i][:300])
    if why or r.rc or len(out) != len(g.lines):
        return why or 'exit status %d after %d of %d lines' % (r.rc, len(out), len(g.lines))
    if o0 or e0:
        return 'output before the first line: %r %r' % (o0, e0)
    return None


def script(g, d):
    """The same lines as a script with code at the top level."""
    t = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n' + PRELUDE + '\n' + '\n'.join(l.text for l in g.lines if not l.err) + '\nfflush(stdout);\n'
    K.write(d + '/script.c', t)
    return t


def relay(r, text):
    """The line with other white space and comments."""
    out, prev = '', ''
    style = r.choice(['minimal', 'spaces', 'comments', 'comments'])
    for t in c21.tokens(text):
        s = '' if r.random() < .6 else c21.blank(r, style).replace('\n', ' ') if style != 'minimal' else ''
        if '//' in s or len(s) > 2000:
            s = '/* // */'
        if prev == '/' and s[:1] == '/':
            s = ' ' + s
        out += (s or ' ' * (not prev or c21.apart(prev, t)) if s or not prev or c21.apart(prev, t) else '') + t
        prev = t
    return out.strip(' ') + r.choice(['', ' // "', '/**/', ' /* ; */', ' //', ' // */ 3;'] if style == 'comments' else ['', ' '])


def one(c, seed, n, gc):
    rng = random.Random(seed)
    g = SessGen(rng).make(n)
    if rng.random() < .4:
        for l in g.lines:
            if not l.err and l.kind != 'include' and rng.random() < .5:
                l.text = relay(rng, l.text)
                c.count('lines laid out anew')
    d = K.scratch()
    for h, t in g.headers:
        K.write('%s/%s' % (d, h), t)
    K.write(d + '/.bic', 'int printf(const char *f, ...);\n' + PRELUDE)
    ref, why = reference(g, PRELUDE, d)
    if ref is None:
        c.count('sessions_discarded')
        c.inconclusive_case(why)
        return
    r = observe(g, d, gc)
    if r.timeout:
        return c.inconclusive_case('timeout')
    why = compare(c, g, r, ref)
    files = {'session.txt': ''.join(l.text + '\n' for l in g.lines), 'home.bic': 'int printf(const char *f, ...);\n' + PRELUDE, 'observed.txt': r.out, 'stderr.txt': r.err[:20000],
             **dict(g.headers), 'replay.txt': 'HOME holds home.bic as .bic and the headers; BIC_VERIF_RL=1 bic -I . < session.txt, with collections %s\n' % gc}
    c.case('\n'.join(l.text for l in g.lines))
    for l in g.lines:
        c.count('lines: ' + l.kind)
    c.sample('\n'.join(l.text for l in g.lines)[:900])
    if why:
        return c.violation('a session: ' + why, files)
    # The same lines as a script make the same output, without the values.
    t = script(g, d)
    r = K.bic(['-I', '.', '-s', 'script.c'], cwd=d, gc=gc, timeout=120)
    if r.timeout:
        return c.inconclusive_case('timeout')
    exp = ''.join(s for s, v in ref)
    na, nb = Norm(), Norm()
    if r.crashed() or r.rc or na(r.out) != nb(exp):
        return c.violation('the lines as a script: %s; exit %d: expected %r, observed %r; %s' % (r.crashed() or 'output differs from that of the session', r.rc, exp[-300:], r.out[-300:], r.err[:300]),
                           {**files, 'script.c': t, 'script-output.txt': r.out})
    c.count('sessions_also_run_as_scripts')


def terminal(c):
    """The real readline instead of the stand-in."""
    lines = ['int a = 3;', 'a + 4;', 'a = a + 1;', 'int *p = &a;', '*p;', 'a +;', 'printf("x%d\\n", *p);', 'struct s { int k; } z;', 'z.k = 9;', 'z.k + a;', 'a++;', 'a;']
    exp = ['a', '7', '4', 'p', '4', 'x4', '3', 'z', '9', '13', '4', '5']
    d = K.scratch()
    K.write(d + '/.bic', 'int printf(const char *f, ...);\n')
    r = K.bic([], stdin='\n'.join(lines) + '\n', cwd=d, home=d)
    got = [l for l in r.out.split('\n') if l and not l.startswith('BIC>')]
    c.case('terminal')
    if r.crashed() or r.rc or got != exp or r.err.count('Parser Error') != 1:
        c.violation('a session read by readline: expected %r, observed %r; %s' % (exp, r.out, r.err[:500]), {'session.txt': '\n'.join(lines)})


def history(c, seed):
    """Lines recalled with keys of the real readline, as they are or changed."""
    rng = random.Random(seed)
    d = K.scratch()
    K.write(d + '/.bic', 'int printf(const char *f, ...);\n')
    v = {'a': rng.randint(0, 99), 'bb': rng.randint(0, 99)}
    hist = ['int %s = %d;' % x for x in v.items()]
    keys, exp = list(hist), list(v)

    def enter(line):
        hist.append(line)
        m = re.match(r'(\w+) = (.*);$', line)
        if line.startswith('printf'):
            n = eval(line[line.index(',') + 1:-2], {}, v)
            exp.extend(['<%d>' % n, str(len('<%d>\n' % n))])
        elif m:
            v[m.group(1)] = eval(m.group(2), {}, v)
            exp.append(str(v[m.group(1)]))
        else:
            exp.append(str(eval(line[:-1], {}, v)))
    for _ in range(25):
        x, y, n = rng.choice('a bb'.split()), rng.choice('a bb'.split()), rng.randint(1, 50)
        k = rng.random()
        if k < .45 or len(hist) < 4:
            l = rng.choice(['%s = %s + %d;' % (x, y, n), '%s = %d;' % (x, n), '%s + %s * %d;' % (x, y, n), 'printf("<%%d>\\n", %s - %d);' % (x, n)])
            keys.append(l)
            enter(l)
            continue
        i = rng.randint(1, min(len(hist) - 2, 12))
        l = hist[-i]
        pre = '\x10' * i
        if rng.random() < .3:
            pre = '\x10' * (i + 1) + '\x0e'
        c.count('lines recalled from the history')
        if rng.random() < .4 and not l.startswith('printf'):
            pre += '\x7f + %d;' % n
            l = l[:-1] + ' + %d;' % n
        keys.append(pre)
        enter(l)
    for x in v:
        keys.append(x + ';')
        enter(x + ';')
    text = '\n'.join(keys) + '\n'
    r = K.bic([], stdin=text, cwd=d, home=d)
    got = [l for l in r.out.split('\n') if l and not l.startswith('BIC>')]
    c.case(text)
    if r.timeout:
        return c.inconclusive_case('timeout')
    if r.crashed() or r.rc or got != exp or r.err:
        c.violation('lines recalled from the history: lines %r: expected %r, observed %r; %s' % (hist, exp, r.out, r.err[:500]), {'session.txt': text})


def several(c, seed):
    """A line with several statements is either refused or evaluated, as a whole."""
    rng = random.Random(seed)
    d = K.scratch()
    K.write(d + '/.bic', 'int printf(const char *f, ...);\nint n = 7;\n')
    ss = [rng.choice([('printf("A%d\\n");' % i, 'A%d\n' % i), ('n = n + 1, printf("B%d\\n");' % i, 'B%d\n' % i), ('int v%d = printf("C%d\\n");' % (i, i), 'C%d\n' % i)]) for i in range(rng.randint(2, 4))]
    line = rng.choice(['', ' ']).join(s for s, e in ss)
    r = K.bic([], stdin='n;\n%s\nn;\n' % line, rl=True, cwd=d, home=d)
    c.case(line)
    c.count('lines with several statements')
    traces = re.findall(r'[ABC]\d\n', r.out)
    if r.timeout:
        return c.inconclusive_case('timeout')
    if r.crashed() or traces not in ([], [e for s, e in ss]) or not traces and not re.search(r'[^\x02L\n]', r.err):
        c.violation('the line %s: %s; exit %d, prints %r %r' % (line, r.crashed() or 'neither refused nor evaluated', r.rc, r.out, r.err[:300]), {'session.txt': line})


def longlines(c, seed):
    """Lines longer than buffers hold."""
    rng = random.Random(seed)
    d = K.scratch()
    K.write(d + '/.bic', 'int printf(const char *f, ...);\nunsigned long strlen(const char *s);\nint n = 7;\n')
    lines, want = [], []
    for i in range(rng.randint(3, 6)):
        n = rng.choice([130, 260, 520, 1030, 2050, 4100, 5000])
        k = rng.randint(0, 5)
        if k == 0:
            v = [rng.randint(0, 999) for _ in range(min(n, 2500))]
            lines.append(' + '.join(map(str, v)) + ';')
            want.append('%d\n' % sum(v))
        elif k == 1:
            lines.append('printf("%s|\\n");' % (rng.choice('xyz ') * n * rng.choice([1, 1, 14])))
            s = lines[-1][8:-5] + '\n'
            want.append('%s%d\n' % (s, len(s)))
        elif k == 2:
            m = min(n, 400)
            lines.append('int %s;' % ', '.join('v%d_%d = %d' % (i, j, j) for j in range(m)))
            lines.append('v%d_%d + v%d_%d;' % (i, m - 1, i, m // 2))
            want += [None, '%d\n' % (m - 1 + m // 2)]
        elif k == 3:
            x = 'a%d' % i + 'b' * n
            lines += ['int %s = %d;' % (x, i), 'n = %s * 3;' % x]
            want += [None, '%d\n' % (i * 3)]
        elif k == 4:
            lines.append(' ' * n + '5 -' + ' ' * n + '3' + ' /* %s */' % ('c' * n) + ';')
            want.append('2\n')
        else:
            s = ''.join(rng.choice('abcdefg') for _ in range(n))
            lines.append('strlen("%s");' % s)
            want.append('%d\n' % n)
    lines.append('n = 12345;')
    want.append('12345\n')
    r = K.bic([], stdin=''.join(l + '\n' for l in lines), rl=True, cwd=d, home=d, gc=rng.choice([None, '997']), timeout=120)
    c.case(lines[0])
    c.count('lines longer than 1000 characters', sum(len(l) > 1000 for l in lines))
    if r.timeout:
        return c.inconclusive_case('timeout')
    out, err, o0, e0 = split(r, len(lines))
    for j, l in enumerate(lines):
        if j >= len(out) or want[j] is not None and out[j] != want[j] or err[j] or r.rc or r.crashed():
            return c.violation('a line of %d characters, %s...: expected %r, observed %r %r; exit %d %s' % (len(l), l[:60].strip(), (want[j] or '')[:100], (out[j:j + 1] or ['no output'])[0][:100], (err[j:j + 1] or [r.err])[0][:300], r.rc, r.crashed() or ''),
                               {'session.txt': ''.join(l + '\n' for l in lines), 'stderr.txt': r.err[:20000]})


def run(c):
    c.rule = ('Random sessions of declarations (ten integer types, floating point, pointers, arrays, strings, compounds, enumerations, typedefs), expression lines with and without effects, '
              'calls that trace themselves, #include lines, and lines with a syntax error; what each line prints and traces is compared with a C program made up of the same lines, and with bic running '
              'them as a script. Non-trivial: the text of the session is new.')
    n = 40 if not K.THOROUGH else 500
    seeds = [c.rng.random() for _ in range(n)]
    gcs = ['29', None, '300:%d']
    terminal(c)

    def f(i):
        if len(c.violations) < 4:
            g = gcs[i % 3]
            one(c, seeds[i], 45 if i % 10 else 120, g % (c.seed * 100 + i) if g and '%d' in g else g)
    K.pmap(f, range(n))
    K.pmap(lambda x: history(c, x), [c.rng.random() for _ in range(12 if not K.THOROUGH else 200)])
    K.pmap(lambda x: longlines(c, x), [c.rng.random() for _ in range(16 if not K.THOROUGH else 200)])
    K.pmap(lambda x: several(c, x), [c.rng.random() for _ in range(12 if not K.THOROUGH else 100)])
    return 20
