"""The inspector tells the truth about an identifier."""
import random
from lib import common as K
from lib.exprgen import interesting, INTTYPES
from lib.scriptrepl import SR, DESC, check
from lib.session import SessGen, Norm, split, REF_FLAGS, reference
from checks.c14 import observe, compare

KINDS = ['inspect'] * 12 + ['value', 'assign', 'assign', 'assign', 'call', 'nested', 'error', 'complete']
FLT = ['float', 'double', 'long double']
PRE = '''struct zt { int a; short b; struct zt *n; };
union zu { int a; char b[6]; };
int zfun(int a) { return a + 1; }
long zfun2() { return 3; }
typedef int *zp;
typedef struct { int b; } zs;
typedef struct zt zts;
typedef int (*zf)(int);
int counter;
int bump() { counter++; return counter; }
'''


class Obj:
    def __init__(self, name, decl, desc, show, mods=(), value=True):
        self.name, self.decl, self.desc, self.show, self.mods, self.value = name, decl, desc, show, list(mods), value
        self.file = self.line = None


def obj(rng, n):
    """A declaration, how it's described, and lines that change it."""
    k = rng.randint(0, 17)
    t = rng.choice(INTTYPES)
    spell = {'unsigned int': rng.choice(['unsigned', 'unsigned int']), 'short': rng.choice(['short', 'short int']), 'unsigned long': rng.choice(['unsigned long', 'long unsigned int']),
             'char': rng.choice(['char', 'signed char']), 'long long': rng.choice(['long long', 'long long int'])}.get(t, t)
    q = rng.choice(['', '', '', 'const ', 'volatile ', 'static ']) if k < 5 else rng.choice(['', '', 'static '])
    v = rng.randint(0, 100)
    mods = ['%s = %d' % (n, rng.randint(0, 120)), n + '++', '%s += 3' % n, '--' + n]
    if k < 4:
        init = rng.choice(['', ' = %d' % v])
        return Obj(n, '%s%s %s%s;' % (q, spell, n, init), DESC[t], 'I', [] if 'const' in q else mods)
    if k == 4:
        f = rng.choice(FLT)
        return Obj(n, '%s%s %s = %s;' % (q, f, n, rng.choice(['1.5', '0.25', '100.125'])), DESC[f], 'F', [] if 'const' in q else ['%s = %s' % (n, rng.choice(['2.5', '7.0', '3']))])
    if k == 5:
        s = rng.randint(1, 3)
        b = rng.choice(INTTYPES[1:] + FLT + ['void'])
        return Obj(n, '%s%s %s%s;' % (q, b, '*' * s, n), 'pointer to a ' * s + DESC[b], 'P', ['%s = 0' % n, '%s = (void *)&counter' % n if False else '%s = 0' % n])
    if k == 6:
        return Obj(n, '%schar *%s%s;' % (q, n, rng.choice(['', ' = "ab c"'])), 'pointer to a signed char', 'S', ['%s = "%s"' % (n, x) for x in ('new', '', 'q%d\\n')])
    if k == 7:
        b = rng.choice(INTTYPES[1:] + FLT)
        return Obj(n, '%s%s %s[%d];' % (q, b, n, rng.randint(1, 9)), 'pointer to a ' + DESC[b], 'P', ['%s[0] = 3' % n])
    if k == 8:
        m = rng.randint(2, 9)
        return Obj(n, '%schar %s[%d];' % (q, n, m), 'pointer to a signed char', ('B', m), ["%s[%d] = 'x'" % (n, i) for i in range(m - 1)] + ["%s[%d] = 'z'" % (n, m - 1)])
    if k == 9:
        b = rng.choice(INTTYPES)
        return Obj(n, '%s%s *%s[%d];' % (q, b, n, rng.randint(1, 4)), 'pointer to a pointer to a ' + DESC[b], 'P', ['%s[0] = 0' % n])
    if k == 10:
        return Obj(n, '%sstruct zt %s;' % (q, n), 'Live Compound', None, ['%s.a = 4' % n])
    if k == 11:
        s = rng.choice(['struct zt', 'union zu'])
        st = rng.randint(1, 2)
        return Obj(n, '%s%s %s%s;' % (q, s, '*' * st, n), 'pointer to a ' * st + s.split()[1], 'P', ['%s = 0' % n])
    if k == 12:
        s = rng.choice(['struct zt', 'union zu'])
        return Obj(n, '%s%s %s[%d];' % (q, s, n, rng.randint(1, 4)), 'pointer to a ' + s.split()[1], 'P', ['%s[0].a = 4' % n])
    if k == 13:
        return Obj(n, 'int (*%s)(int)%s;' % (n, rng.choice(['', ' = &zfun'])), 'pointer to a Function', 'P', ['%s = &zfun' % n, '%s = 0' % n])
    if k == 16:
        # Compounds without a tag.
        a = rng.choice(['struct { int a; long b; }', 'union { char c[3]; short s; }', 'struct { struct zt *p; }'])
        m, st = rng.choice([('%s', 1), ('%s', 1), ('*%s', 2), ('%s[3]', 0)])
        return Obj(n, '%s%s %s%s;' % (q, a, '*' * max(st, 0), m % n if st != 2 else n), 'pointer to a ' * max(st, 1) + 'compound', 'P', ['%s = 0' % n] if st else [])
    if k == 17:
        b, ds = rng.choice([('zp', 'pointer to a signed integer'), ('zs *', 'pointer to a compound'), ('zts *', 'pointer to a zt'), ('zp *', 'pointer to a pointer to a signed integer'), ('zf', 'pointer to a Function')])
        return Obj(n, '%s%s %s;' % (q, b, n), ds, 'P', ['%s = 0' % n])
    if k == 14:
        return Obj(n, 'enum { %s = %d };' % (n, v), 'Constant integer', None)
    return Obj(n, 'enum { M%s, N%s } %s;' % (n, n, n), 'unsigned integer', 'I', ['%s = N%s' % (n, n)])


def extern(rng):
    """Variables of the C library."""
    out = []
    for n, t, show, mods in (
            ('argp_err_exit_status', 'int', 'I', ['argp_err_exit_status = 4', 'argp_err_exit_status++']), ('error_one_per_line', 'int', 'I', ['error_one_per_line = 5']),
            ('error_message_count', 'unsigned int', 'I', ['error_message_count += 2']), ('optarg', 'char *', 'S', ['optarg = "arg"', 'optarg = 0']),
            ('timezone', 'long', 'I', ['timezone = 3600', '--timezone']), ('daylight', 'int', 'I', ['daylight = 1']),
            ('getdate_err', 'int', 'I', ['getdate_err = 7']), ('re_syntax_options', 'unsigned long', 'I', ['re_syntax_options = 3'])):
        out.append(Obj(n, 'extern %s%s%s;' % (t, ' ' * (t[-1] != '*'), n), 'pointer to a signed char' if t[-1] == '*' else DESC[t], show, mods))
    rng.shuffle(out)
    return out


def inspect_code(o, kind=None):
    n = o.name
    out = 'V(); printf("%s is a %s.\\n");' % (n, o.desc)
    if o.show is None:
        return out
    out += ' printf("value of %s is ");' % n
    if o.show == 'I':
        out += ' { __typeof__(%s + 0) v_ = %s; if ((__typeof__(v_))-1 < 0) printf("%%lld\\n", (long long)v_); else printf("%%llu\\n", (unsigned long long)v_); }' % (n, n)
    elif o.show == 'F':
        out += ' printf("%%Lf\\n", (long double)%s);' % n
    elif o.show == 'S':
        out += ' if (%s) printf("%%p (\\"%%s\\")\\n", (void *)%s, %s); else printf("(nil)\\n");' % (n, n, n)
    elif o.show[0] == 'B':
        out += ' printf("%%p (\\"%%.*s\\")\\n", (void *)%s, %d, %s);' % (n, o.show[1], n)
    else:
        out += ' printf("%%p\\n", (void *)%s);' % n
    return out + ' printf("sizeof(%s) = %%d bytes.\\n", (int)sizeof(%s)); printf("%s was declared at: %s:%d\\n");' % (n, n, n, o.file, o.line)


def layout(rng, objs, first, name, head=''):
    """The text of a file with the declarations, which get their place."""
    lines = head.split('\n')
    for o in objs:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            lines.append(rng.choice(['', '/* a', '// int x;', '    ', '#define ZM%d %d' % (rng.randint(0, 99999), 3), '#if 0\nint nothere;\n#endif', '/* two\nlines */', 'int pad%d\n=\n3;' % rng.randint(0, 1 << 30)]))
            if lines[-1] == '/* a':
                lines[-1] = '/* a */'
            lines[-1:] = lines[-1].split('\n')
        o.file, o.line = name, len(lines) + 1
        lines.append(rng.choice(['', '  ', '\t']) + o.decl)
    return '\n'.join(lines) + '\n'


def session(c, seed, gc):
    rng = random.Random(seed)
    d = K.scratch()
    names = ['z%s%d' % (rng.choice(['a', 'var', 'if_', 'x_y']), i) for i in range(24)]
    objs = [obj(rng, n) for n in names]
    for o in extern(rng)[:rng.randint(1, 9)]:
        objs[rng.randrange(24)] = o
    names = [o.name for o in objs]
    home, hdr, repl = objs[:8], objs[8:16], objs[16:]
    files = {}
    files['.bic'] = layout(rng, home, 1, d + '/.bic', 'int printf(const char *f, ...);\n' + PRE)
    files['zhdr.h'] = layout(rng, hdr, 1, d + '/zhdr.h', '#ifndef ZHDR\n#define ZHDR')+ '#endif\n'
    for n, t in files.items():
        K.write(d + '/' + n, t)
    g = SessGen(rng)
    g.globs.append(PRE)
    for f, file, line in (('zfun', d + '/.bic', 4), ('zfun2', d + '/.bic', 5)):
        o = Obj(f, '', 'Function', None)
        o.file, o.line = file, line
        objs.append(o)
    vis = list(home) + objs[-2:]
    todo = list(repl)
    number = 1
    included = False

    def add(*a):
        nonlocal number
        g.add(*a)
        number += 1
    for o in home + hdr + repl:
        dd = o.decl
        g.globs.append(dd.replace('const ', '').replace('static ', ''))
    while len(g.lines) < 70:
        k = rng.randint(0, 11)
        if k == 0 and not included:
            g.add('#include <zhdr.h>', '', 'include')
            number += 0
            included = True
            vis += hdr
        elif k <= 2 and todo:
            o = todo.pop(0)
            o.file, o.line = '<REPL>', 0
            add(o.decl, None, 'declaration')
            nm = o.name
            g.lines[-1].code = '' if o.decl.startswith('enum {') and not o.decl.rstrip(';').endswith(nm) else 'NAME("%s");' % nm
            vis.append(o)
        elif k <= 4:
            o = rng.choice(vis)
            if o.mods:
                m = rng.choice(o.mods)
                show = {'I': 'SHOWI(%s);', 'F': 'SHOWF(%s);', 'S': 'SHOWS(%s);', 'P': 'SHOWP(%s);'}.get(o.show if isinstance(o.show, str) else 'I', 'SHOWI(%s);')
                if '[0]' in m or '.a' in m or "= '" in m:
                    show = 'SHOWI(%s);' if 'double' not in o.decl and 'float' not in o.decl else 'SHOWF(%s);'
                    if '*' in o.decl:
                        show = 'SHOWP(%s);' if not o.decl.replace('static ', '').startswith('char *' + o.name + '[') and 'char *' not in o.decl else 'SHOWS(%s);'
                        if 'unsigned char' in o.decl:
                            show = 'SHOWP(%s);'
                add(m + ';', show % m, 'change')
        elif k == 5:
            add('bump();', 'SHOWI(bump());', 'effects')
        elif k == 6:
            n = rng.choice(['nosuch', 'zq', 'z', names[0] + 'x', 'struct_'] + ([o.name for o in todo]) + ([] if included else [o.name for o in hdr]))
            add('?' + n, 'V(); printf("Object not found\\n");', 'inspection of an unknown name')
        else:
            o = rng.choice(vis)
            code = inspect_code(o)
            if o.desc == 'Function':
                code += ' printf("%s was declared at: %s:%d\\n");' % (o.name, o.file, o.line)
            add(rng.choice(['?%s', '?%s', '? %s', '?%s ']) % o.name, code, 'inspection: ' + ('repl' if o.file == '<REPL>' else 'header' if o.file.endswith('.h') else 'startup file'))
    # Only a definition without an initialiser can be repeated outside main.
    init = []
    globs = []
    for o in home + hdr + repl:
        dd = o.decl
        for x in ('const ', 'static '):
            dd = dd.replace(x, '')
        globs.append(dd)
    g.globs = [PRE] + globs
    ref, why = reference_at(g, d, repl)
    if ref is None:
        c.count('sessions_discarded')
        return c.inconclusive_case(why)
    r = observe(g, d, gc)
    if r.timeout:
        return c.inconclusive_case('timeout')
    # The number of a line of the session isn't compared.
    import re
    ref = [(a, v and re.sub(r'<REPL>:\d+', '<REPL>:N', v)) for a, v in ref]
    r.out = re.sub(r'to a Compound Decl\w+', 'to a compound', re.sub(r'<REPL>:\d+', '<REPL>:N', r.out))
    why = compare(c, g, r, ref)
    fs = {'session.txt': ''.join(l.text + '\n' for l in g.lines), 'home.bic': files['.bic'], 'zhdr.h': files['zhdr.h'], 'observed.txt': r.out, 'stderr.txt': r.err[:20000]}
    c.case('\n'.join(l.text for l in g.lines))
    for l in g.lines:
        c.count('lines: ' + l.kind)
    if why:
        c.violation('a session: ' + why, fs)


def reference_at(g, d, repl):
    """Objects of the session get their initial value where they're declared, in
    the compiled program that's before any line can use them."""
    return reference(g, '', d, [f for f in REF_FLAGS])


def arguments(c, seed):
    """The argc and argv of a script, which only those of a main are declared in a file."""
    rng = random.Random(seed)
    d = K.scratch()
    top = rng.random() < .6
    args = ['x' * rng.randint(0, 5) for _ in range(rng.randint(0, 6))]
    n = len(args) + 1
    K.write(d + '/s.c', '<REPL>;\n' if top and rng.random() < .5 else 'int v;\nv = 3;\nfor (int i = 0; i < 1; i++) { <REPL>; }\n' if top else 'int v;\nint main(int argc,\n char **argv)\n{ <REPL>; return 0; }\n')
    r = K.bic(['-s', 's.c'] + args, stdin='?argc\n?argv\nargc = argc + 1;\n?argc\n', rl=True, cwd=d, home=d)
    import re
    got = re.sub(r'0x[0-9a-f]+', 'ADDR', r.out).split('\x02L\n')[1:]
    at = lambda x, l: '' if top else '%s was declared at: s.c:%d\n' % (x, l)
    ci = 'argc is a signed integer.\nvalue of argc is %d\nsizeof(argc) = 4 bytes.\n' + at('argc', 2)
    exp = [ci % n, 'argv is a pointer to a pointer to a signed char.\nvalue of argv is ADDR\nsizeof(argv) = %d bytes.\n' % (8 * (n + 1) if top else 8) + at('argv', 3), '%d\n' % (n + 1), ci % (n + 1)]
    c.case('arguments %s %r' % (top, args))
    c.count('inspections of the arguments', 3)
    if r.timeout:
        return c.inconclusive_case('timeout')
    if got and got[-1].endswith('\x02E\n'):
        got[-1] = got[-1][:-3]
    if r.crashed() or r.rc or got != exp:
        c.violation('argc and argv of a script: %s; exit %d: expected %r, observed %r; %s' % (r.crashed(), r.rc, exp, got, r.err[:300]), {'s.c': open(d + '/s.c').read()})


def run(c):
    c.rule = ('Identifiers of every kind (variables of all scalar types, pointers of several levels, strings, arrays, compounds, pointers to compounds and functions, enumerators, functions) declared in the '
              'startup file, in headers, on lines of the session, and in scopes of scripts stopped at <REPL>, inspected between changes of their value; kind, type, value, size, file and line are compared '
              'with what a compiled program and the generator know. Non-trivial: a new session or script.')
    n = 40 if not K.THOROUGH else 500
    seeds = [c.rng.random() for _ in range(2 * n)]
    gcs = ['37', None, '250:%d']

    def f(i):
        if len(c.violations) >= 4:
            return
        gc = gcs[i % 3]
        gc = gc % (c.seed * 100 + i) if gc and '%d' in gc else gc
        if i < n:
            session(c, seeds[i], gc)
        else:
            check(c, SR(random.Random(seeds[i]), KINDS).make(top=i % 4 == 3), K.scratch(), gc)
    K.pmap(f, range(2 * n))
    K.pmap(lambda x: arguments(c, x), [c.rng.random() for _ in range(12)])
    return 40
