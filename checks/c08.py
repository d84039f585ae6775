"""External calls and variables: what compiled code is given, and gives back."""
from lib import common as K
from lib.diff import Case, Config, run_batch, differential
from lib.exprgen import *

FLT = ['float', 'double', 'long double']
PTRS = ['char *', 'void *', 'int *']


def fmt(t):
    if t in FLT:
        return '%Lf', '(long double)'
    if t in PTRS:
        return ('%s', '') if t == 'char *' else ('%ld', '(long)') if t == 'void *' else ('%d', '*')
    return ('%ld', '(long)') if BITS[t][1] else ('%lu', '(unsigned long)')


def spell(rng, t):
    alts = {'unsigned int': ['unsigned', 'unsigned int'], 'long': ['long', 'long int'],
            'unsigned long': ['unsigned long', 'size_t'], 'unsigned char': ['unsigned char', 'uint8_t'],
            'short': ['short', 'int16_t'], 'unsigned short': ['unsigned short', 'uint16_t']}
    return rng.choice(alts.get(t, [t]))


def literal(t, v):
    if t in FLT:
        return str(v)
    if v == -(1 << 63):
        return '-9223372036854775807 - 1'
    if v >= 1 << 63:
        return '%d + %d' % (v >> 1, v - (v >> 1))
    return str(v)


def value(rng, t):
    if t in FLT:
        return rng.choice([0.5, -1.25, 3.0, 1024.75, rng.randint(-9999, 9999) / 8.0])
    return interesting(rng, t)


def clit(t, v):
    """For the compiled library: any value."""
    if t in FLT:
        return repr(v)
    if v == -(1 << 63):
        return '(-9223372036854775807L - 1)'
    if v >= 1 << 63:
        return '%dUL' % v
    return '%dL' % v


def make(rng, n):
    lib, hdr, body, globs = [], [], [], []
    fn = 'x%d' % n
    ps = [rng.choice(INTTYPES + FLT + PTRS) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 20]))]
    ret = rng.choice(INTTYPES + FLT + ['char *', 'int *', 'void'])
    sp = [spell(rng, p) for p in ps]
    rsp = spell(rng, ret)
    decl = '%s %s(%s)' % (rsp, fn, ', '.join('%s%s' % (s, '' if rng.random() < .3 else
                          (' ' if s[-1] != '*' else '') + 'p%d' % i) for i, s in enumerate(sp)) or 'void')
    hdr.append('extern ' * (rng.random() < .5) + decl + ';')
    log = 'printf("%s #%%d:%s\\n", ++%s_calls%s);' % (
        fn, ''.join(' ' + fmt(p)[0] for p in ps), fn,
        ''.join(', %sp%d' % (fmt(p)[1], i) for i, p in enumerate(ps)))
    rets = [value(rng, ret) if ret in BITS or ret in FLT else 0 for _ in range(4)]
    if ret == 'void':
        tail = ''
    elif ret == 'char *':
        tail = 'return %s_calls %% 2 ? "odd" : "even";' % fn
    elif ret == 'int *':
        tail = 'static int cell[4] = {7, 8, 9, 10}; return &cell[%s_calls %% 4];' % fn
    else:
        tail = 'static %s rv[4] = {%s}; return rv[%s_calls %% 4];' % (rsp, ', '.join(clit(ret, v) for v in rets), fn)
    lib.append('int %s_calls;\n%s %s(%s) { %s %s }' % (
        fn, rsp, fn, ', '.join('%s p%d' % (s, i) for i, s in enumerate(sp)) or 'void', log, tail))
    hdr.append('extern int %s_calls;' % fn)
    # A variadic one, the parameters before the ellipsis have their own types.
    vps = [rng.choice(INTTYPES + FLT) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
    lib.append('#include <stdarg.h>\nint %s_v(%sconst char *f, ...) { va_list ap; int n; printf("v%s ", %s0); va_start(ap, f); n = vprintf(f, ap); va_end(ap); return n; }' % (
        fn, ''.join('%s p%d, ' % (p, i) for i, p in enumerate(vps)), ''.join(' ' + fmt(p)[0] for p in vps),
        ''.join('%sp%d, ' % (fmt(p)[1], i) for i, p in enumerate(vps))))
    lib[-1] = lib[-1].replace(', %s0)' % '', ', 0)')
    hdr.append('int %s_v(%sconst char *f, ...);' % (fn, ''.join('%s, ' % p for p in vps)))
    # An external variable.
    vt = rng.choice(INTTYPES + FLT + ['char *'])
    vv = value(rng, vt) if vt != 'char *' else 0
    hdr.append('extern %s %s_var; extern int %s_arr[4]; void %s_look(void);' % (vt, fn, fn, fn))
    f, cst = fmt(vt)
    lib.append('%s %s_var = %s; int %s_arr[4] = {4, 5, 6, 7}; void %s_look(void) { printf("%s %%d %%d\\n", %s%s_var, %s_arr[0], %s_arr[3]); }' % (
        vt, fn, '"lib"' if vt == 'char *' else clit(vt, vv), fn, fn, f, cst, fn, fn, fn))
    # Calls.
    body.append('int one; int i; one = 1; int cell; cell = 77; char buf[8]; buf[0] = 104; buf[1] = 105; buf[2] = 0; %s_calls = 0;' % fn)
    for rnd in range(rng.randint(2, 5)):
        args = []
        for i, p in enumerate(ps):
            k = rng.random()
            if p == 'char *':
                args.append(rng.choice(['"str%d"' % rnd, 'buf', '&buf[1]', 'buf + 1']))
            elif p == 'int *':
                args.append('&cell')
            elif p == 'void *':
                args.append(rng.choice(['0', '(void *)%d' % rng.randint(1, 99999)]))
            elif p in FLT:
                v = value(rng, p)
                if k < .3:
                    args.append(str(rng.randint(-9, 99)))
                elif k < .5:
                    args.append(str(v))
                else:
                    st = rng.choice(FLT)
                    nm = 'a%d_%d' % (rnd, i)
                    body.append('%s %s = %s;' % (st, nm, v))
                    args.append(nm)
            else:
                st = p if k < .6 else rng.choice(INTTYPES)
                v = value(rng, st)
                if k < .35:
                    args.append(literal(p, value(rng, p)))
                elif k < .45:
                    w = rng.randint(0, 99)
                    args.append(rng.choice(['one + %d' % w, '%d * 2 - one' % w, '(one ? %d : 2)' % w, "'q'"]))
                else:
                    nm = 'a%d_%d' % (rnd, i)
                    body.append('%s %s; %s = %s;' % (st, nm, nm, literal(st, v)))
                    args.append(nm)
        callee = fn
        k = rng.random()
        if k < .3:
            # Through a pointer to the function.
            body.append('%s (*fp%d)(%s)%s%s%s;' % (rsp, rnd, ', '.join(sp) or 'void', rng.choice([' = ', '; fp%d = ' % rnd]), rng.choice(['', '&', '*']), fn))
            callee = rng.choice(['fp%d', '(*fp%d)', '(**fp%d)', '(fp%d)']) % rnd
            body.append('printf("%%d\\n", %s);' % rng.choice(['fp%d == %s', '%s == fp%d', '&%s != fp%d', 'fp%d ? 4 : 5', '!fp%d', 'fp%d != 0'])
                        .replace('%d', str(rnd)).replace('%s', fn))
        elif k < .4:
            callee = rng.choice(['(*%s)', '(&%s)', '(%s)', '(*&%s)']) % fn
        call = '%s(%s)' % (callee, ', '.join(args))
        if ret == 'void':
            body.append(call + ';')
        elif ret == 'char *':
            body.append('{ char *s; s = %s; printf("%%s\\n", s); }' % call if rng.random() < .5 else 'puts(%s);' % call)
        elif ret == 'int *':
            body.append('printf("%%d\\n", *%s);' % call if rng.random() < .5 else
                        '{ int *q; q = %s; *q += 100; printf("%%d\\n", *q); }' % call)
        elif ret in FLT:
            body.append('{ long double ld; %s rr = %s; ld = rr; printf("%%Lf\\n", ld); }' % (ret, call))
        else:
            f, cst = fmt(ret)
            body.append(rng.choice(['{ %s rr = %s; printf("%s\\n", %srr); }' % (ret, call, f, cst),
                                    'printf("%s\\n", %s%s);' % (f, cst, call),
                                    'if (%s) printf("nz\\n"); else printf("z\\n");' % call]))
        body.append('printf("%%d\\n", %s_calls);' % fn)
    for rnd in range(rng.randint(0, 2)):
        fs, al = [], []
        for i, p in enumerate(vps):
            st = p if rng.random() < .5 else rng.choice(INTTYPES if p in BITS else INTTYPES + FLT)
            v = value(rng, p) if p in BITS else rng.randint(0, 99)
            nm = 'w%d_%d' % (rnd, i)
            body.append('%s %s; %s = %s;' % (st, nm, nm, literal(p, v)) if p in BITS else '%s %s; %s = %s;' % (st, nm, nm, v))
            al.append(nm)
        al.append(None)
        for i in range(rng.choice([0, 1, 2, 4, 6])):
            t = rng.choice(['char', 'unsigned char', 'short', 'unsigned short', 'float', 'float', 'double', 'long double', 'int', 'long', 'unsigned long'])
            v = value(rng, t)
            nm = 'x%d_%d' % (rnd, i)
            body.append('%s %s; %s = %s;' % (t, nm, nm, literal(t, v)))
            fs.append({'float': '%f', 'double': '%g', 'long double': '%Lf', 'long': '%ld', 'unsigned long': '%lu'}.get(t, '%d'))
            al.append(nm)
        al[len(vps)] = '"%s\\n"' % ' '.join(fs)
        body.append('printf("%%d\\n", %s_v(%s));' % (fn, ', '.join(al)))
    if vt == 'char *':
        body.append('puts(%s_var); %s_var = "script"; puts(%s_var);' % (fn, fn, fn))
    elif vt in FLT:
        body.append('{ long double l; l = %s_var; printf("%%Lf\\n", l); } %s_var = %s;' % (fn, fn, value(rng, vt)))
    else:
        body.append('printf("%s\\n", %s%s_var); %s_var = %s; %s_var%s;' % (
            f, cst, fn, fn, literal(vt, value(rng, vt)), fn, rng.choice([' += 0', '++', '--']) if not BITS[vt][1] or BITS[vt][0] < 32 else ' += 0'))
    body.append('%s_arr[0] = one + 40; %s_arr[3]++; for (i = 0; i < 4; i++) printf("%%d ", %s_arr[i]); %s_look();' % (fn, fn, fn, fn))
    return '\n'.join(lib), '\n'.join(hdr), '\n'.join(globs), '\n'.join(body)


def variadic(rng):
    body, out = [], []
    for rnd in range(rng.randint(2, 5)):
        f, args = [], []
        for i in range(rng.randint(0, 12)):
            t = rng.choice(INTTYPES + FLT + ['char *', 'lit', 'flit', 'chr', 'expr', 'wide'])
            nm = 'v%d_%d' % (rnd, i)
            if t == 'char *':
                f.append('%s'); args.append(rng.choice(['"abc"', '"x y"']))
            elif t == 'lit':
                v = rng.choice([0, 1, -1, 2147483647, rng.randint(-99999, 99999)])
                f.append(rng.choice(['%d', '%5d', '%x', '%-6d']) if v >= 0 else '%d'); args.append(str(v))
            elif t == 'wide':
                v = rng.choice([rng.randint(2147483649, 9223372036854775000), 1 << rng.randint(32, 62), rng.randint(4294967296, 4294967999)]) * rng.choice([1, 1, -1])
                f.append(rng.choice(['%ld', '%lld', '%lx', '%15ld', '%jd', '%zd']))
                args.append(rng.choice(['%d', '%d', '0x%x'] if v > 0 else ['%d', '%d + 0', '(%d)']) % v)
            elif t == 'flit':
                f.append('%f'); args.append(str(value(rng, 'double')))
            elif t == 'chr':
                f.append('%c'); args.append("'%s'" % rng.choice('abc'))
            elif t == 'expr':
                f.append('%d'); args.append('%d + %d * 2' % (rng.randint(0, 99), rng.randint(0, 99)))
            else:
                v = value(rng, t)
                body.append('%s %s; %s = %s;' % (t, nm, nm, literal(t, v)))
                f.append({'float': '%f', 'double': '%g', 'long double': '%Lf', 'char': '%d', 'short': '%d',
                          'int': '%d', 'unsigned char': '%d', 'unsigned short': '%d', 'unsigned int': '%u',
                          'long': '%ld', 'unsigned long': '%lu', 'long long': '%lld',
                          'unsigned long long': '%llu'}[t])
                args.append(nm)
        fs = ' '.join(f)
        al = ''.join(', ' + a for a in args)
        k = rng.random()
        if k < .4:
            body.append('printf("%s\\n"%s);' % (fs, al))
        elif k < .7:
            body.append('{ char o[2000]; int n; n = sprintf(o, "%s"%s); printf("%%d [%%s]\\n", n, o); }' % (fs, al))
        else:
            body.append('{ char o[2000]; int n; n = snprintf(o, %d, "%s"%s); printf("%%d [%%s]\\n", n, o); }' % (
                rng.randint(1, 1999), fs, al))
    k = rng.randrange(10)
    n, m = rng.randint(2, 60), rng.randint(1, 5)
    body.append([
        # Blocks of alloca stay while the function does, and are all different.
        'char *a[5]; int i; int j; for (i = 0; i < 5; i++) { a[i] = alloca(%d + i); for (j = 0; j < %d + i; j++) a[i][j] = 65 + i; a[i][%d + i] = 0; } for (i = 0; i < 5; i++) puts(a[i]); for (i = 1; i < 5; i++) printf("%%d", a[i] == a[i - 1]); puts("");' % (n, n - 1, n - 1),
        'struct { int v; long w; } *q; long *l; int i; l = alloca(%d * sizeof(long)); q = alloca(sizeof(*q)); q->v = %d; q->w = 9; for (i = 0; i < %d; i++) l[i] = i * q->w; printf("%%ld %%d\\n", l[%d], q->v); memcpy(alloca(%d), "abcdefg", 7);' % (m, n, m, m - 1, n + 8),
        'int q; int w; char s[10]; printf("%d ", sscanf("12 34 word", "%d %d %9s", &q, &w, s)); printf("%d %d %s\\n", q, w, s);',
        'printf("%ld %ld %d\\n", strtol("0x1f", 0, 16), strtol("-77zz", 0, 10), atoi("451"));',
        'char *e; printf("%ld\\n", strtol("99bottles", &e, 10)); puts(e);',
        'printf("%f %f\\n", strtod("2.75", 0), atof("1e3"));',
        'printf("%d %d %d\\n", (int)strlen("abc"), strcmp("a", "b") < 0, memcmp("abc", "abd", 2)); puts(strchr("hello", 108)); puts(strstr("hay needle", "nee"));',
        'printf("%d %d %d\\n", abs(-5), toupper(97), isdigit(53) != 0); printf("%ld\\n", labs(-123456789012));',
        'fputs("to stdout\\n", stdout); fprintf(stdout, "%d-%s\\n", 5, "x"); putchar(65); putchar(10); fputc(66, stdout); fputc(10, stdout);',
        'char *p; p = getenv("NOSUCHVAR"); printf("%d\\n", p == 0); char b[4]; memset(b, 65, 3); b[3] = 0; puts(b); memcpy(b, "xyz", 2); puts(b); setenv("SOMEVAR", "val", 1); puts(getenv("SOMEVAR"));',
    ][k])
    if rng.random() < .3:
        body.append(checked(rng))
    return '\n'.join(body)


def checked(rng):
    """The functions that headers with checks of sizes call instead of strcpy and strcat."""
    out = ['char t[200]; char u[20] = {0}; char *p; int n; int m;'.replace(' = {0}', '') + ' u[0] = 117; u[1] = 0; t[0] = 0; m = 0;']

    def text(depth=0):
        k = rng.randrange(6 if depth < 2 else 4)
        if k < 2:
            return '"%s"' % ''.join(rng.choice('abcXYZ 019') for _ in range(rng.randint(0, 6)))
        if k < 4:
            return rng.choice(['u', '&u[0]', 'u + m', '(m ? "one" : "other")'])
        return 'strdup(%s)' % call(depth + 1, 't')

    def call(depth, to):
        f = rng.choice(['cpy', 'cat', 'cat'])
        size = rng.choice(['200', 'sizeof(t)', '(unsigned long)-1', '199 + 1'])
        return '__builtin___str%s_chk(%s, %s, %s)' % (f, to, text(depth), size)
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < .35:
            out.append('p = %s; printf("%%s %%d\\n", t, p == t);' % call(0, 't'))
        elif k < .6:
            out.append('for (n = 0; n < %d; n++) { %s; printf("%%d %%s\\n", n, t); }' % (rng.randint(1, 4), call(0, 't')))
        elif k < .8:
            out.append('puts(%s);' % call(0, 't'))
        else:
            out.append('printf("%%d\\n", (int)strlen(%s));' % call(0, rng.choice(['t', '&t[0]', 't + m'])))
    return '{ %s }' % '\n'.join(out)


def run(c):
    c.rule = ('Compiled libraries of functions with 0 to 20 parameters and results of all arithmetic types and '
              'pointers, which log every call they get, and external variables; called with literals, '
              'expressions and objects of the same and of other types; variadic calls of the C library. '
              'The log is compared with that of the compiled program. Non-trivial: a new text.')
    rounds, m = (20, 120) if K.THOROUGH else (4, 120)
    for rnd in range(rounds):
        parts = [make(c.rng, i) for i in range(m)]
        d = K.scratch('lib')
        hdr = '#include <stdio.h>\n#include <stdlib.h>\n#include <stdint.h>\n'
        K.write(d + '/nat.c', hdr + '\n'.join(l for l, h, g, b in parts))
        so = d + '/libnat.so'
        r = K.run(['gcc', '-w', '-O1', '-shared', '-fPIC', '-o', so, d + '/nat.c'], timeout=120)
        if r.rc:
            raise K.HarnessError('native library: ' + r.err[:500])

        def one(a):
            i, grp = a
            cfg = Config(sessions=6, includes=('stdio.h', 'stdlib.h', 'stdint.h'), prelude='\n'.join(h for l, h, g, b in grp),
                         libs=[so, '-Wl,-rpath,' + d], bic_args=['-l', so],
                         ref_flags=['-fno-sanitize=unsigned-integer-overflow', '-fsanitize=float-cast-overflow'])
            run_batch(c, [Case(b, g, key=h + b, tags=('library call cases',)) for l, h, g, b in grp],
                      cfg, ['113', '900:%d' % c.seed, None][i % 3])
        K.pmap(one, list(enumerate([parts[i:i + 12] for i in range(0, m, 12)])))
        c.sample('\n'.join(parts[0]))
    cases = [Case(variadic(c.rng), tags=('variadic call cases',)) for _ in range(6000 if K.THOROUGH else 600)]
    differential(c, cases, Config(sessions=6, includes=('stdio.h', 'stdlib.h', 'string.h', 'ctype.h', 'alloca.h'), gcs=('113', '900:%d', None)), batch=20)
    return 50
