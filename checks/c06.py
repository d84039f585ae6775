"""Data layout: scripts and compiled code agree on every byte of every object."""
import os
from lib import common as K
from lib.diff import Case, Config, differential
from lib.typegen import *


def store(rng, t, lv, k, nofn=False):
    if t.kind == 'scalar':
        if t.name in FLT:
            return '%s = %d.%d;' % (lv, k % 1000, rng.choice([0, 5, 25, 125]))
        v = (k * 37 + 11) % 120 + 1
        if BITS[t.name][0] > 8 and rng.random() < .6:
            v = k * 911 % 32000 + 1
        if BITS[t.name][0] > 16 and rng.random() < .5:
            v = k * 7654321 % 2000000000 + 1
        return '%s = %d;' % (lv, v)
    if t.kind == 'fnptr':
        # An address isn't to be seen through another member of a union.
        return '%s = %s;' % (lv, '0' if nofn else '&fn$')
    return '%s = (void *)%d;' % (lv, 4096 + k) if rng.random() < .5 else '%s = 0;' % lv


def show(t, lv):
    if t.kind == 'scalar':
        if t.name in FLT:
            return ('%Lf' if t.name == 'long double' else '%f'), lv
        return '%ld', '(long)' + lv
    if t.kind == 'fnptr':
        return '%d', '%s == &fn$' % lv
    return '%ld', '(long)' + lv


def make(rng):
    ty = Types(rng)
    for _ in range(rng.randint(1, 3)):
        ty.compound()
    T = ty.named[-1]
    sp = T.spelled
    globs = ['int fn$(int a) { return a; }'] + ty.decls
    globs.append('%s go$; %s ga$[3];' % (sp, sp))
    globs.append('void dump$(char *what, unsigned char *p, int n) { int i; printf("%s:", what); for (i = 0; i < n; i++) printf(" %d", p[i]); printf("\\n"); }')
    body = ['%s lo$; %s *po$; %s la$[3]; struct { char pre; %s in; char post; } w$; po$ = &ga$[1];' % (sp, sp, sp, sp)]
    for o in ('go$', 'lo$', 'w$'):
        body.append('memset(&%s, 0, sizeof(%s));' % (o, o))
    body.append('memset(&la$[0], 0, 3 * sizeof(%s)); memset(&ga$[0], 0, 3 * sizeof(%s));' % (sp, sp))
    for x in ty.named:
        body.append('printf("%%d\\n", (int)sizeof(%s));' % x.spelled)
    body.append('printf("%d %d %d\\n", (int)sizeof(lo$), (int)sizeof(la$), (int)sizeof(w$));')
    ns = [n for n in nodes(T) if n[0]]
    for p, t in rng.sample(ns, min(len(ns), 12)):
        o = rng.choice(['go$', 'lo$', 'la$[1]', 'ga$[2]'])
        body.append('printf("%%d %%d\\n", (int)((char *)&%s%s - (char *)&%s), (int)sizeof(%s%s));' % (o, p, o, o, p))
    ls = list(leaves(T))
    k = rng.randint(0, 50)
    bases = ['go$', 'lo$', 'la$[1]', '(*po$)', 'w$.in', 'po$->']
    for _ in range(rng.randint(1, 3)):
        base = rng.choice(bases)
        for p, t in ls if len(ls) < 14 else rng.sample(ls, 14):
            k += 1
            lv = base[:-2] + '->' + p[1:] if base == 'po$->' else base + p
            body.append(store(rng, t, lv, k, has_union(T)))
            if has_union(T) and rng.random() < .5 or rng.random() < .1:
                q, u = rng.choice(ls)
                if u.kind == 'scalar' and u.name in FLT:
                    continue
                lq = base[:-2] + '->' + q[1:] if base == 'po$->' else base + q
                f, e = show(u, lq)
                body.append('printf("%s\\n", %s);' % (f, e))
        vals = [show(t, (base[:-2] + '->' + p[1:]) if base == 'po$->' else base + p)
                for p, t in ls if not (t.kind == 'scalar' and t.name in FLT and has_union(T))][:20]
        if vals:
            body.append('printf("%s\\n", %s);' % (' '.join(f for f, e in vals), ', '.join(e for f, e in vals)))
        obj, size = {'(*po$)': ('&ga$[0]', '3 * (int)sizeof(%s)' % sp), 'po$->': ('&ga$[0]', '3 * (int)sizeof(%s)' % sp),
                     'la$[1]': ('&la$[0]', '3 * (int)sizeof(%s)' % sp),
                     'w$.in': ('&w$', '(int)sizeof(w$)')}.get(base, ('&' + base, '(int)sizeof(%s)' % base))
        if not any(t.kind == 'scalar' and t.name == 'long double' for p, t in ls) and \
                not any(t.kind == 'fnptr' for p, t in ls):
            body.append('dump$("bytes", (unsigned char *)%s, %s);' % (obj, size))
    return '\n'.join(globs), '\n'.join(body), (ty, T, ls)


NATIVE_SCALARS = None


def large(rng):
    """Members larger than small counters can hold."""
    ms = []
    for i in range(rng.randint(2, 5)):
        t = rng.choice(['char', 'short', 'int', 'long', 'double', 'char *', 'struct i$'])
        n = rng.choice([0, 0, rng.randint(100, 300), rng.randint(20000, 70000)])
        ms.append((t, 'm%d' % i, n))
    kw = rng.choice(['struct', 'struct', 'struct', 'union'])
    g = 'struct i$ { char x; int y; };\n%s b$ { %s };\n%s b$ go$, ga$[2];' % (kw, ' '.join('%s %s%s;' % (t, m, '[%d]' % n if n else '') for t, m, n in ms), kw)
    body = ['%s b$ lo$; %s b$ *p$; p$ = %s; memset(&lo$, 0, sizeof(lo$));' % (kw, kw, rng.choice(['&lo$', '&go$', '&ga$[1]']))]
    body.append('printf("%%ld %%ld %%ld\\n", (long)sizeof(%s b$), (long)sizeof(ga$), (long)((char *)&ga$[1] - (char *)&ga$[0]));' % kw)
    for t, m, n in ms:
        o = rng.choice(['go$.', 'lo$.', 'ga$[1].', 'p$->'])
        i = rng.choice([0, n - 1, rng.randrange(n)]) if n else 0
        e = m + '[%d]' % i * bool(n)
        body.append('printf("%%ld %%ld\\n", (long)((char *)&%s%s - (char *)&%s), (long)sizeof(%s%s));' % (o, e, o.rstrip('.') if o[0] != 'p' else '*p$', o, m))
        e += '.y' if t == 'struct i$' else ''
        v = rng.randint(1, 100)
        body.append('%s%s = %s; printf("%s\\n", %s%s%s);' % (o, e, '(void *)%d' % v if '*' in t else v, '%f' if t == 'double' else '%ld', '' if t == 'double' else '(long)', o, e))
    return ' '.join(body), g


def native(rng, n):
    """Compounds that a compiled library reads and writes."""
    ty = Types(rng, pfx='N%d' % n, fnptr=False)
    for _ in range(rng.randint(1, 3)):
        ty.compound()
    T = ty.named[-1]
    sp = T.spelled
    ls = list(leaves(T))
    lib = ['%s nat%d_obj;' % (sp, n), 'void nat%d_fill(%s *o, int k) {' % (n, sp), '  memset(o, 0, sizeof(*o));']
    hdr = ['\n'.join(ty.decls), 'extern %s nat%d_obj;' % (sp, n) if not T.name.startswith('TT') else '',
           'void nat%d_fill(%s *o, int k);' % (n, sp), 'void nat%d_show(%s *o);' % (n, sp),
           '%s *nat%d_next(%s *o);' % (sp, n, sp), 'int nat%d_size(void);' % n]
    for i, (p, t) in enumerate(ls):
        lib.append('  o->%s = %s(k * %d + %d);' % (p[1:], '(void *)(long)' if t.kind == 'ptr' else '', i + 3, i))
    lib.append('}')
    lib.append('void nat%d_show(%s *o) {' % (n, sp))
    for p, t in ls:
        if t.kind == 'scalar' and t.name in FLT and has_union(T):
            continue
        if t.kind == 'scalar' and t.name in FLT:
            lib.append('  printf("%%Lf ", (long double)o->%s);' % p[1:])
        else:
            lib.append('  printf("%%ld ", (long)o->%s);' % p[1:])
    lib.append('  printf("\\n"); }')
    lib.append('%s *nat%d_next(%s *o) { return o + 1; }' % (sp, n, sp))
    lib.append('int nat%d_size(void) { return sizeof(%s); }' % (n, sp))
    body = ['%s a$[3]; %s *p$; memset(&a$[0], 0, sizeof(a$));' % (sp, sp),
            'printf("%%d %%d\\n", nat%d_size(), (int)sizeof(a$[0]));' % n]
    for r in range(2):
        body.append('nat%d_fill(&a$[1], %d);' % (n, rng.randint(1, 9)))
        vals = [show(t, 'a$[1]' + p) for p, t in ls
                if not (t.kind == 'scalar' and t.name in FLT and has_union(T))][:25]
        if vals:
            body.append('printf("%s\\n", %s);' % (' '.join(f for f, e in vals), ', '.join(e for f, e in vals)))
        body.append('nat%d_show(&a$[0]); nat%d_show(&a$[2]);' % (n, n))
        for i, (p, t) in enumerate(ls[:25]):
            body.append(store(rng, t, 'a$[2]' + p, i * 7 + r))
        body.append('nat%d_show(&a$[2]); p$ = nat%d_next(&a$[0]); nat%d_show(p$); printf("%%d\\n", p$ == &a$[1]);' % (n, n, n))
    if not T.name.startswith('TT') and ls:
        p, t = rng.choice(ls)
        body.append('nat%d_fill(&nat%d_obj, 5);' % (n, n))
        f, e = show(t, 'nat%d_obj%s' % (n, p))
        if not (t.kind == 'scalar' and t.name in FLT):
            body.append('printf("%s\\n", %s);' % (f, e))
        body.append(store(rng, t, 'nat%d_obj%s' % (n, p), 33))
        body.append('nat%d_show(&nat%d_obj);' % (n, n))
    return '\n'.join(lib), '\n'.join(hdr), '\n'.join(body)


SYSTEM = [
    ('''struct tm t$, *q$; time_t w$; int i$; w$ = 86400 * 365; for (i$ = 0; i$ < 40; i$++) { w$ = w$ + 8123457;
     gmtime_r(&w$, &t$); printf("%d %d %d %d %d %d %d %d\\n", t$.tm_sec, t$.tm_min, t$.tm_hour, t$.tm_mday, t$.tm_mon, t$.tm_year, t$.tm_wday, t$.tm_yday);
     q$ = gmtime(&w$); printf("%d %d\\n", q$->tm_yday, q$->tm_hour); q$->tm_mday += 3; printf("%ld\\n", (long)timegm(q$)); t$.tm_mon = 3; t$.tm_hour -= 2; printf("%ld\\n", (long)timegm(&t$)); }'''),
    ('''struct stat s$; int r$; r$ = stat("prog.c.sz", &s$); printf("%d %ld %d %d\\n", r$, (long)s$.st_size, (int)s$.st_mode, (int)s$.st_nlink);
     r$ = stat("/dev/null", &s$); printf("%d %d %ld\\n", r$, (int)s$.st_mode, (long)s$.st_rdev);'''),
    ('''struct timeval a$; struct timespec b$; a$.tv_sec = 5; a$.tv_usec = 7; b$.tv_nsec = 9; b$.tv_sec = 4; printf("%ld %ld %ld %ld %d %d\\n", (long)a$.tv_sec, (long)a$.tv_usec, (long)b$.tv_sec, (long)b$.tv_nsec, (int)sizeof(a$), (int)sizeof(struct tm));'''),
    ('''struct lconv *l$; l$ = localeconv(); printf("%s|%s|%d\\n", l$->decimal_point, l$->thousands_sep, l$->frac_digits);'''),
]


def run(c):
    c.rule = ('Random structs, unions, arrays and their nests over 13 arithmetic types, enums, pointers and '
              'function pointers: sizeof, the offset of each sub-object, the bytes of objects after stores '
              'through paths, and the exchange of such objects with a compiled library (which fills, shows '
              'and steps over them) and the C library. Non-trivial: a new text.')
    c.assumptions = ['The ABI of the host C compilers (clang compiles the reference and the library). '
                     'Bit-fields are out of scope.']
    n = 6000 if K.THOROUGH else 500
    cases = [Case(*make(c.rng)[1::-1], tags=('layout cases',)) for _ in range(n)]
    cases += [Case(*large(c.rng), tags=('large members',)) for _ in range(n // 20)]
    differential(c, cases, Config(sessions=6, includes=('stdio.h', 'string.h'), gcs=('900:%d', '1500:%d', None, None)), batch=15)

    # Exchange with a compiled library.
    for rnd in range(8 if K.THOROUGH else 2):
        m = 100
        parts = [native(c.rng, i) for i in range(m)]
        d = K.scratch('lib')
        K.write(d + '/nat.h', '\n'.join(h for l, h, b in parts))
        K.write(d + '/nat.c', '#include <stdio.h>\n#include <string.h>\n#include "nat.h"\n' +
                '\n'.join(l for l, h, b in parts))
        so = d + '/libnat.so'
        r = K.run(['gcc', '-w', '-shared', '-fPIC', '-o', so, d + '/nat.c'], timeout=120)
        if r.rc:
            raise K.HarnessError('native library: ' + r.err[:500])
        heads = [h for l, h, b in parts]
        groups = [parts[i:i + 10] for i in range(0, m, 10)]
        for gi, grp in enumerate(groups):
            pass

        def one(grp):
            cfg = Config(sessions=6, includes=('stdio.h', 'string.h'), prelude='\n'.join(h for l, h, b in grp),
                         libs=[so, '-Wl,-rpath,' + d], bic_args=['-l', so], gcs=(None,))
            cs = [Case(b, key=h + b, tags=('library exchange cases',)) for l, h, b in grp]
            from lib.diff import run_batch
            run_batch(c, cs, cfg, '1500:%d' % c.seed)
        K.pmap(one, groups)
    cfg = Config(sessions=6, includes=('stdio.h', 'time.h', 'sys/stat.h', 'sys/time.h', 'locale.h'),
                 files={'prog.c.sz': 'x' * 1234}, gcs=('97',))
    differential(c, [Case(b, tags=('C library exchange cases',)) for b in SYSTEM], cfg, batch=1)
    return 50
