"""Scripts are invoked with their arguments, options and status."""
import os, random, shutil
from lib import common as K

NAMES = ['p.c', 'script', 'a b.c', "q'q.c", 'a$HOME.c', '(x);echo y.c', 'p#.c', 'dir/p.c', './p.c', 'dir/../p.c', 'ABS', 'a"b.c', 'a\\b.c', 'x.sh', 'p.c.bak', '*.c', 'caf\xe9.c', '`id`.c', 'a&b|c.c', '%d%s.c', 'p.h', 'P.C', 'p.cpp']
WORDS = ['-s', '-l', '-I', '-T', '-D', '-v', '--', '--help', '-x', '-', '', ' ', '0', 'a b', '"', "'", '\\', '$HOME', '*', '?', ';', '%s%n', 'argv', '\n', '\t', 'a=b', 'nosuch.c', '-snope', '-lm', '#', '\\n', '\x01', '\xff', '-Tx', 'p.c', '//', '/*']
LIB = '''int zlf%(n)s(int a) { return a * %(k)d + 1; }
int zlv%(n)s = %(v)d;
int zboth(void) { return %(k)d; }
const char *zls%(n)s(void) { return "lib%(n)s"; }
'''


def arg(rng):
    k = rng.randint(0, 5)
    if k <= 2:
        return rng.choice(WORDS)
    if k == 3:
        return ''.join(chr(rng.randint(1, 255)) for _ in range(rng.randint(0, 30)))
    if k == 4:
        return ''.join(rng.choice('abcXYZ019 _-./') for _ in range(rng.randint(1, 12)))
    return 'long' + 'x' * rng.choice([10, 255, 4096, 20000])


def number(rng):
    """(expression, value)"""
    v = rng.choice([0, 0, 1, 2, 3, 42, 127, 128, 200, 255, 256, 257, 300, 511, 512, 1000, 65535, 65536, -1, -2, -127, -128, -129, -256, -257, 2147483647, -2147483647, rng.randint(-2**31 + 1, 2**31 - 1)])
    s = str(v)
    a = rng.randint(-99, 99)
    if abs(v) < 10**9 and rng.random() < .4:
        s = rng.choice(['%d + zk' % (v - a), 'same(%d)' % v, 'zk * 0 + %d' % v, '(%d)' % v])
    return s, v, a


class Script:
    """A script that prints its arguments and ends somehow; out and rc are what it has to do."""

    def __init__(self, rng, args, name, stdin, envval, libs=(), hdrs=()):
        self.kind = []
        e, v, a = number(rng)
        argv = [name] + args
        main = rng.random() < .5
        self.main = main
        o = []
        heads = ['stdio.h', 'stdlib.h', 'string.h', 'unistd.h']
        rng.shuffle(heads)
        src = ['#include <%s>' % h for h in heads]
        for h, val in hdrs:
            src.append('#include %s' % h)
        src += ['int zk = %d;' % a, 'int same(int x) { return x; }', 'void leave(int d, int v) { if (d == 0) { exit(v); } leave(d - 1, v); puts("not reached"); }']
        for n, lib in libs:
            src += ['int zlf%s(int);' % n, 'extern int zlv%s;' % n, 'char *zls%s(void);' % n]
        if libs:
            src += ['int zboth(void);']
        body = []
        takes = 2 if not main or rng.random() < .75 else rng.choice([0, 1])
        if takes:
            body.append('printf("argc %d\\n", argc);')
            o.append('argc %d\n' % len(argv))
        if takes == 2:
            big = sum(map(len, args)) > 1500
            body += rng.choice([
                ['for (int i = 0; i < argc; i++) {', '    printf("%d %d <%s>\\n", i, (int)strlen(argv[i]), argv[i]);', '}'],
                ['int i = 0;', 'while (argv[i]) {', '    printf("%d %d <%s>\\n", i, (int)strlen(argv[i]), argv[i]);', '    i++;', '}', 'printf("%d\\n", i == argc);'],
                ['char **p = argv;', 'int i;', 'for (i = 0; i < argc; i++) {', '    int n = 0;', '    while ((*p)[n]) {', '        n++;', '    }', '    printf("%d %d <%s>\\n", i, n, *p);', '    p++;', '}']][:2 if big else 3])
            if 'i == argc' in body[-1]:
                tail = '1\n'
            else:
                tail = ''
            o += ['%d %d <%s>\n' % (i, len(x), x) for i, x in enumerate(argv)] + [tail]
            if rng.random() < .5:
                body.append('printf("last %s\\n", argv[argc - 1]);')
                o.append('last %s\n' % argv[-1])
            if rng.random() < .5:
                body.append('printf("%d\\n", argv[argc] == 0);')
                o.append('1\n')
            if rng.random() < .3:
                body.append('argc = argc + 5;')
                body.append('printf("%d\\n", argc);')
                o.append('%d\n' % (len(argv) + 5))
        for h, val in hdrs:
            if val is not None:
                body.append('printf("%%d\\n", HM_%s);' % h.strip('<>"').replace('/', '_')[:-2])
                o.append('%d\n' % val)
        for n, lib in libs:
            body.append('printf("%%d %%d %%s\\n", zlf%s(10), zlv%s, zls%s());' % (n, n, n))
            o.append('%d %d lib%s\n' % (10 * lib[0] + 1, lib[1], n))
        if libs:
            body.append('printf("%d\\n", zboth());')
            o.append('%d\n' % libs[0][1][0])
        if stdin is not None:
            body += ['int zc = getchar();', 'unsigned int zsum = 0;', 'while (zc != -1) {', '    zsum = (zsum * 31 + zc) % 1000003;', '    zc = getchar();', '}', 'printf("%u\\n", zsum);']
            s = 0
            for b in stdin:
                s = (s * 31 + b) % 1000003
            o.append('%d\n' % s)
        if envval is not None:
            body.append('printf("%s\\n", getenv("ZQENV"));')
            o.append(envval + '\n')
        if rng.random() < .4:
            body.append('fputs("to stderr\\n", stderr);')
            self.err = 'to stderr\n'
        else:
            self.err = ''
        # How it ends.
        end = rng.choice(['return', 'return', 'nested return', 'exit', 'deep exit', 'end', 'atexit', '_exit', 'error'])
        self.rc = v % 256
        wrap = lambda s: rng.choice([['if (zk == zk) {', '    ' + s, '}'], ['while (1) {', '    ' + s, '    puts("again");', '}'], ['for (int zi = 0; zi < 3; zi++) {', '    if (zi == 2) {', '        ' + s, '    }', '    puts("round");', '}'],
                                     ['{', '    {', '        ' + s, '    }', '}'], ['if (zk != zk) {', '    puts("no");', '} else {', '    ' + s, '}']])
        if end == 'return':
            body.append('return %s;' % e)
        elif end == 'nested return':
            w = wrap('return %s;' % e)
            body += w
            o += ['round\n'] * 2 if 'for' in w[0] else []
        elif end == 'exit':
            w = rng.choice([['exit(%s);' % e], wrap('exit(%s);' % e)])
            body += w
            o += ['round\n'] * 2 if 'for' in w[0] else []
        elif end == 'deep exit':
            body.append('leave(%d, %s);' % (rng.randint(0, 20), e))
        elif end == 'end':
            self.rc = 0
        elif end == 'atexit':
            src.append('void bye(void) { printf("bye %d\\n", zk); }')
            src.append('void bye2(void) { printf("first\\n"); zk = zk + 1; }')
            body += ['atexit(&bye);', 'atexit(&bye2);', rng.choice(['return %s;', 'exit(%s);']) % e]
            o += ['first\n', 'bye %d\n' % (a + 1)]
        elif end == '_exit':
            body += ['fflush(stdout);', '_exit(%s);' % e]
        elif end == 'error':
            body += ['int zz = 0;', 'printf("before\\n");', rng.choice(['zz = 1 / zz;', 'zz = nosuch + 1;', 'nosuch();', 'zz = 1 % zz;'])]
            o.append('before\n')
            self.rc = 1
        if end != 'end':
            body += ['puts("after the end");'] if end not in ('return',) or rng.random() < .5 else []
        self.kind = ('main %d' % takes if main else 'top level') + ', ' + end
        if main:
            src += ['int main(%s)' % ['void', 'int argc', rng.choice(['int argc, char *argv[]', 'int argc, char **argv'])][takes] if takes or rng.random() < .5 else 'int main()', '{'] + ['    ' + b for b in body] + ['}']
            if rng.random() < .3:
                src += ['int zlater = 3;', 'int zlaterf(void) { return 4; }']
        else:
            src += body
        self.src = '\n'.join(src) + '\n'
        self.out = ''.join(o)
        self.iserror = end == 'error'


def layout(rng, d, n):
    """Directories with headers and libraries, and the options to use them."""
    dirs = []
    for i in range(rng.randint(0, 3)):
        x = rng.choice(['inc%d', 'in c%d', 'inc%d/sub', "q'%d", '$x%d']) % i
        os.makedirs(d + '/' + x, exist_ok=True)
        dirs.append(x)
    names = {}
    hdrs = []
    for i in range(rng.randint(0, 3)):
        if not dirs:
            break
        h = 'zh%d.h' % i
        where = rng.sample(dirs, rng.randint(1, len(dirs)))
        for x in where:
            val = rng.randint(0, 9999)
            names[x, h] = val
            K.write('%s/%s/%s' % (d, x, h), '#define HM_zh%d %d\n' % (i, val))
        hdrs.append((rng.choice(['<%s>', '"%s"']) % h, names[next(x for x in dirs if (x, h) in names), h]))
    opts = []
    for x in dirs:
        p = rng.choice([x, './' + x, d + '/' + x])
        opts.append(['-I', p] if rng.random() < .6 else ['-I' + p])
        if rng.random() < .3:
            opts.append(['-I', '/nonexistent/dir'])
        if rng.random() < .1:
            opts += [['-I', '/nonexistent/' + rng.choice('abc') * rng.choice([1, 30, 120, 240, 300, 4000])] for _ in range(rng.choice([1, 3, 30]))]
    return opts, hdrs


def libs(rng, c):
    """Shared libraries of which scripts use some: {name: (factor, value)}, directory"""
    d = K.scratch()
    L = {}
    for n in ('A', 'B', 'C'):
        k, v = rng.randint(2, 99), rng.randint(-999, 9999)
        K.write('%s/%s.c' % (d, n), LIB % {'n': n, 'k': k, 'v': v})
        r = K.run(['gcc', '-shared', '-fPIC', '-o', 'libz%s.so' % n, n + '.c'], cwd=d)
        assert r.rc == 0, r.err
        L[n] = (k, v)
    return d, L


def invoke(c, seed, gc, ld, L):
    rng = random.Random(seed)
    d = K.scratch()
    os.makedirs(d + '/dir')
    name = rng.choice(NAMES)
    if name == 'ABS':
        name = d + '/p.c'
    args = [arg(rng) for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 12, 60]))]
    stdin = bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 60))) if rng.random() < .3 else None
    envval = ''.join(rng.choice('abc $"\\') for _ in range(6)) if rng.random() < .3 else None
    opts, hdrs = layout(rng, d, 3)
    use = rng.sample(sorted(L), rng.choice([0, 0, 1, 2, 3]))
    lopts = []
    for n in use:
        p = rng.choice(['zA', 'libzA.so', ld + '/libzA.so']).replace('zA', 'z' + n)
        lopts.append(['-l', p] if rng.random() < .6 else ['-l' + p])
    if rng.random() < .2:
        lopts.append(['-l', 'm'])
    # The order among options of a kind matters only.
    merged = []
    opts, lopts = list(opts), list(lopts)
    while opts or lopts:
        merged += (opts if opts and (not lopts or rng.random() < .5) else lopts).pop(0)
    s = Script(rng, args, name, stdin, envval, [(n, L[n]) for n in use], hdrs)
    K.write(os.path.join(d, name).encode('latin-1'), s.src.encode('latin-1'))
    K.write(d + '/.bic', 'int printf(const char *f, ...);\nprintf("the startup file\\n");\nint same = 4;\n')
    env = {'LD_LIBRARY_PATH': ld}
    if envval is not None:
        env['ZQENV'] = envval
    argv = [x.encode('latin-1') for x in merged + ['-s', name] + args]
    r = K.bic(argv, stdin=stdin or b'', cwd=d, home=d, gc=gc, env=env)
    if r.timeout:
        return c.inconclusive_case('timeout')
    c.case(repr(argv) + s.src)
    c.count(s.kind)
    c.count('arguments', len(args))
    c.sample(repr(argv)[:300])
    why = r.crashed()
    if not why and r.rc != s.rc:
        why = 'exit status %d instead of %d' % (r.rc, s.rc)
    if not why and r.out != s.out:
        why = 'the output is %r instead of %r' % (r.out[-400:], s.out[-400:])
    if not why and (r.err != s.err if not s.iserror else not r.err.startswith(s.err) or 'error: ' not in r.err):
        why = 'messages %r instead of %r' % (r.err[:300], s.err)
    if why:
        c.violation('%s: %s' % (s.kind, why), {'argv.txt': repr(argv) + '\n', 'script.c': s.src.encode('latin-1'), 'stdin': stdin or b'', 'expected.txt': s.out.encode('latin-1'), 'observed.txt': r.out.encode('latin-1'),
                                               'stderr.txt': r.err.encode('latin-1')})


def wrong(c, seed, ld):
    """Invocations that end with status 1 and a message before anything is executed."""
    rng = random.Random(seed)
    d = K.scratch()
    good = '#include <stdio.h>\nputs("executed");\n'
    K.write(d + '/good.c', good)
    K.write(d + '/.bic', 'int printf(const char *f, ...);\nprintf("the startup file\\n");\n')
    os.mkdir(d + '/adir')
    K.write(d + '/notlib.so', 'not a library')
    K.write(d + '/mix.c', '#include <stdio.h>\nputs("executed");\nint main() { puts("executed"); return 0; }\n')
    K.write(d + '/mix2.c', '#include <stdio.h>\nint main() { puts("executed"); return 0; }\nputs("executed");\n')
    K.write(d + '/three.c', '#include <stdio.h>\nint main(int a, char **b, char **c) { puts("executed"); return 0; }\n')
    K.write(d + '/undef.c', '#include <stdio.h>\nint zlfA(int);\nint main() { printf("%d\\n", zlfA(3)); return 0; }\n')
    K.write(d + '/nohdr.c', '#include <stdio.h>\n#include <zqnosuch.h>\nputs("executed");\n')
    K.write(d + '/nohdr2.c', '#include <stdio.h>\nputs("executed");\n#include "zqnosuch.h"\n')
    K.write(d + '/herr.c', '#include <stdio.h>\nputs("executed");\n#error stop\n')
    good_opts = rng.choice([[], ['-I', 'adir'], ['-l', 'm'], ['-I.', '-lm'], ['-D'], ['-l', ld + '/libzB.so']])
    extra = rng.choice([[], ['arg'], ['-s', 'good.c'], ['-z', 'x']])
    kind, argv, say = rng.choice([
        ('missing script', ['-s', 'nosuch.c'] + extra, 'nosuch.c'), ('script in a missing directory', ['-s', 'nodir/good.c'] + extra, 'nodir/good.c'), ('directory as script', ['-s', 'adir'] + extra, 'adir'),
        ('unknown option', ['-' + rng.choice('abcdefghijkmnopqrtuwxyzABCEFGHJKLMNOPQRSUVWXYZ0123456789?_'), '-s', 'good.c'] + extra, 'sage'),
        ('unknown option in a group', ['-T' + rng.choice('zyxwk'), '-s', 'good.c'], 'sage'), ('long option', ['--' + rng.choice(['help', 'version', 'script']), '-s', 'good.c'], 'sage'),
        ('-s without script', ['-s'], 'sage'), ('-l without library', ['-l'], 'sage'), ('-I without directory', ['-I'], 'sage'),
        ('missing library', ['-l', 'zqnosuch', '-s', 'good.c'] + extra, 'zqnosuch'), ('missing library', ['-lzqnosuch', '-s', 'good.c'], 'zqnosuch'), ('not a library', ['-l', './notlib.so', '-s', 'good.c'], 'notlib'),
        ('missing library without script', ['-l', 'zqnosuch'], 'zqnosuch'), ('good and missing library', ['-l', 'm', '-l', 'zqnosuch', '-s', 'good.c'], 'zqnosuch'),
        ('code and main', ['-s', 'mix.c'] + extra, 'mix.c'), ('main and code', ['-s', 'mix2.c'] + extra, 'mix2.c'), ('too many parameters of main', ['-s', 'three.c'], 'main'),
        ('function of a library that is not given', ['-s', 'undef.c'], 'zlfA'),
        ('function of a library that is given after the script', ['-s', 'undef.c', '-l', ld + '/libzA.so'], 'zlfA'),
        ('missing header', ['-s', 'nohdr.c'], 'zqnosuch.h'), ('missing header', ['-I', 'adir', '-s', 'nohdr2.c'], 'zqnosuch.h'), ('#error', ['-s', 'herr.c'], 'stop')])
    argv = good_opts + argv
    r = K.bic(argv, stdin=b'4;\n', cwd=d, home=d, env={'LD_LIBRARY_PATH': ld})
    if r.timeout:
        return c.inconclusive_case('timeout')
    c.case(repr(argv))
    c.count('wrong: ' + kind)
    why = r.crashed()
    if not why and r.rc != 1:
        why = 'exit status %d' % r.rc
    if not why and say not in r.err:
        why = 'no message about %r' % say
    if not why and r.out:
        why = 'output'
    if why:
        c.violation('%s: %s: %s; stdout %r, stderr %r' % (kind, argv, why, r.out[:300], r.err[:400]), {'argv.txt': repr(argv) + '\n', 'observed.txt': r.out, 'stderr.txt': r.err})


def other(c, seed, ld, L):
    """-v, and sessions with startup files."""
    rng = random.Random(seed)
    d = K.scratch()
    K.write(d + '/good.c', '#include <stdio.h>\nputs("executed");\n')
    if rng.random() < .2:
        argv = rng.choice([['-v'], ['-v', '-s', 'good.c'], ['-I', '.', '-v'], ['-lm', '-v', '-s', 'good.c']])
        r = K.bic(argv, stdin=b'4;\n', cwd=d, home=d)
        c.case(repr(argv))
        c.count('-v')
        if r.crashed() or r.rc or 'bic v' not in r.err + r.out or 'executed' in r.out or 'BIC>' in r.out:
            c.violation('-v: %r exits %d, prints %r %r' % (argv, r.rc, r.out[:300], r.err[:300]), {'argv.txt': repr(argv)})
        return
    home = rng.random()
    env, argv, startup, exp0 = {}, [], None, ''
    opts, hdrs = layout(rng, d, 3)
    hdrs = [(h, v) for h, v in hdrs if h[0] == '<']
    n = rng.choice(['A', 'B'])
    lines = [('4 + 5;', '9\n')]
    if rng.random() < .5:
        argv += ['-l', ld + '/libz%s.so' % n]
        lines += [('int zlf%s(int);' % n, '\n'), ('zlf%s(3);' % n, '%d\n' % (3 * L[n][0] + 1))]
    argv += sum(opts, [])
    for h, v in hdrs:
        lines += [('#include %s' % h, ''), ('HM_%s;' % h.strip('<>')[:-2], '%d\n' % v)]
    if home < .7:
        x, y = rng.randint(0, 999), rng.randint(0, 999)
        startup = '#include <stdio.h>\nint zx = %d;\nint zf(int a) { return a + zx; }\nstatic int zs;\n' % x + rng.choice(['', 'printf("starting %d\\n", zx);\n', 'for (int i = 0; i < 3; i++) { zs = zs + i; }\nputs("looped");\n'])
        exp0 = 'starting %d\n' % x if 'starting' in startup else 'looped\n' if 'looped' in startup else ''
        lines += [('zx;', '%d\n' % x), ('zf(%d);' % y, '%d\n' % (x + y)), ('zs;', '%d\n' % (3 if 'looped' in startup else 0)), ('zx = 5;', '5\n'), ('zf(1);', '6\n')]
        K.write(d + '/.bic', startup)
        c.count('sessions with a startup file')
    elif home < .77:
        startup = rng.choice(['', '\n', '/* nothing */\n', '// nothing', '#define ZQ 3\n', '#include <limits.h>\n', ';', '#if 0\nint x;\n#endif\n', 'extern int optind;\n', 'struct zs;\n'])
        K.write(d + '/.bic', startup)
        K.write(d + '/script', startup)
        r = K.bic(['-s', 'script'], cwd=d, home=d)
        if r.crashed() or r.rc or r.out + r.err:
            c.violation('script %r: exits %d, prints %r %r' % (startup, r.rc, r.out[:300], r.err[:300]))
        c.count('scripts and startup files of almost nothing')
    elif home < .87:
        K.write(d + '/.bic', rng.choice(['int x = ;\n', '#include <stdio.h>\nputs("executed");\nint f( {\n', '#include <zqnosuch.h>\n']))
        r = K.bic(argv, stdin='4;\n', rl=True, cwd=d, home=d)
        c.case('bad startup file' + open(d + '/.bic').read() + repr(argv))
        c.count('wrong: startup file')
        if r.crashed() or r.rc != 1 or '.bic' not in r.err or r.out:
            c.violation('startup file %r: exits %d, prints %r %r' % (open(d + '/.bic').read(), r.rc, r.out[:300], r.err[:300]))
        return
    else:
        c.count('sessions without a startup file')
    text = ''.join(l + '\n' for l, v in lines)
    if rng.random() < .3:
        # The home directory is that of the user database.
        c.count('sessions without HOME')
        os.mkdir(d + '/elsewhere')
        env = {'HOME': None, 'BIC_VERIF_PWDIR': d + '/elsewhere'}
        if startup is not None:
            shutil.move(d + '/.bic', d + '/elsewhere/.bic')
            K.write(d + '/.bic', 'int zx = -3;\n')
        if rng.random() < .3:
            env = {'HOME': d + '/elsewhere', 'BIC_VERIF_PWDIR': d}
    r = K.bic(argv, stdin=text, rl=True, cwd=d, home=d, env=env)
    exp = exp0 + ''.join('\x02L\n' + v for l, v in lines) + '\x02E\n'
    c.case('session' + (startup or '') + text + repr(argv))
    if r.timeout:
        return c.inconclusive_case('timeout')
    if r.crashed() or r.rc or r.out != exp or r.err.replace('\x02L\n', ''):
        c.violation('a session with %s: %s exit %d: expected %r, observed %r; %s' % (argv, r.crashed() or '', r.rc, exp, r.out[:600], r.err.replace('\x02L\n', '')[:300]),
                    {'home.bic': startup or '', 'session.txt': text, 'argv.txt': repr(argv), 'observed.txt': r.out, 'stderr.txt': r.err})


def run(c):
    c.rule = ('Random invocations: scripts (main with 0-2 parameters, or code at the top level) under names with special characters print and alter argc and argv, read stdin and the environment, use headers '
              'found through -I and functions and variables of libraries given with -l (three shared libraries built for it, with a function in common), and end by falling off, returning (nested), exit, _exit, '
              'atexit handlers or an error with values of the whole range of int; invocations that must fail; sessions with and without a startup file. Output, messages and status are compared with a model. '
              'Non-trivial: a new command line or script.')
    n = 260 if not K.THOROUGH else 6000
    ld, L = libs(c.rng, c)
    seeds = [c.rng.random() for _ in range(n)]

    def f(i):
        if len(c.violations) >= 4:
            return
        if i % 10 < 6:
            invoke(c, seeds[i], ['31', None, '200:%d' % (c.seed * 100 + i)][i % 3], ld, L)
        elif i % 10 < 8:
            wrong(c, seeds[i], ld)
        else:
            other(c, seeds[i], ld, L)
    K.pmap(f, range(n))
    return 60
