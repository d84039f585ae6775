"""Running on doesn't use up memory, descriptors, files or processes."""
import os, random, re
from lib import common as K
from checks import c01, c02, c03, c04, c05, c10

PRE = c10.SMALL + 'int sprintf(char *b, const char *f, ...); int abs(int x); double atof(const char *s); int rand(void); char sink[4000];\n'
# (declarations, what is repeated)
BODY = [
    ('int a;', 'a = a + 1; a = a * 3 %% 1000; a = -a; a = ~a; a = !a;'),
    ('int a; int b;', 'a = (b = 3, b << 2) | (a & 7) ^ 5; b = a > 3 && b < 7 || !a;'),
    ('long a; unsigned long b;', 'a = 123456789012345; b = a; b = b * 1000; a = b >> 3; a = a / 7 - b % 5;'),
    ('char c; short s; float f; double d; long double l;', "c = 300; s = c; f = s; d = f; l = d; d = 2.5; f = l; c = 'x';"),
    ('int a;', 'int x; int y = 3; int z[4]; z[y] = x = y; { int q; q = z[3]; a = q; }'),
    ('int a;', 'struct s { int a; char *b; struct t { int c; } d; } v; struct s *p; p = &v; p->a = 1; p->d.c = 2; v.b = "k"; a = v.d.c;'),
    ('int a;', 'typedef int T; typedef struct q { T k; } Q; enum e { E1, E2 }; T t; Q q; t = E2; q.k = t; a = q.k;'),
    ('int a;', 'union { int i; char c[4]; } u; u.i = 65; a = u.c[0];'),
    ('int a; int f(int x) { return x + 1; } int g(int x, int y) { int l; l = f(x) + f(y); if (l > 3) return l; return f(l); }', 'a = g(f(a & 7), f(3)); f(g(1, 2));'),
    ('int a; int f(int x) { if (x < 1) return 0; return 1 + f(x - 1); }', 'a = f(12);'),
    ('int a; int f(int x) { return x; } int (*fp)(int);', 'fp = &f; a = fp(3) + (*fp)(4); fp = a ? &f : fp;'),
    ('int a; void v(void) { static int s; static int *p; static char *n = "n"; s++; p = &s; a = *p; }', 'v(); v();'),
    ('int a;', 'int i; for (i = 0; i < 5; i++) { if (i == 3) break; a += i; } while (i > 0) { i--; if (i == 1) { break; } } for (int k = 0; k < 3; ++k) a -= k;'),
    ('int a[10]; int *p;', 'p = a; p++; p += 2; *p = 4; a[2] = p - a; p--; a[p - a] ++; ++*p; p = &a[3]; if (p == a) *p = 1;'),
    ('char *s;', 's = "hello"; s++; sink[0] = *s; s = s ? "yes" : "no"; strcpy(sink, "abc"); strcat(sink, s);'),
    ('int a;', 'sprintf(sink, "%%d %%s %%f %%c %%ld", a, "str", 2.5, 65, 10); a = strlen(sink) + abs(-3);'),
    ('void *p; int *q;', 'p = malloc(40); q = p; *q = 3; memset(p, 0, 40); free(p);'),
    ('int a; double d;', 'd = atof("2.5"); a = d; a = (int)d + (char)300 + sizeof(int) + sizeof d; a += 2; a -= 1; a ^= 3; a <<= 1; a >>= 1; a /= 2;'),
    ('int a; struct n { struct n *l; int v; } x, y; struct n *z[3];', 'x.l = &y; y.l = &x; x.l->l->v = 3; z[1] = &x; z[1]->l->v = z[1]->v; a = (*z[1]).v; a = (&x)->v;'),
    ('int a; int f(char c, short s, long l, float g, double d, int *p, char *n) { *p = c + s + l; return g; }', 'a = f(1, 2, 3, 4, 5, &a, "n"); a = f(a, a, a, 1.5, 2.5, &a, 0);'),
    ('int a;', 'a = a == 3 ? a + 1 : a > 2 ? 7 : 9; if (a) ; else { } { } ; a; 3; "lit"; 2.5;'),
    ('int a[20]; int c(const void *x, const void *y) { return 1; }', 'int i; for (i = 0; i < 4; i++) a[i] = 4 - i; a[0] = sizeof(a) / sizeof(a[0]);'),
    ('int a;', 'extern int rand(void); a = rand() & 3; int abs(int x); a = abs(a);'),
    ('int a; int rec(int n) { int loc[3]; struct { int z; } u; loc[0] = n; u.z = n; if (n > 0) { int k; k = rec(n - 1); return k + loc[0] + u.z; } return 0; }', 'a = rec(5);'),
    ('int a;', 'for (;;) { a++; while (1) { int t; t = a; break; } if (a & 1) { break; } break; }'),
    ('int f(void) { int i; for (i = 0; i < 10; i++) { int z; z = i; while (z > 2) { if (z == i) return z; z--; } } return 0; }', 'f(); f();'),
]


def script(n, g, b):
    return PRE + g.replace('%%', '%') + '\nvoid cs() { %s }\nint main() { int rep; for (rep = 0; rep < %d; rep++) cs(); return 0; }\n' % (b.replace('%%', '%'), n)


def measure(args, stdin, d, gc, rl=False, timeout=120, env=None):
    for f in ('st', 'gl'):
        if os.path.exists(d + '/' + f):
            os.unlink(d + '/' + f)
    r = K.bic(args, stdin, 'plain', gc, d + '/gl', d, timeout, rl=rl, stat=d + '/st', home=d, env=env)
    st = [int(x) for x in open(d + '/st').read().split()[-4:]] if os.path.exists(d + '/st') else None
    live = [int(l.split()[1]) for l in open(d + '/gl')] if os.path.exists(d + '/gl') else []
    return r, st, live


LINES = [
    ('gi + 2 * 3;', 60), ('gi = gi + 1;', 60), ('gi++;', 60), ('puts("text");', 300), ('printf("%d\\n", gi);', 300),
    ('gi + + ) 3;', 60), ('3 3;', 60), ('@', 60), ('"unterminated', 400), ('?gi', 60), ('?gs', 60), ('?nosuch', 60), ('?printf', 60),
    ('\x01gi', 60), ('\x01gs.', 60), ('\x01ps->', 60), ('\x01nosuch', 60), ('\x01pu', 60), ('\x01gi = 3 + ps->', 60),
    ('gs;', 60), ('ps->a = 3;', 60), ('gs.n = &gs;', 60), ('*ps;', 60), ('"abc";', 300), ('2.5;', 200), ("'c';", 60),
    ('gi > 3 ? gi : 7;', 60), ('(char)300;', 60), ('sizeof(gs);', 60), ('', 60), ('arr;', 60), ('arr[1] = arr[2] + 1;', 60),
    ('&gi;', 60), ('ps;', 60), ('gi == 3 && gi < 7;', 60), ('abs(-3);', 60), ('strlen("xyz");', 300),
]
SETUP = ['#include <stdio.h>', '#include <string.h>', '#include <stdlib.h>', 'int gi = 3;', 'int arr[4];',
         'struct s { int a; struct s *n; };', 'struct s gs;', 'struct s *ps;', 'ps = &gs;']


def grow_script(c, name, g, b, confirm=False):
    n1, n2 = (60, 360) if not confirm else (300, 1800)
    if name.startswith('gen'):
        n1, n2 = (15, 60) if not confirm else (60, 1500)
    obs = []
    for n in (n1, n2):
        d = K.scratch()
        src = script(n, g, b)
        K.write(d + '/p.c', src)
        r, st, live = measure(['-s', 'p.c'], b'', d, '13' if name[0] == 's' else '41')
        if not r.timeout and (r.rc < 0 or r.rc > 128 or r.rc and name[:3] != 'gen'):
            return c.violation('%s: %d repetitions end with status %d: %s' % (name, n, r.rc, r.err[-300:]), {'prog.c': src})
        if r.rc or not st or not live:
            c.inconclusive_case('%s: rc %d %s' % (name, r.rc, r.err[:200]))
            return
        obs.append((max(live[len(live) // 2:]), st, len(live)))
    c.count('collections', obs[0][2] + obs[1][2])
    extra = n2 - n1
    dl, dm = obs[1][0] - obs[0][0], obs[1][1][0] - obs[0][1][0]
    with c.lock:
        c.counts['largest growth of live objects'] = max(dl, c.counts.get('largest growth of live objects', 0))
        c.counts['largest growth of allocated bytes'] = max(dm, c.counts.get('largest growth of allocated bytes', 0))
    bad = []
    if dl > extra * .25:
        bad.append('%d more live objects' % dl)
    # Up to a period of the schedule is left uncollected at the end.
    if dm > extra * 16 + (4000 if not confirm else 40000):
        bad.append('%d more bytes allocated' % dm)
    if obs[1][1][1] > obs[0][1][1]:
        bad.append('more descriptors open')
    if not bad:
        c.case(name + b)
        return
    if not confirm:
        return grow_script(c, name, g, b, True)
    c.violation('%s: after %d instead of %d repetitions: %s' % (name, n2, n1, ', '.join(bad)), {'prog.c': src})


def grow_session(c, line, allow, confirm=False):
    n1, n2 = (6, 30) if not confirm else (30, 150)
    obs = []
    pad = line if not line or line[0] in '?\x01"' else line + ' ' * 900
    for n in (n1, n2):
        d = K.scratch()
        text = '\n'.join(SETUP + [pad] * n) + '\n'
        r, st, live = measure([], text, d, '5', rl=True)
        if r.rc and not r.timeout:
            return c.violation('session: %d lines of %r end with status %d: %s' % (n, line, r.rc, r.err[-300:]), {'session.txt': text})
        if r.rc or not st or not live:
            c.inconclusive_case('session %r: rc %d %s' % (line, r.rc, r.err[-200:]))
            return
        obs.append((max(live[-len(live) // 4:]), st))
        if st[2] or st[3]:
            c.violation('session of %r: %d zombies, %d children at the end' % (line, st[2], st[3]), {'session.txt': text})
            return
    extra = n2 - n1
    dl, dm = obs[1][0] - obs[0][0], obs[1][1][0] - obs[0][1][0]
    bad = []
    if dl > extra * .25:
        bad.append('%d more live objects' % dl)
    if dm > extra * allow + (6000 if not confirm else 2000):
        bad.append('%d more bytes allocated' % dm)
    if obs[1][1][1] > obs[0][1][1]:
        bad.append('more descriptors open (%d, %d)' % (obs[0][1][1], obs[1][1][1]))
    with c.lock:
        k = 'largest growth of a session (bytes a line)'
        c.counts[k] = max(dm // extra, c.counts.get(k, 0))
    if not bad:
        c.case('session ' + line)
        return
    if not confirm:
        return grow_session(c, line, allow, True)
    c.violation('session: %d instead of %d lines of %r: %s' % (n2, n1, line, ', '.join(bad)), {'session.txt': text})


# ------------------------------------------------ system calls
CREATE = re.compile(r'(?:openat\([^,]*, |open\(|creat\()"([^"]*)", [^)]*O_CREAT[^)]*\) = \d')
REMOVE = re.compile(r'unlink(?:at\([^,]*, |\()"([^"]*)"[^)]*\) = 0')


def trace(c, name, args, stdin, files, rl=False, allowed=()):
    """All files that a run creates are gone when it ends, its children have been waited for, and
    its descriptors are bounded."""
    d = K.scratch()
    for n, t in files.items():
        K.write(d + '/' + n, t)
    log = d + '/trace'
    e = K.base_env(d)
    if rl:
        e['BIC_VERIF_RL'] = '1'
    b = K.build()['plain']
    r = K.run(['strace', '-f', '-qq', '-o', log, '-e',
               'trace=openat,open,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,clone,clone3,fork,vfork,wait4,waitid,exit_group,execve,symlink',
               b] + args, stdin, d, e, 120)
    if not os.path.exists(log):
        c.inconclusive_case('no trace')
        return
    made, kids, first, waited = {}, set(), None, set()
    for l in open(log, encoding='latin-1'):
        pid, _, rest = l.partition(' ')
        rest = rest.strip()
        first = first or pid
        m = CREATE.search(rest)
        if m:
            made[os.path.join(d, m.group(1))] = 1
        m = REMOVE.search(rest)
        if m:
            made.pop(os.path.join(d, m.group(1)), None)
        m = re.search(r'(?:clone3?|v?fork)\b.*= (\d+)$', rest)
        if m and pid == first:
            kids.add(m.group(1))
        m = re.search(r'wait(?:4|id)\b.*= (\d+)$', rest)
        if m and pid == first:
            waited.add(m.group(1))
    left = [f for f in made if os.path.exists(f) and not f.startswith('/dev/') and os.path.basename(f) not in allowed]
    c.count('system calls watched', sum(1 for _ in open(log, encoding='latin-1')))
    c.count('files created', len(made))
    c.count('children', len(kids))
    for f in left:
        if f.startswith('/tmp/bic.') or f.startswith(d):
            os.unlink(f)
    if left:
        c.violation('%s: left behind: %s' % (name, ' '.join(left)), dict(files, **{'stdin.txt': stdin, 'args.txt': ' '.join(args)}))
    elif r.timeout:
        c.violation('%s: processes are still running' % name, dict(files, **{'stdin.txt': stdin, 'args.txt': ' '.join(args)}))
    elif kids - waited and r.rc == 0:
        c.violation('%s: %d of %d children were not waited for' % (name, len(kids - waited), len(kids)),
                    dict(files, **{'stdin.txt': stdin, 'args.txt': ' '.join(args)}))
    else:
        c.case('trace ' + name)


HDR = 'int printf(const char *f, ...);\n'


def traces(rng):
    S = [('plain script', ['-s', 'p.c'], '', {'p.c': '#include <stdio.h>\nint main() { puts("x"); return 3; }'}, False),
         ('script with an error', ['-s', 'p.c'], '', {'p.c': HDR + 'int main() { printf("x\\n"); return nosuch; }'}, False),
         ('script with a syntax error', ['-s', 'p.c'], '', {'p.c': HDR + 'int main() { printf("x\\n") return; }'}, False),
         ('script with an absent header', ['-s', 'p.c'], '', {'p.c': '#include <nosuch.h>\nint main() { return 0; }'}, False),
         ('absent script', ['-s', 'nosuch.c'], '', {}, False),
         ('exit()', ['-s', 'p.c'], '', {'p.c': '#include <stdlib.h>\nint main() { exit(7); }'}, False),
         ('dump', ['-T', '-s', 'p.c'], '', {'p.c': '#include <stdio.h>\nint main() { puts("x"); return 3; }'}, False),
         ('two sources', ['a.c', 'b.c'], '', {'a.c': HDR + 'int f() { return 3; }', 'b.c': 'int f(); int main() { return f(); }'}, False),
         ]
    base = ['#include <stdio.h>', 'int gi = 3;', 'struct s { int a; int bb; };', 'struct s gs;', 'struct s *ps;', 'ps = &gs;']
    pool = ['puts("x");', 'gi + 1;', '?gi', '\x01gs.', '\x01ps->a', '\x01nosuch.', '\x01nosuch->b', '\x01gi', '#include <string.h>', 'gi ) 3;',
            '', '\x01gi / 0 ? gs.', '\x01(*ps).', '#include <stddef.h>', 'gs;', '\x01gi.', '\x01', '\x01.', '\x01->', '?', '#include <limits.h>']
    for i in range(60 if K.THOROUGH else 10):
        lines = base + [rng.choice(pool) for _ in range(rng.randint(5, 14))]
        end = rng.choice([[], [], ['nosuch;'], ['#include <nosuch.h>'], ['gi; gi;'], ['exit(0);'], ['gi / 0;']])
        S.append(('session %s' % ' | '.join(lines[6:] + end), [], '\n'.join(lines + end) + '\n',
                  {'.bic': rng.choice(['', 'int q;', 'int ) q;'])} if rng.random() < .3 else {}, True))
    return S


def run(c):
    c.rule = ('Programs and lines of all kinds, each repeated n and several times n times: the live objects after each '
              'collection, the bytes allocated, the open descriptors, zombies and children at the end must not grow with n. Runs and '
              'sessions of all kinds of ending under a system call trace: every file created is removed and every child waited for. '
              'Non-trivial: a new text with at least one collection (or, traced, a completed trace).')
    c.assumptions = ['The history of libreadline, headers included again and characters of literals entered grow with the session by design.',
                     'Collections are inhibited while compiled code calls back.']
    jobs = [(grow_script, 'statements %d' % i, g, b) for i, (g, b) in enumerate(BODY)]
    rng = c.rng
    for i in range(200 if K.THOROUGH else 20):
        k = i % 5
        if k == 0:
            g, b = c10.reach(rng)
            if 'ins$' in g or 'mk$' in g or 'next' in g:
                continue
        else:
            g, b = [None, lambda: c01.make(rng, 2), lambda: c04.make(rng), lambda: c04.make(rng),
                    lambda: c02.make(rng, rng.choice(c02.ALL), rng.choice(c02.ALL), i)][k]()
        if 'malloc' in g + b or 'qsort' in g + b:
            continue
        t = lambda x: x.replace('$', 'x').replace('printf(', 'sprintf(sink, ').replace('puts(', 'strcpy(sink, ').replace('%%', '%%%%')
        jobs.append((grow_script, 'generated %d' % i, t(g), t(b)))
    for l, a in LINES:
        jobs.append((grow_session, l, a))
    for t in traces(rng):
        jobs.append((trace,) + t)
    K.pmap(lambda j: j[0](c, *j[1:]), jobs)
    c.sample(script(60, *BODY[8]))
    c.sample('\n'.join(SETUP + ['ps->a = 3;'] * 6))
    return 50
