"""Completion offers exactly the valid continuations, without side effects."""
import random, re
from lib import common as K
from lib.scriptrepl import SR, check

KINDS = ['complete'] * 8 + ['badcomplete'] * 5 + ['value'] * 3 + ['assign'] * 2 + ['call', 'decl', 'error', 'nested']
HEADERS = ['stdio.h', 'stdlib.h', 'string.h', 'time.h', 'unistd.h', 'ctype.h', 'errno.h', 'fcntl.h', 'stdint.h', 'sys/stat.h', 'pwd.h', 'wchar.h']
_names = {}


def header_names(h, d):
    """The names that the header declares, from the compiler."""
    if h not in _names:
        K.write(d + '/x.c', '#include <%s>\n' % h)
        K.run(['gcc', '-E', '-o', 'x.i', 'x.c'], cwd=d)
        r = K.run(['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump', '-x', 'cpp-output', 'x.i'], cwd=d, timeout=60)
        s = set()
        for l in r.out.split('\n'):
            m = re.match(r'^[|` ]*-(FunctionDecl|VarDecl|TypedefDecl|EnumDecl|EnumConstantDecl) ', l)
            if not m or (m.group(1) != 'EnumConstantDecl' and not re.match(r'^[|`]-', l)):
                continue
            b = re.sub(r'^.*?(<invalid sloc>|<[^>]*>+) ?(<invalid sloc>|(line|col|[^ ]*\.[hi]):\S+)? ?', '', l)
            b = re.sub(r'^(prev 0x\S+ )', '', b)
            w = [x for x in b.split("'")[0].split() if x not in ('implicit', 'used', 'referenced')]
            if w:
                s.add(w[-1] if m.group(1) != 'EnumConstantDecl' else w[0])
        _names[h] = s
    return _names[h]


class Session:
    """Lines, and for each either what it prints or the matches offered."""

    def __init__(self, rng, d):
        self.rng, self.d = rng, d
        self.out = []               # (line, kind, expected)
        self.names = set()
        self.calls = 0
        self.n = 0
        p = rng.choice(['q', 'w_', 'Zz', 'k9'])
        self.p = p
        mem = [x + y for x in ('a', 'al', 'be', p) for y in ('', 'pha', '_t', '1', 'x')][1:]
        rng.shuffle(mem)
        self.ms = mem[:rng.randint(6, 12)]
        inner, union = rng.sample(mem, rng.randint(1, 4)), rng.sample(mem, rng.randint(1, 4))
        self.types = {'S': self.ms, 'I': inner, 'U': union}
        m = self.ms
        self.inm, self.unm, self.nextm, self.selfm = m[0], m[1], m[2], m[3]
        decl = ['struct %sS {' % p, '  struct { ' + ' '.join('int %s;' % x for x in inner) + ' } %s;' % m[0],
                '  union { ' + ' '.join('%s %s;' % (rng.choice(['int', 'long', 'char *']), x) for x in union) + ' } %s;' % m[1],
                '  struct %sS *%s;' % (p, m[2]), '  struct %sS *%s;' % (p, m[3])]
        decl += ['  %s %s;' % (rng.choice(['int', 'char *', 'double', 'short', 'int *', 'unsigned long']), x) for x in m[4:]]
        decl += ['};', 'struct %sS %sobj, %sarr[3];' % (p, p, p), 'struct %sS *%sptr;' % (p, p), 'struct %sS **%spp;' % (p, p), 'int %scalls;' % p, 'int %snum;' % p,
                 'struct %sS *%sget(int i) { %scalls = %scalls + 1; %snum = %snum + i; printf("called %%d\\n", i); return &%sarr[i]; }' % ((p,) * 7),
                 'int %seffect(int i) { %scalls = %scalls + 1; %sobj.%s = &%sarr[i]; printf("effect\\n"); return i; }' % (p, p, p, p, m[2], p),
                 'enum %se { %sE1, %sE12, %sF };' % (p, p, p, p), 'typedef int %st;' % p, 'static long %sstatic;' % p]
        decl.append('int dprintf(int fd, const char *f, ...); int atexit(void (*f)(void)); void %sbye(void) { dprintf(2, "bye %%d\\n", %scalls); }' % (p, p))
        self.atexit = 0
        self.home = 'int printf(const char *f, ...);\n' + '\n'.join(decl) + '\n'
        self.names |= {'dprintf', 'atexit', p + 'bye'}
        self.names |= {'printf', 'argc', 'argv'} | {p + x for x in ('obj', 'arr', 'ptr', 'pp', 'calls', 'num', 'get', 'effect', 'e', 'E1', 'E12', 'F', 't', 'static')}
        self.num = 0
        self.next = None
        self.add('%sptr = &%sobj;' % (p, p), 'setup', None)
        self.add('%spp = &%sptr;' % (p, p), 'setup', None)
        self.add('%sobj.%s = &%sobj;' % (p, self.selfm, p), 'setup', None)
        self.headers = []

    def add(self, *a):
        self.out.append(a)

    def designator(self, depth):
        """(text of an lvalue of the struct, of type S)"""
        r, p = self.rng, self.p
        k = r.randint(0, 12 if depth else 5)
        if k <= 1:
            return p + 'obj'
        if k == 2:
            return '%sarr[%s]' % (p, r.choice(['0', '2', p + 'num*0', '1+1', p + 'E1']))
        if k == 3:
            return '(*%sptr)' % p
        if k == 4:
            return p + 'ptr[0]'
        if k == 5:
            return '(*%s)' % self.pointer(0)
        if k == 6:
            return '(%s)' % self.designator(depth - 1)
        if k == 7:
            return '(*%s)' % self.pointer(depth - 1)
        if k == 8:
            return '%s[0]' % self.pointer(depth - 1)
        return '%s%s' % (self.designator(depth - 1), '.' + self.selfm + '[0]') if False else self.designator(0)

    def pointer(self, depth):
        r, p = self.rng, self.p
        k = r.randint(0, 9 if depth else 4)
        if k == 0:
            return p + 'ptr'
        if k == 1:
            return '(*%spp)' % p
        if k == 2:
            return '%spp[0]' % p
        if k == 3:
            return '%sget(%d)' % (p, r.randint(0, 2))
        if k == 4:
            return '(&%sarr[1])' % p
        if k == 5:
            return '(&%s)' % self.designator(depth - 1)
        if k == 6:
            return '(%s)' % self.pointer(depth - 1)
        # Only the object that everything but get designates has the pointer to itself.
        return r.choice(['%sobj.%s', '%sptr->%s', '(*%spp)->%s', '%sptr[0].%s']) % (p, self.selfm)

    def member(self):
        r = self.rng
        s = r.choice(['S', 'S', 'I', 'U', 'P'])
        if s == 'P':
            base = self.pointer(2) + '->'
            t = 'S'
        else:
            base = self.designator(2)
            t = s
            if s != 'S':
                base += '.' + (self.inm if s == 'I' else self.unm)
                if r.random() < .4:
                    base = '(&%s)->' % base
                else:
                    base += '.'
            else:
                base += '.'
        ms = self.types[t]
        pre = r.choice(['', '', r.choice(ms), r.choice(ms)[:1], r.choice(ms)[:2], r.choice(ms) + 'x', 'zz', r.choice(ms).upper()])
        self.add('\x01' + base + pre, 'members', sorted(base + m for m in ms if m.startswith(pre)))

    def ident(self):
        r = self.rng
        ns = sorted(self.names)
        n = r.choice(ns)
        pre = r.choice([n, n[:1], n[:2], n[:3], n + 'q', 'zzz', self.p, r.choice(['s', 'st', 'f', 'get', 'is', 'size'])])
        self.add('\x01' + pre, 'identifiers', sorted(x for x in ns if x.startswith(pre)))

    def none(self):
        r, p = self.rng, self.p
        t = r.choice(['nosuch.', 'nosuch->a', '%snum.', '%scalls->', '%seffect(1).', '%seffect(2)->', '%sget(1).', '%snosuch.%snum', '(.', '%sobj.nosuch.', '%sobj..', '.a', '->a', '%sobj[', '%sobj.%snum.',
                      '%seffect(1)+nosuch.', '%sget(.', '%snum++.', '%snum=77.', '%sobj.', '1.', '"str".', '%s@->', '%st.', '%sS.', 'struct %sS.', '%sE1.', '%sget.', '*.', '&.', '%sarr[%seffect(1)+%snosuch].',
                      '%sptr.', '%sarr.', '%spp->', '*%sptr->', '%sobj->'])
        t = t.replace('%s', p)
        if t == p + 'obj.':
            t += 'ZZZ'
        self.add('\x01' + t, 'text without completions', [])

    def null(self):
        p = self.p
        b = '%sobj.%s->' % (p, self.nextm)
        self.add('\x01' + b, 'members of a null pointer' if self.next is None else 'members', sorted(b + m for m in self.ms))

    def line(self):
        r, p = self.rng, self.p
        k = r.randint(0, 8)
        if k == 8:
            if self.atexit < 3 and r.random() < .4:
                self.atexit += 1
                self.add('atexit(%sbye);' % p, 'exit handler', '0\n')
            else:
                # Left in the buffer of the stream, if the session flushes nothing.
                self.add('printf("partial");', 'output without a newline', 'partial7\n')
        elif k == 0:
            self.add('%scalls;' % p, 'value', '%d\n' % self.calls)
        elif k == 1:
            self.add('%snum;' % p, 'value', '%d\n' % self.num)
        elif k == 2:
            i = r.randint(0, 2)
            self.calls += 1
            self.next = i
            self.add('%seffect(%d);' % (p, i), 'call', 'effect\n%d\n' % i)
        elif k == 3:
            self.add('%sobj.%s == %s;' % (p, self.nextm, '&%sarr[%d]' % (p, self.next) if self.next is not None else '0'), 'value', '1\n')
        elif k == 4:
            self.num = r.randint(0, 1000)
            self.add('%snum = %d;' % (p, self.num), 'assignment', '%d\n' % self.num)
        elif k == 5:
            self.n += 1
            n = r.choice([p, p + 'v', 'pri', 's', 'al']) + 'N%d' % self.n
            self.names.add(n)
            t = r.choice(['int %s = 3;', 'long *%s;', 'char *%s = "x.y->z";', 'struct ' + p + 'S *%s;', 'static short %s;', 'double %s[2];', 'typedef long %s;'])
            self.add(t % n, 'declaration', n + '\n')
        elif k == 6:
            h = r.choice(HEADERS)
            self.headers.append(h)
            self.add('#include <%s>' % h, 'include', '')
            self.names |= header_names(h, self.d)
        else:
            self.add(r.choice(['%snum +;', '%sobj.;', '(%seffect(1);', '%snum = %snum']).replace('%s', p), 'error', '')

    def make(self):
        r = self.rng
        for _ in range(45):
            k = r.randint(0, 9)
            if k <= 2:
                self.member()
            elif k <= 4:
                self.ident()
            elif k == 5:
                self.none()
            elif k == 6 and r.random() < .3:
                self.null()
            else:
                self.line()
        p = self.p
        self.add('%scalls;' % p, 'value', '%d\n' % self.calls)
        self.add('%snum;' % p, 'value', '%d\n' % self.num)
        return self


def session(c, seed, gc):
    d = K.scratch()
    s = Session(random.Random(seed), d).make()
    K.write(d + '/.bic', s.home)
    text = ''.join(o[0] + '\n' for o in s.out)
    flush = s.rng.random() < .5
    if not flush:
        c.count('sessions with all output pending')
    r = K.bic([], stdin=text, rl=True, cwd=d, home=d, gc=gc, timeout=120, env={} if flush else {'BIC_VERIF_RL_NOFLUSH': '1'})
    if r.timeout:
        return c.inconclusive_case('timeout')
    c.case(s.home + text)
    why = r.crashed()
    bye = re.findall('^bye (.*)$', r.err, re.M)
    if not why and bye != [str(s.calls)] * s.atexit:
        why = 'the %d exit handlers: %r' % (s.atexit, bye)
    obs = []
    for m in re.finditer(r'\x02([LCE])([^\n]*\n)((?:[^\x02])*)', r.out):
        obs.append((m.group(1), m.group(2), m.group(3)))
    if not why:
        for i, (l, kind, exp) in enumerate(s.out):
            if i >= len(obs):
                why = 'the session ended at %r' % (s.out[i - 1][0],)
                break
            t, a, b = obs[i]
            c.count(kind)
            if l[0] == '\x01':
                ms = a.strip('\n').split('\x03')[1:]
                if len(ms) > 1:
                    if ms[0] != l[1:]:
                        why = '%r: the first of several matches is %r' % (l, ms[0])
                        break
                    ms = ms[1:]
                ms = sorted(set(x for x in ms if not re.match(r'__', x)))
                if t != 'C' or ms != [x for x in exp if not x.startswith('__')] or b:
                    why = 'completing %r: expected %r, observed %r %r' % (l[1:], exp[:20], ms[:20], b[:100])
                    break
                if exp:
                    c.count('matches', len(exp))
            elif t != 'L' or (exp is not None and b != exp):
                why = 'line %r: expected %r, observed %r' % (l, exp, b[:200])
                break
    if not why and (r.rc or len(obs) != len(s.out) + 1):
        why = 'exit status %d after %d of %d lines' % (r.rc, len(obs), len(s.out))
    if why:
        c.violation('a session: ' + why + '\n' + r.err[-300:], {'home.bic': s.home, 'session.txt': text, 'observed.txt': r.out, 'stderr.txt': r.err[:20000]})


def terminal(c, seed):
    """Requests made with the tab key to the real readline, which completes the line if there is a single match."""
    rng = random.Random(seed)
    d = K.scratch()
    vs = {}
    stems = rng.sample(['al', 'be', 'gamma', 'd', 'eps_', 'st', 'X9'], 5)
    for st in stems:
        for n in {st + x for x in rng.sample(['1', '_x', 'pha', 'n', 'Z', 'pham'], rng.randint(1, 4))}:
            vs[n] = rng.randint(-999, 9999)
    ms = {n: rng.randint(0, 999) for n in list(vs)[:5]}
    K.write(d + '/.bic', 'int printf(const char *f, ...);\nint calls;\nstruct S { int %s; struct S *nxt; };\nstruct S obj, *ptr;\nstruct S *get() { calls++; printf("called\\n"); return &obj; }\n' % ', '.join(ms) +
            ''.join('int %s = %d;\n' % x for x in vs.items()))
    names = list(vs) + ['obj', 'ptr', 'printf', 'calls', 'get', 'S', 'argc', 'argv']
    # Names that aren't offered.
    for n in list(vs)[:3]:
        K.write(d + '/' + n[:2] + 'file', '')
    lines, exp = ['ptr = &obj;', 'obj.nxt = &obj;'], [None, None]
    for m in ms:
        lines.append('obj.%s = %d;' % (m, ms[m]))
        exp.append(str(ms[m]))

    def prefixes(pool, n):
        return [n[:i] for i in range(1, len(n) + 1) if sum(x.startswith(n[:i]) for x in pool) == 1]
    for _ in range(14):
        if rng.random() < .5:
            n = rng.choice(list(vs))
            pre = prefixes(names, n)
            if not pre:
                continue
            v = vs[n]
            lines.append(rng.choice(['%s\t;', ' %s\t;', '(- %s\t) * -1;', '0 + %s\t+ 0;']) % rng.choice(pre))
        else:
            n = rng.choice(list(ms))
            pre = prefixes(list(ms) + ['nxt'], n)
            if not pre:
                continue
            v = ms[n]
            b = rng.choice(['obj.', 'ptr->', '(*ptr).', 'obj.nxt->', 'ptr->nxt->nxt->', '(&obj)->', 'ptr[0].', 'get(0)->'])
            if b == 'get(0)->':
                b = '(&*get())->'
            lines.append(rng.choice(['%s\t;', '0 + %s\t;', '%s\t + 0;']) % (b + rng.choice(pre + [''] * (len(ms) == 0))))
            if 'get' in b:
                exp.append('called')
        exp.append(str(v))
    calls = exp.count('called')
    lines.append('calls;')
    exp.append(str(calls))
    text = '\n'.join(lines) + '\n'
    r = K.bic([], stdin=text, cwd=d, home=d)
    got = [l for l in r.out.split('\n') if l and not l.startswith('BIC>')]
    c.case('terminal' + text)
    c.count('requests by key', text.count('\t'))
    if r.timeout:
        return c.inconclusive_case('timeout')
    if r.crashed() or r.rc or len(got) != len(exp) or any(e is not None and e != x for x, e in zip(got, exp)):
        c.violation('a session read by readline: %r: expected %r, observed %r; %s' % (lines, exp, got, r.err[:500]), {'session.txt': text, 'observed.txt': r.out, 'stderr.txt': r.err[:9999], 'home.bic': open(d + '/.bic').read()})


def run(c):
    c.rule = ('Random scripts with <REPL> statements in functions, blocks, loops and top-level code, entered with requests to complete prefixes of identifiers, members after . and -> of objects of all '
              'kinds of designators, and text that has no completions or cannot be evaluated (with calls that have effects), interleaved with lines that print and change the objects; each set of matches is '
              'compared with the model, everything printed with a C program that has the code of the lines only. And REPL sessions with declarations in the startup file, on lines and in system headers (whose '
              'names the compiler lists). Non-trivial: a new script or session.')
    n = 110 if not K.THOROUGH else 2500
    m = 50 if not K.THOROUGH else 1200
    seeds = [c.rng.random() for _ in range(n + m)]
    gcs = ['23', None, '200:%d']

    def f(i):
        if len(c.violations) >= 4:
            return
        gc = gcs[i % 3]
        gc = gc % (c.seed * 100 + i) if gc and '%d' in gc else gc
        if i < m:
            return session(c, seeds[i], gc)
        g = SR(random.Random(seeds[i]), KINDS).make(top=i % 4 == 3)
        check(c, g, K.scratch(), gc)
    K.pmap(f, range(n + m))
    K.pmap(lambda s: terminal(c, s), [c.rng.random() for _ in range(10 if not K.THOROUGH else 150)])
    return 30
