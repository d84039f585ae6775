"""Scripts that open the REPL where they execute <REPL>, and a C program that
has the code of the lines that are entered in these places."""
import re
from . import common as K
from .exprgen import INTTYPES, BITS
from .session import REF_HEAD, REF_FLAGS, Norm

DESC = {'char': 'signed char', 'unsigned char': 'unsigned char', 'short': 'signed short', 'unsigned short': 'unsigned short', 'int': 'signed integer', 'unsigned int': 'unsigned integer',
        'long': 'signed long', 'unsigned long': 'unsigned long', 'long long': 'signed long long', 'unsigned long long': 'unsigned long long', 'float': 'float', 'double': 'double',
        'long double': 'long double', 'void': 'Void type'}
POOL = ['zqa', 'zqab', 'zqabc', 'zqb', 'zqba', 'zqc', 'zqd', 'zqdd', 'zqx', 'zqxy', 'zqxyz', 'zq']
ERR = ['@ = 99 +;', '@++ @++;', '(tick();', '@ = 98', 'int @ = ;', 'tick() tick();', '{ @ = 4; }', 'if (1) @ = 4;', ')', '@ = 96; }', 'return 3;', 'while (1);', '@ = = 3;', 'int 5@ = 3;']


class V:
    """A declared identifier."""

    def __init__(self, name, kind, type, line, n=0, file='p.c', target=None, st=None):
        self.name, self.kind, self.type, self.line, self.n, self.file, self.st = name, kind, type, line, n, file, st

    def desc(self):
        if self.kind == 'int' or self.kind == 'flt':
            return DESC[self.type]
        if self.kind in ('ptr', 'arr'):
            return 'pointer to a ' + DESC[self.type]
        if self.kind == 'ptrptr':
            return 'pointer to a pointer to a ' + DESC[self.type]
        if self.kind == 'str':
            return 'pointer to a signed char'
        if self.kind == 'sptr':
            return 'pointer to a ' + self.st
        if self.kind == 'comp':
            return 'Live Compound'
        if self.kind == 'fn':
            return 'Function'
        if self.kind == 'const':
            return 'Constant integer'
        assert 0, self.kind


class SR:
    def __init__(self, rng, kinds, maxstops=6):
        self.rng, self.kinds = rng, kinds
        self.src, self.ref = [], []         # lines of the script and of the reference
        self.scopes = [{}]
        self.structs = {}
        self.lines = []                     # all session lines that may be entered: (text, kind)
        self.stops = 0
        self.maxstops = maxstops
        self.n = 0
        self.fns = []
        self.topcode, self.top = False, False
        self.count = {}

    # ---- output
    def emit(self, s, ref=None, ind=0):
        self.src.append('    ' * ind + s)
        self.ref.append('    ' * ind + (s if ref is None else ref))

    @property
    def line(self):
        return len(self.src) + 1

    def visible(self):
        out = {}
        for s in self.scopes:
            for v in s.values():
                out[v.name] = v
        return out

    def pick(self, *kinds):
        vs = [v for v in self.visible().values() if v.kind in kinds]
        return self.rng.choice(vs) if vs else None

    # ---- declarations in the script
    def fresh(self):
        names = [n for n in POOL if n not in self.scopes[-1]]
        return self.rng.choice(names) if names else None

    def declare(self, ind, names_ok=True):
        r = self.rng
        n = self.fresh()
        if not n:
            return
        k = r.choice(['int', 'int', 'int', 'int', 'flt', 'ptr', 'arr', 'str', 'comp', 'sptr', 'ptrptr'])
        static = 'static ' if r.random() < .15 else ''
        glob = len(self.scopes) == 1 and not self.topcode
        ln = self.line
        if k == 'int':
            t = r.choice(INTTYPES if r.random() < .4 else ['int', 'long', 'short', 'char'])
            v = r.randint(0, 90)
            self.emit('%s%s %s = %d;' % (static, t, n, v), None, ind)
            self.scopes[-1][n] = V(n, 'int', t, ln)
        elif k == 'flt':
            t = r.choice(['float', 'double', 'long double'])
            self.emit('%s%s %s = %s;' % (static, t, n, r.choice(['0.5', '1.25', '12.75'])), None, ind)
            self.scopes[-1][n] = V(n, 'flt', t, ln)
        elif k == 'ptr':
            tg = [v for v in self.visible().values() if v.kind == 'int' and v.type != 'char' and v.name != n]
            if not tg:
                return
            tg = r.choice(tg)
            if glob or tg.name == n:
                self.emit('%s *%s = &%s;' % (tg.type, n, tg.name), None, ind)
            else:
                self.emit('%s *%s;' % (tg.type, n), None, ind)
                self.emit('%s = &%s;' % (n, tg.name), None, ind)
            self.scopes[-1][n] = V(n, 'ptr', tg.type, ln)
        elif k == 'ptrptr':
            tg = self.pick('ptr')
            if not tg or tg.name == n:
                return
            self.emit('%s **%s = &%s;' % (tg.type, n, tg.name), None, ind)
            self.scopes[-1][n] = V(n, 'ptrptr', tg.type, ln)
        elif k == 'arr':
            t = r.choice([t for t in INTTYPES if t != 'char'])
            m = r.randint(2, 5)
            self.emit('%s%s %s[%d];' % (static, t, n, m), None, ind)
            self.scopes[-1][n] = V(n, 'arr', t, ln, m)
            if not glob and not static:
                self.emit(' '.join('%s[%d] = %d;' % (n, i, r.randint(0, 90)) for i in range(m)), None, ind)
        elif k == 'str':
            self.emit('%schar *%s = "%s";' % (static, n, r.choice(['one', 'two', 'some text', 'x%d'])), None, ind)
            self.scopes[-1][n] = V(n, 'str', 'char', ln)
        elif k == 'comp' and self.structs:
            s = r.choice(list(self.structs))
            self.emit('%s%s %s;' % (static, s, n), None, ind)
            self.scopes[-1][n] = V(n, 'comp', s, ln, st=s.split()[1])
            if not glob and not static:
                self.emit(' '.join('%s.%s = %d;' % (n, m, r.randint(0, 90)) for m, t in self.structs[s] if t in BITS) + ' ' +
                          ' '.join('%s.%s = 0;' % (n, m) for m, t in self.structs[s] if t not in BITS), None, ind)
        elif k == 'sptr' and self.structs:
            tg = self.pick('comp')
            if not tg or tg.name == n:
                return
            self.emit('%s *%s = &%s;' % (tg.type, n, tg.name), None, ind)
            self.scopes[-1][n] = V(n, 'sptr', tg.type, ln, st=tg.type.split()[1])

    # ---- expressions over what's visible
    def term(self):
        r = self.rng
        v = self.pick('int', 'int', 'ptr', 'arr', 'comp', 'sptr', 'const')
        if not v or r.random() < .2:
            return str(r.randint(0, 50))
        if v.kind in ('int', 'const'):
            return v.name
        if v.kind == 'ptr':
            return '*' + v.name
        if v.kind == 'arr':
            return '%s[%d]' % (v.name, r.randrange(v.n))
        m = [x for x, t in self.structs[v.type] if t in BITS]
        return v.name + ('.' if v.kind == 'comp' else '->') + r.choice(m)

    def lval(self):
        for _ in range(20):
            t = self.term()
            if not t.isdigit() and (t not in self.visible() or self.visible()[t].kind != 'const'):
                return t
        return None

    def expr(self):
        """An int in 0..96, whatever the objects hold."""
        r = self.rng
        a = ' + '.join('(int)' + self.term() for _ in range(r.randint(1, 3)))
        return '(%s) %% 97' % a

    # ---- lines entered in a session
    def item(self):
        """(text, reference code, kind)"""
        r = self.rng
        vis = self.visible()
        k = r.choice(self.kinds)
        if k == 'value':
            v = self.pick('int', 'int', 'flt', 'ptr', 'arr', 'str', 'comp', 'sptr', 'const', 'ptrptr')
            if not v:
                return None
            if v.kind in ('int', 'const'):
                e = v.name
            elif v.kind == 'flt':
                return v.name + ';', 'SHOWF(%s);' % v.name, k
            elif v.kind == 'str':
                return v.name + ';', 'SHOWS(%s);' % v.name, k
            elif v.kind == 'comp':
                return v.name + ';', 'V(); %s printf("\\n");' % self.show(v.name, v.type), k
            elif v.kind in ('sptr', 'ptrptr') or r.random() < .3:
                if v.kind == 'ptr' and r.random() < .6:
                    o = self.pick('ptr', 'int')
                    if o.type == v.type:
                        e = '%s == %s%s' % (v.name, '&' if o.kind == 'int' else '', o.name)
                        return e + ';', 'SHOWI(%s);' % e, k
                if v.kind == 'arr' and r.random() < .5:
                    e = '%s == &%s[%d]' % (v.name, v.name, r.randint(0, 1))
                    return e + ';', 'SHOWI(%s);' % e, k
                return v.name + ';', 'SHOWP(%s);' % v.name, k
            else:
                e = self.term()
            return e + ';', 'SHOWI(%s);' % e, k
        if k == 'expr':
            e = self.expr()
            return e + ';', 'SHOWI(%s);' % e, k
        if k == 'assign':
            l = self.lval()
            if not l:
                return None
            s = '%s = %s' % (l, r.choice([str(r.randint(0, 96)), self.expr()]))
            return s + ';', 'SHOWI(%s);' % s, k
        if k == 'call':
            e = r.choice(['tick()', 'addg(%d)' % r.randint(0, 9), 'tick() + tick() * 0'])
            return e + ';', 'SHOWI(%s);' % e, k
        if k == 'nested' and self.fns:
            f = r.choice(self.fns)
            e = '%s(%s)' % (f[0], ', '.join(str(r.randint(0, 20)) for _ in range(f[1])))
            return e + ';', 'SHOWI(%s);' % e, k
        if k == 'printf':
            e = 'printf("<%%d>\\n", %s)' % self.expr()
            return e + ';', 'SHOWI(%s);' % e, k
        if k == 'decl':
            self.n += 1
            n = 'nv%d' % self.n
            v = self.expr()
            return 'int %s = %s;' % (n, v), 'int %s = %s; NAME("%s");' % (n, v, n), k, n
        if k == 'error':
            l = self.pick('int')
            if not l:
                return None
            return r.choice(ERR).replace('@', l.name), '', k
        if k == 'inspect':
            if r.random() < .12 and not (self.top and len(self.scopes) > 1):
                n = r.choice([x for x in POOL + ['nosuch'] if x not in vis])
                return '?' + n, 'printf("Object not found\\n");', k
            v = r.choice(list(vis.values()))
            return '?' + v.name, self.inspect(v), k
        if k == 'complete':
            if r.random() < .45:
                v = self.pick('comp', 'sptr')
                if v:
                    ms = [m for m, t in self.structs[v.type]]
                    pre = r.choice(['', '', r.choice(ms)[:1], r.choice(ms)[:2], r.choice(ms), 'zz'])
                    base = v.name + ('.' if v.kind == 'comp' else '->')
                    if v.kind == 'comp' and r.random() < .25:
                        base = '(&%s)->' % v.name
                    elif v.kind == 'sptr' and r.random() < .4:
                        base = r.choice(['(*%s).', '%s[0].']) % v.name
                    return '\x01' + base + pre, self.matches(base + m for m in ms if m.startswith(pre)), 'member completion'
            if self.top and not self.topcode:
                return None
            pre = r.choice(['zq', 'zqa', 'zqab', 'zqb', 'zqd', 'zqx', 'zqxy', 'zqabcd', 'zqf', 'zqe', 'zqz', 'nosuchprefix'])
            return '\x01' + pre, '@%s:%s@' % (pre, ','.join(vis)), 'identifier completion'
        if k == 'badcomplete':
            v = self.pick('int')
            t = r.choice(['nosuch.', '%s.', '%s->', '1.', '(.', 'nosuch->a', 'tick().', 'addg(3)->', 'f(.', '%s +.', '*.', '"x".', '%s[.', 'zqq.a.b', '3->x', '..', '.x', '->', 'a->b->', '%s.a', '&%s.', '(tick(), %s).',
                          'struct x.', '%s = 5.', '%s++.', '%s = 7->'])
            return '\x01' + t.replace('%s', v.name if v else 'none'), self.matches([]), 'completion of text that has none'
        return None

    def matches(self, ms):
        ms = sorted(set(ms))
        return 'printf("\\002C%s\\n");' % ''.join('\\003' + m for m in ms)

    def show(self, s, t):
        out = ['printf("{\\n");']
        for m, mt in self.structs[t]:
            out.append('printf(".%s = ");' % m)
            if mt in BITS:
                out.append('printf("%s", (%s)%s.%s);' % (('%lld', 'long long', s, m) if BITS[mt][1] else ('%llu', 'unsigned long long', s, m)))
            elif mt == 'char *':
                out.append('printf(%s.%s ? "%%p (\\"%%s\\")" : "(nil)", (void *)%s.%s, %s.%s);' % (s, m, s, m, s, m))
            else:
                out.append('printf("%%p", (void *)%s.%s);' % (s, m))
            out.append('printf("\\n");')
        return ' '.join(out + ['printf("}");'])

    def inspect(self, v):
        n = v.name
        out = 'printf("%s is a %s.\\n");' % (n, v.desc())
        if v.kind in ('fn',):
            return out + ' printf("%s was declared at: %s:%d\\n");' % (n, v.file, v.line)
        if v.kind in ('const', 'comp'):
            return out
        out += ' printf("value of %s is ");' % n
        if v.kind == 'int':
            out += ' { __typeof__(%s) v_ = %s; if ((__typeof__(v_ + 0))-1 < 0 || sizeof(v_) < 4) printf("%%lld\\n", (long long)v_); else printf("%%llu\\n", (unsigned long long)v_); }' % (n, n)
        elif v.kind == 'flt':
            out += ' printf("%%Lf\\n", (long double)%s);' % n
        elif v.kind == 'str':
            out += ' if (%s) printf("%%p (\\"%%s\\")\\n", (void *)%s, %s); else printf("(nil)\\n");' % (n, n, n)
        else:
            out += ' printf("%%p\\n", (void *)%s);' % n
        return out + ' printf("sizeof(%s) = %%d bytes.\\n", (int)sizeof(%s)); printf("%s was declared at: %s:%d\\n");' % (n, n, n, v.file, v.line)

    def stop(self, ind, prefix=''):
        """A <REPL> statement, with the lines for each time it is reached."""
        r = self.rng
        self.stops += 1
        k = self.stops
        cases = []
        for occ in range(3):
            code, names = [], []
            for _ in range(r.choice([0, 1, 3, 5, 8])):
                it = self.item()
                if not it:
                    continue
                i = len(self.lines)
                self.lines.append(it[0])
                self.count[it[2]] = self.count.get(it[2], 0)
                self.kindof = getattr(self, 'kindof', {})
                self.kindof[i] = it[2]
                code.append('printf("\\001L%d\\n"); %s' % (i, it[1]))
                if len(it) > 3:
                    names.append(it[3])
                    i = len(self.lines)
                    self.lines.append(it[3] + ';')
                    self.kindof[i] = 'value'
                    code.append('printf("\\001L%d\\n"); SHOWI(%s);' % (i, it[3]))
            cases.append('case %d: { %s } break;' % (occ, ' '.join(code)))
        self.emit(prefix + '<REPL>;', prefix + '{ static int occ_; switch (occ_++) { %s } printf("\\001X\\n"); }' % ' '.join(cases), ind)

    # ---- statements of the script
    def stmt(self, ind, depth):
        r = self.rng
        k = r.randint(0, 13)
        if k <= 2:
            l = self.lval()
            if l:
                self.emit('%s = %s;' % (l, self.expr()), None, ind)
        elif k <= 5 and self.stops < self.maxstops:
            self.stop(ind, r.choice(['', '', '', 'if (%s > 20) ' % self.expr()]))
        elif k == 6:
            self.emit('printf("t %%d\\n", %s);' % self.expr(), None, ind)
        elif k == 7 and depth:
            self.block(ind, depth - 1, 'if (%s > 30)' % self.expr())
        elif k == 8 and depth:
            self.n += 1
            i = 'i%d' % self.n
            self.scopes.append({})
            self.emit('for (int %s = 0; %s < %d; %s++)' % (i, i, r.randint(1, 3), i), None, ind)
            self.block(ind, depth - 1, None)
            self.scopes.pop()
        elif k == 9 and depth:
            self.block(ind, depth - 1, None)
        elif k == 10 and self.fns:
            f = r.choice(self.fns)
            self.emit('printf("%s %%d\\n", %s(%s));' % (f[0], f[0], ', '.join(self.expr() for _ in range(f[1]))), None, ind)
        elif k == 11 and depth:
            self.n += 1
            w = 'w%d' % self.n
            self.emit('int %s = %d;' % (w, r.randint(1, 2)), None, ind)
            self.emit('while (%s-- > 0)' % w, None, ind)
            self.block(ind, depth - 1, None)
        else:
            self.declare(ind)

    def block(self, ind, depth, head):
        if head:
            self.emit(head, None, ind)
        self.emit('{', None, ind)
        self.scopes.append({})
        for _ in range(self.rng.randint(1, 4)):
            self.stmt(ind + 1, depth)
        self.scopes.pop()
        self.emit('}', None, ind)

    def function(self):
        r = self.rng
        self.n += 1
        f = 'zqf%d' % self.n
        ps = []
        sc = {}
        ln = self.line
        for _ in range(r.randint(0, 3)):
            n = r.choice([x for x in POOL if x not in sc])
            t = r.choice(['int', 'long', 'short'])
            sc[n] = V(n, 'int', t, ln)
            ps.append('%s %s' % (t, n))
        self.scopes[0][f] = V(f, 'fn', 'int', ln)
        self.emit('int %s(%s) {' % (f, ', '.join(ps)))
        self.scopes.append(sc)
        for _ in range(r.randint(3, 8)):
            self.stmt(1, 2)
        self.emit('return %s;' % self.expr(), None, 1)
        self.scopes.pop()
        self.emit('}')
        # Parameters are declared where the function is.
        self.fns.append((f, len(ps)))

    def make(self, top=False):
        r = self.rng
        self.top = top
        self.emit('int printf(const char *f, ...);', '#include <stdio.h>\n#include <stdlib.h>\n' + REF_HEAD)
        self.emit('int cnt;')
        self.emit('int tick() { cnt++; printf("tick %d\\n", cnt); return cnt; }')
        self.emit('int addg(int a) { cnt = cnt + a; return cnt; }')
        for i in range(r.randint(1, 3)):
            ms = []
            for m in r.sample(['ma', 'mab', 'mb', 'mbc', 'nx', 'n', 'val'], r.randint(1, 5)):
                ms.append((m, r.choice(['int', 'short', 'long', 'char', 'unsigned char', 'void *', 'char *'])))
            if not any(t in BITS for m, t in ms):
                ms.append(('first', 'int'))
            s = 'struct zqs%d' % i
            self.structs[s] = ms
            self.emit('%s { %s };' % (s, ' '.join(t + (m if t[-1] == '*' else ' ' + m) + ';' for m, t in ms)))
        if r.random() < .6:
            ln = self.line
            self.emit('enum { zqea = %d, zqeb, zqec = 70 };' % r.randint(0, 30))
            for n in ('zqea', 'zqeb', 'zqec'):
                self.scopes[0][n] = V(n, 'const', 'int', ln)
        for _ in range(r.randint(3, 6)):
            self.declare(0)
        for _ in range(r.randint(1, 3)):
            self.function()
        ref_main = len(self.ref)
        if top:
            self.topcode = True
            # Code at the top level: its variables are those of the script.
            for _ in range(r.randint(3, 7)):
                self.stmt(0, 1)
            if self.stops < 2:
                self.stop(0)
            self.emit('printf("done\\n");')
            self.ref.insert(ref_main, 'int main() { setvbuf(stdout, 0, 1, 0);')
            self.ref.append('return 0; }')
        else:
            self.scopes[0]['main'] = V('main', 'fn', 'int', self.line)
            self.emit('int main() {', 'int main() { setvbuf(stdout, 0, 1, 0);')
            self.scopes.append({})
            for _ in range(r.randint(3, 8)):
                self.stmt(1, 2)
            if self.stops < 2:
                self.stop(1)
            for f, n in self.fns:
                self.emit('printf("%s %%d\\n", %s(%s));' % (f, f, ', '.join(self.expr() for _ in range(n))), None, 1)
            for v in list(self.visible().values()):
                if v.kind == 'int':
                    self.emit('printf("%s %%ld\\n", (long)%s);' % (v.name, v.name), None, 1)
            self.emit('return 0;', None, 1)
            self.emit('}')
        # When the script runs all of its functions and global variables exist.
        late = list(self.scopes[0]) if not top else [f for f, n in self.fns]
        self.ref = [re.sub('@([^:@]*):([^@]*)@', lambda m: self.matches(x for x in m.group(2).split(',') + late if x.startswith(m.group(1))), l) for l in self.ref]
        return self


def norm(t):
    """Matches of a completion are a set. The addresses of different objects may
    be equal if they don't exist at the same time."""
    def f(m):
        ms = m.group(1).split('\x03')[1:]
        if len(ms) > 1:
            pass
        return '\x02C' + ''.join('\x03' + x for x in sorted(set(ms))) + '\n'
    t = re.sub(r'\x02C([^\n]*)\n', f, t)
    t = re.sub(r'0x[0-9a-f]+', 'ADDR', t)
    return '\n'.join(l.lstrip(' \t') for l in t.split('\n'))


def fix_completion(t):
    """Without the text that readline is given first if there are several."""
    def f(m):
        ms = m.group(1).split('\x03')[1:]
        if len(ms) > 1:
            ms = ms[1:]
        return '\x02C' + ''.join('\x03' + x for x in ms) + '\n'
    return re.sub(r'\x02C([^\n]*)\n', f, t)


def reference(g, d):
    """(what to enter, expected output), or a reason why not."""
    K.write(d + '/ref.c', '\n'.join(g.ref) + '\n')
    r = K.run(['clang', '-o', 'ref.out'] + REF_FLAGS + ['ref.c'], cwd=d, timeout=120)
    if r.rc:
        return None, 'the reference does not compile: ' + r.err[:400]
    e = K.base_env()
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=0'
    r = K.run(['./ref.out'], cwd=d, env=e, timeout=20, merge=True, out_limit=2 << 20)
    if 'runtime error' in r.out:
        return None, 'undefined: ' + r.out[r.out.index('runtime error'):][:120]
    if r.rc or r.timeout or r.big:
        return None, 'the reference fails: %d' % r.rc
    enter, entered = [], []

    def f(m):
        if m.group(1) == 'v':
            return ''
        if m.group(1) == 'X':
            enter.append('\x04')
            return '\x02E\n'
        i = int(m.group(1)[1:])
        enter.append(g.lines[i])
        entered.append(i)
        return '' if g.lines[i][0] == '\x01' else '\x02L\n'
    out = re.sub(r'\x01(v|X|L\d+)\n', f, r.out)
    if len(enter) > 400:
        return None, 'too long'
    return ('\n'.join(enter) + '\n', out, entered), None


def check(c, g, d, gc, files=None, bic_args=()):
    K.write(d + '/p.c', '\n'.join(g.src) + '\n')
    ref, why = reference(g, d)
    if ref is None:
        c.count('scripts_discarded')
        return c.inconclusive_case(why)
    enter, exp, entered = ref
    r = K.bic(list(bic_args) + ['-s', 'p.c'], stdin=enter, rl=True, cwd=d, gc=gc, timeout=120)
    if r.timeout:
        return c.inconclusive_case('timeout')
    a, b = norm(exp), norm(fix_completion(r.out))
    nerr = sum(g.kindof[i] == 'error' for i in entered)
    why = r.crashed()
    if not why and r.rc:
        why = 'exit status %d' % r.rc
    if not why and a != b:
        why = 'output differs'
    if not why and r.err.count('Parser Error: ') < nerr:
        why = '%d lines with a syntax error, %d reports' % (nerr, r.err.count('Parser Error: '))
    c.case('\n'.join(g.src) + enter)
    for i in entered:
        c.count('entered: ' + g.kindof[i])
    c.count('sessions entered', enter.count('\x04'))
    c.sample(('\n'.join(g.src))[:1200])
    if why:
        la, lb = a.split('\n'), b.split('\n')
        diff = ''
        for k in range(max(len(la), len(lb))):
            x, y = (la[k] if k < len(la) else None), (lb[k] if k < len(lb) else None)
            if x != y:
                diff = 'line %d of the output: expected %r, observed %r' % (k + 1, x, y)
                n = sum(l in ('\x02L', '\x02E') or l[:2] == '\x02C' for l in lb[:k + 1])
                ent = enter.split('\n')
                diff += ', having read %r' % ent[max(0, n - 2):n]
                break
        c.violation('%s; exit %d; %s; %s' % (why, r.rc, diff, r.err.replace('\x02L\n', '').replace('\x02C\n', '')[-400:]),
                    {'p.c': '\n'.join(g.src) + '\n', 'enter.txt': enter, 'expected.txt': a, 'observed.txt': b, 'stderr.txt': r.err[:20000],
                     'replay.txt': 'BIC_VERIF_RL=1 bic -s p.c < enter.txt, with collections %s\n' % gc})
