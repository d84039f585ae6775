"""C programs as trees: read from the dumps of bic, rendered as C source.

Expressions: ('int', v) ('flt', v) ('str', bytes) ('id', n) ('call', f, [e]) ('idx', e, e) ('mem', e, name) ('un', op, e)
('post', op, e) ('bin', op, a, b) ('cond', c, t, f) ('assign', l, r) ('cast', type, e) ('sizeof', e or type) ('list', [e])
Declarators: ('id', n) None ('ptr', d) ('arr', d, size) ('fn', d, params or None, body or None) ('bit', d, size) ('init', d, e)
Types: ('type', specs, declarator).  Specifiers: 'int'.. ('comp', 'struct', tag, members) ('enum', tag, [(name, e)]) ('name', n)
Statements: ('expr', e) ('decl', specs, declarators) ('if', c, [..], [..]) ('while', c, [..]) ('for', i, c, a, [..])
('block', [..]) ('ret', e) ('break',) ('repl',) ('empty',)"""
import re


class Malformed(Exception):
    pass


# ---------------------------------------------------------------- dumps
TOK = re.compile(r'\s*(?:(<tree) (\w+)|(<chain)|(<null>)|(>)|(t\w+): ?|("(?:[^"\\]|\\.)*")|([^\s<>"]+))')


def read_text(text):
    """The dump as ('NODE', {property: value}); chains are lists, null is None."""
    pos = 0
    text = text.rstrip()

    def tok():
        nonlocal pos
        m = TOK.match(text, pos)
        if not m:
            raise Malformed('text at %r' % text[pos:pos + 60])
        pos = m.end()
        return m

    def value():
        m = tok()
        if m.group(1):
            props, name = {}, m.group(2)
            while True:
                m = tok()
                if m.group(5):
                    return (name, props)
                if not m.group(6):
                    raise Malformed('no property at %r' % text[pos - 30:pos + 30])
                if m.group(6) in props:
                    raise Malformed('property %s twice' % m.group(6))
                props[m.group(6)] = value()
        if m.group(3):
            out = []
            while True:
                m = TOK.match(text, pos)
                if m and m.group(5):
                    tok()
                    return out
                out.append(value())
        if m.group(4):
            return None
        if m.group(7) or m.group(8):
            return ('=', m.group(7) or m.group(8))
        raise Malformed('no value at %r' % text[pos - 30:pos + 30])
    v = value()
    if pos != len(text):
        raise Malformed('more text: %r' % text[pos:pos + 60])
    return v


ID = r'[A-Za-z_]\w*'
STR = r'"((?:[^"\\]|\\.)*)"'
DOT_LINE = re.compile(r'^\s*(?:(?P<open>subgraph (?P<sub>%s) \{)|(?P<close>\})|(?P<n>%s) \[label=(?P<nl>%s)\];|(?P<a>%s) -> (?P<b>%s) ?\[(?P<attrs>[^\]"]*(?:"(?:[^"\\]|\\.)*")?[^\]"]*)\];|compound=true)\s*$'
                      % (ID, ID, STR, ID, ID))


def read_dot(text):
    """The same from the description of a graph."""
    lines = text.rstrip('\n').split('\n')
    if lines[0] != 'digraph tree_dump {' or lines[-1] != '}':
        raise Malformed('not a graph')
    depth = 0
    labels, edges, nxt, order = {}, {}, {}, []
    target = set()
    clusters = {}
    stack = []
    for l in lines[1:-1]:
        m = DOT_LINE.match(l)
        if not m:
            raise Malformed('line %r' % l[:200])
        if m.group('open'):
            depth += 1
            stack.append(m.group('sub'))
            clusters.setdefault(m.group('sub'), set())
        elif m.group('close'):
            depth -= 1
            if depth < 0:
                raise Malformed('unbalanced }')
            stack.pop()
        elif m.group('n'):
            n, lab = m.group('n'), m.group('nl')[1:-1]
            if labels.setdefault(n, lab) != lab:
                raise Malformed('node %s has labels %r and %r' % (n, labels[n], lab))
            order.append(n)
            for s in stack:
                clusters[s].add(n)
        elif m.group('a'):
            a, b, at = m.group('a'), m.group('b'), m.group('attrs')
            lab = re.search(r'label="((?:[^"\\]|\\.)*)"', at)
            if lab:
                chain = 'dashed' in at
                e = edges.setdefault(a, {})
                if e.setdefault(lab.group(1), (b, chain)) != (b, chain):
                    raise Malformed('edges %s of %s lead to %s and %s' % (lab.group(1), a, e[lab.group(1)], b))
                target.add(b)
            else:
                if nxt.setdefault(a, b) != b:
                    raise Malformed('two successors of %s' % a)
                m = re.search(r'ltail=(\w+), lhead=(\w+)', at)
                if not m or a not in clusters.get(m.group(1), ()) or m.group(2) not in clusters or b not in clusters[m.group(2)]:
                    raise Malformed('edge between clusters %s' % at)
                target.add(b)
    if depth:
        raise Malformed('unbalanced {')
    for n in target:
        if n not in labels:
            raise Malformed('node %s has no label' % n)

    def chain(n):
        out = []
        while n:
            out.append(node(n))
            n = nxt.get(n)
        return out

    def node(n):
        props = {}
        for lab, (b, ch) in edges.get(n, {}).items():
            if ch:
                props[lab] = chain(b)
            elif b.startswith(n + '_'):
                props[lab] = ('=', unescape_label(labels[b]))
            else:
                props[lab] = node(b)
        return (labels[n], props)
    roots = [n for n in order if n not in target]
    if len(roots) != 1:
        raise Malformed('%d nodes without a parent' % len(roots))
    return chain(roots[0])


def unescape_label(s):
    return re.sub(r'\\(["\\])', r'\1', s)


def same(a, b, path=''):
    """None, or where the tree of a text differs from that of a graph, which
    has no empty properties, short names of them, and strings without quotes."""
    if isinstance(a, list) or isinstance(b, list):
        if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
            return path + ': different chains'
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, '%s/%d' % (path, i))
            if r:
                return r
        return None
    if a[0] != b[0]:
        return '%s: %s and %s' % (path, a[0], b[0])
    if a[0] == '=':
        x = a[1]
        if x[0] == '"':
            x = x[1:-1]
        return None if x == b[1] else '%s: %r and %r' % (path, a[1], b[1])
    pa = [(k, v) for k, v in a[1].items() if v is not None and v != []]
    pb = list(b[1].items())
    if len(pa) != len(pb):
        return '%s/%s: properties %s and %s' % (path, a[0], [k for k, v in pa], [k for k, v in pb])
    for (k, v), (l, w) in zip(pa, pb):
        if not k.endswith('_' + l):
            return '%s/%s: properties %s and %s' % (path, a[0], k, l)
        r = same(v, w, '%s/%s.%s' % (path, a[0], l))
        if r:
            return r
    return None


# ---------------------------------------------------------------- from a dump
BIN = {'T_MUL': '*', 'T_DIV': '/', 'T_MOD': '%', 'T_ADD': '+', 'T_SUB': '-', 'T_LSHIFT': '<<', 'T_RSHIFT': '>>', 'T_LT': '<', 'T_GT': '>', 'T_LTEQ': '<=', 'T_GTEQ': '>=', 'T_EQ': '==', 'T_N_EQ': '!=',
       'T_L_OR': '||', 'T_I_OR': '|', 'T_X_OR': '^', 'T_I_AND': '&', 'T_L_AND': '&&'}
UN = {'T_NEGATE': '!', 'T_ONES_COMP': '~', 'T_ADDR': '&', 'T_DEREF': '*', 'T_INC': '++', 'T_DEC': '--'}
POST = {'T_P_INC': '++', 'T_P_DEC': '--'}
SPEC = {'T_TYPEDEF': 'typedef', 'T_EXTERN': 'extern', 'T_STATIC': 'static', 'T_AUTO': 'auto', 'T_REGISTER': 'register', 'T_VOID_TS': 'void', 'T_CHAR_TS': 'char', 'T_SHORT_TS': 'short', 'T_INT_TS': 'int',
        'T_LONG_TS': 'long', 'T_FLOAT_TS': 'float', 'T_DOUBLE_TS': 'double', 'T_SIGNED_TS': 'signed', 'T_UNSIGNED_TS': 'unsigned', 'T_BOOL_TS': '_Bool'}
ESC = {'n': 10, 't': 9, '"': 34, '\\': 92}


def get(t, suffix):
    """The property of a node, whatever prefix its name has."""
    for k, v in t[1].items():
        if k == suffix or k.endswith('_' + suffix) and (k.count('_') == suffix.count('_') + 1 or k[:-len(suffix) - 1] in
                                                        ('tCOMP_DECL', 'tCOMP_ACCESS', 'tARR_ACCESS', 'tEXPR_LIST', 'tTYPE_SPECIFIER', 'tONES_COMP', 'tL_OR', 'tI_OR', 'tX_OR', 'tI_AND', 'tL_AND', 'tN_EQ')):
            return v
    raise Malformed('%s has no %s: %s' % (t[0], suffix, list(t[1])))


def scalar(v):
    if not v or v[0] != '=':
        raise Malformed('no scalar: %r' % (v,))
    return v[1]


def string(v):
    s = scalar(v)
    if s[0] != '"':
        raise Malformed('no string: %r' % s)
    out, i, s = [], 0, s[1:-1]
    while i < len(s):
        if s[i] == '\\':
            m = re.match(r'[0-7]{3}', s[i + 1:])
            if m:
                out.append(int(m.group(0), 8))
                i += 4
                continue
            out.append(ESC[s[i + 1]])
            i += 2
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def expr(t):
    if isinstance(t, list):
        return ('inits', [init(x) for x in t])
    n = t[0]
    if n == 'T_INTEGER':
        return ('int', int(scalar(get(t, 'VAL'))))
    if n == 'T_FLOAT':
        return ('flt', float(scalar(get(t, 'VAL'))))
    if n == 'T_STRING':
        return ('str', string(get(t, 'VAL')))
    if n == 'T_IDENTIFIER':
        return ('id', string(get(t, 'STR')).decode())
    if n in BIN:
        a, b = expr(get(t, 'LHS')), expr(get(t, 'RHS'))
        return minus(b) if n == 'T_SUB' and a == ('int', 0) else ('bin', BIN[n], a, b)
    if n in UN:
        return ('un', UN[n], expr(get(t, 'EXP')))
    if n in POST:
        return ('post', POST[n], expr(get(t, 'EXP')))
    if n == 'T_FN_CALL':
        return ('call', expr(get(t, 'ID')), [expr(x) for x in get(t, 'ARGS') or []])
    if n == 'T_ARRAY_ACCESS':
        return ('idx', expr(get(t, 'OBJ')), expr(get(t, 'IDX')))
    if n == 'T_COMP_ACCESS':
        return ('mem', expr(get(t, 'OBJ')), expr(get(t, 'MEMBER'))[1])
    if n == 'T_CAST':
        return ('cast', typename(get(t, 'NEWTYPE')), expr(get(t, 'EXP')))
    if n == 'T_SIZEOF':
        e = get(t, 'EXP')
        return ('sizeof', typename(e) if e[0] == 'T_TYPE_SPECIFIER' else expr(e))
    if n == 'T_INFIX':
        return ('cond', expr(get(t, 'COND')), expr(get(t, 'TRUE_STMT')), expr(get(t, 'FALSE_STMT')))
    if n == 'T_ASSIGN':
        return ('assign', expr(get(t, 'LHS')), expr(get(t, 'RHS')))
    if n == 'T_EXPR_LIST':
        es = [expr(x) for x in get(t, 'CHAIN')]
        return es[0] if len(es) == 1 else ('list', es)
    raise Malformed('no expression: ' + n)


def init(t):
    if isinstance(t, tuple) and t[0] == 'T_ASSIGN' and isinstance(get(t, 'LHS'), list):
        ds = []
        for x in get(t, 'LHS'):
            ds.append(('[', expr(get(x, 'IDX'))) if x[0] == 'T_ARRAY_ACCESS' else ('.', expr(get(x, 'MEMBER'))[1]))
        return ('des', ds, expr(get(t, 'RHS')))
    return expr(t)


def minus(e):
    """-e"""
    return (e[0], -e[1]) if e[0] in ('int', 'flt') else ('bin', '-', ('int', 0), e)


def typename(t):
    if t[0] != 'T_TYPE_SPECIFIER':
        raise Malformed('no type: ' + t[0])
    d = get(t, 'DECL')
    return ('type', specs(get(t, 'SPECS')), d and declarator(d))


def specs(c):
    out = []
    for t in c:
        n = t[0]
        if n in SPEC:
            out.append(SPEC[n])
        elif n == 'T_DECL_COMPOUND':
            i, d = get(t, 'ID'), get(t, 'DECLS')
            out.append(('comp', scalar(get(t, 'TYPE')), i and expr(i)[1], None if d is None else [decl(x) for x in d]))
        elif n == 'T_ENUMERATOR':
            i, d = get(t, 'NAME'), get(t, 'ENUMS')
            out.append(('enum', i and expr(i)[1], None if d is None else [(expr(get(x, 'LHS'))[1], expr(get(x, 'RHS'))) if x[0] == 'T_ASSIGN' else (expr(x)[1], None) for x in d]))
        elif n == 'T_IDENTIFIER':
            out.append(('name', expr(t)[1]))
        else:
            raise Malformed('no specifier: ' + n)
    return out


def declarator(t):
    if t is None:
        return None
    n = t[0]
    if n == 'T_IDENTIFIER':
        return expr(t)
    if n == 'T_POINTER':
        return ('ptr', declarator(get(t, 'EXP')))
    if n == 'T_ARRAY':
        s = get(t, 'SZ')
        return ('arr', declarator(get(t, 'DECL')), s and expr(s))
    if n == 'T_FN':
        a, b = get(t, 'ARGS'), get(t, 'STMTS')
        if a is not None:
            a = [('...',) if x[0] == 'T_VARIADIC' else expr(x) if x[0] == 'T_IDENTIFIER' else param(x) for x in a]
        return ('fn', declarator(get(t, 'DECL')), a, None if b is None else body(b))
    if n == 'T_BITFIELD':
        return ('bit', declarator(get(t, 'DECLARATOR')), expr(get(t, 'SZ')))
    if n == 'T_ASSIGN':
        return ('init', declarator(get(t, 'LHS')), expr(get(t, 'RHS')))
    raise Malformed('no declarator: ' + n)


def param(t):
    d = get(t, 'DECLS')
    return ('param', specs(get(t, 'SPECS')), d and declarator(d))


def decl(t):
    d = get(t, 'DECLS')
    return ('decl', specs(get(t, 'SPECS')), [declarator(x) for x in d or []])


def body(t):
    r = [stmt(x) for x in t] if isinstance(t, list) else [stmt(t)]
    return [x for x in r if x != ('empty',)]


def stmt(t):
    n = t[0]
    if n == 'T_DECL':
        return decl(t)
    if n == 'T_EMPTY':
        return ('empty',)
    if n == 'T_IF':
        e = get(t, 'ELSE_STMTS')
        return ('if', expr(get(t, 'COND')), body(get(t, 'TRUE_STMTS')), None if e is None else body(e))
    if n == 'T_LOOP_WHILE':
        return ('while', expr(get(t, 'COND')), body(get(t, 'STMTS')))
    if n == 'T_LOOP_FOR':
        i, c, a = get(t, 'INIT'), get(t, 'COND'), get(t, 'AFTER')
        return ('for', stmt(i), stmt(c), None if a is None else expr(a), body(get(t, 'STMTS')))
    if n == 'T_BLOCK':
        return ('block', body(get(t, 'STMTS')))
    if n == 'T_RETURN':
        e = get(t, 'EXP')
        return ('ret', None if e is None else expr(e))
    if n == 'T_BREAK':
        return ('break',)
    if n == 'T_REPL':
        return ('repl',)
    return ('expr', expr(t))


def program(dump):
    return [x for x in (stmt(t) for t in dump) if x != ('empty',)]


# ---------------------------------------------------------------- to C
PREC = {',': 1, '=': 2, '?': 3, '||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '==': 9, '!=': 9, '<': 10, '>': 10, '<=': 10, '>=': 10, '<<': 11, '>>': 11, '+': 12, '-': 12, '*': 13, '/': 13, '%': 13}
CAST, UNARY, POSTFIX, PRIMARY = 14, 15, 16, 17


def cstr(b):
    out = ''
    for x in b:
        if x in (34, 92):
            out += '\\' + chr(x)
        elif x == 10:
            out += '\\n'
        elif 32 <= x < 127:
            out += chr(x)
        else:
            out += '\\%03o' % x
    return '"' + out + '"'


class Render:
    """rng: also write parentheses that are not necessary."""

    def __init__(self, rng=None, literal=None):
        self.rng, self.literal = rng, literal

    def e(self, e, prec=0):
        s, p = self.e1(e)
        if p < prec or self.rng and self.rng.random() < .08:
            return '(' + s + ')'
        return s

    def e1(self, e):
        k = e[0]
        if k == 'int':
            if e[1] < 0:
                return '- ' + self.num(-e[1]), UNARY
            return self.num(e[1]), PRIMARY
        if k == 'flt':
            v = e[1]
            s = '%.30f' % abs(v)
            if float(s) != abs(v):
                s = '%.400f' % abs(v)
            s = s.rstrip('0')
            s += '0' if s.endswith('.') else ''
            return ('- ' + s, UNARY) if v < 0 else (s, PRIMARY)
        if k == 'str':
            return cstr(e[1]), PRIMARY
        if k == 'id':
            return e[1], PRIMARY
        if k == 'call':
            return '%s ( %s )' % (self.e(e[1], POSTFIX), ' , '.join(self.e(x, 2) for x in e[2])), POSTFIX
        if k == 'idx':
            return '%s [ %s ]' % (self.e(e[1], POSTFIX), self.e(e[2])), POSTFIX
        if k == 'mem':
            if e[1][0] == 'un' and e[1][1] == '*' and (not self.rng or self.rng.random() < .8):
                return '%s -> %s' % (self.e(e[1][2], POSTFIX), e[2]), POSTFIX
            return '%s . %s' % (self.e(e[1], POSTFIX), e[2]), POSTFIX
        if k == 'un':
            return '%s %s' % (e[1], self.e(e[2], UNARY if e[1] in ('++', '--') else CAST)), UNARY
        if k == 'neg':
            return '- %s' % self.e(e[1], CAST), UNARY
        if k == 'post':
            return '%s %s' % (self.e(e[2], POSTFIX), e[1]), POSTFIX
        if k == 'bin':
            p = PREC[e[1]]
            return '%s %s %s' % (self.e(e[2], p), e[1], self.e(e[3], p + 1)), p
        if k == 'cond':
            return '%s ? %s : %s' % (self.e(e[1], 4), self.e(e[2]), self.e(e[3], 3)), 3
        if k == 'assign':
            return '%s = %s' % (self.e(e[1], UNARY), self.e(e[2], 2)), 2
        if k == 'opassign':
            return '%s %s= %s' % (self.e(e[2], UNARY), e[1], self.e(e[3], 2)), 2
        if k == 'cast':
            return '( %s ) %s' % (self.type(e[1]), self.e(e[2], CAST)), CAST
        if k == 'sizeof':
            if e[1][0] == 'type':
                return 'sizeof ( %s )' % self.type(e[1]), UNARY
            s = self.e(e[1], UNARY)
            return 'sizeof %s' % s, UNARY
        if k == 'list':
            return ' , '.join(self.e(x, 2) for x in e[1]), 1
        if k == 'inits':
            return '{ %s }' % ' , '.join(self.init(x) for x in e[1]), PRIMARY
        raise ValueError(k)

    def num(self, v):
        if self.literal:
            return self.literal(v)
        return '%d' % v + ('U' if v > 2**63 - 1 else '')

    def init(self, x):
        if x[0] == 'des':
            return ' '.join('[ %s ]' % self.e(v, 3) if k == '[' else '. ' + v for k, v in x[1]) + ' = ' + self.initval(x[2])
        return self.initval(x)

    def initval(self, e):
        return self.e1(e)[0] if e[0] == 'inits' else self.e(e, 2)

    def type(self, t):
        d = self.d(t[2])
        return ' '.join(self.spec(s) for s in t[1]) + (' ' + d if d else '')

    def spec(self, s):
        if isinstance(s, str):
            return s
        if s[0] == 'name':
            return s[1]
        if s[0] == 'comp':
            return s[1] + (' ' + s[2] if s[2] else '') + ('' if s[3] is None else ' { %s }' % ' '.join(self.s(m) for m in s[3]))
        return 'enum' + (' ' + s[1] if s[1] else '') + ('' if s[2] is None else ' { %s }' % ' , '.join(n + (' = ' + self.e(v, 3) if v else '') for n, v in s[2]))

    def d(self, d, inner=False):
        if d is None:
            return ''
        k = d[0]
        if k == 'id':
            return d[1]
        if k == 'ptr':
            s = '* ' + self.d(d[1])
            return '( %s )' % s if inner else s
        if k == 'arr':
            return '%s [ %s ]' % (self.d(d[1], True), '' if d[2] is None else self.e(d[2], 2))
        if k == 'fn':
            a = d[2]
            a = '' if a is None else ' , '.join(self.param(x) for x in a) or 'void'
            return '%s ( %s )' % (self.d(d[1], True), a) + ('' if d[3] is None else ' ' + self.block(d[3]))
        if k == 'bit':
            return '%s : %s' % (self.d(d[1]), self.e(d[2], 3))
        if k == 'init':
            return '%s = %s' % (self.d(d[1]), self.initval(d[2]))
        raise ValueError(k)

    def param(self, p):
        if p[0] == '...':
            return '...'
        if p[0] == 'id':
            return p[1]
        return self.type(p)

    def block(self, ss):
        return '{\n%s }' % ''.join(self.s(x) + '\n' for x in ss)

    def body(self, ss, noif=False):
        if len(ss) == 1 and self.rng and ss[0][0] not in ('decl', 'block') and not (noif and ss[0][0] in ('if', 'while', 'for')) and self.rng.random() < .5:
            return self.s(ss[0])
        if not ss and self.rng and self.rng.random() < .5:
            return ';'
        return self.block(ss)

    def s(self, s):
        k = s[0]
        if k == 'expr':
            return self.e(s[1]) + ' ;'
        if k == 'decl':
            sp = ' '.join(self.spec(x) for x in s[1])
            ds = [self.d(d) for d in s[2]]
            fn = s[2][-1] if s[2] else None
            while fn and fn[0] == 'ptr':
                fn = fn[1]
            return sp + (' ' + ' , '.join(ds) if ds else '') + ('' if fn and fn[0] == 'fn' and fn[3] is not None else ' ;')
        if k == 'empty':
            return ';'
        if k == 'if':
            return 'if ( %s ) %s' % (self.e(s[1]), self.body(s[2], True)) + ('' if s[3] is None else '\nelse %s' % self.body(s[3]))
        if k == 'while':
            return 'while ( %s ) %s' % (self.e(s[1]), self.body(s[2]))
        if k == 'for':
            return 'for ( %s %s %s ) %s' % (self.s(s[1]), self.s(s[2]), '' if s[3] is None else self.e(s[3]), self.body(s[4]))
        if k == 'block':
            return self.block(s[1])
        if k == 'ret':
            return 'return ;' if s[1] is None else 'return %s ;' % self.e(s[1])
        if k == 'break':
            return 'break ;'
        if k == 'repl':
            return '<REPL> ;'
        raise ValueError(k)


def canon(x):
    """The form in which a dump can be: negated constants, a += b as a = a + b,
    lists of one expression as the expression."""
    if isinstance(x, list):
        return [canon(y) for y in x if y != ('empty',)]
    if not isinstance(x, tuple):
        return x
    if x and x[0] == 'neg':
        return minus(canon(x[1]))
    if x and x[0] == 'opassign':
        l = canon(x[2])
        return ('assign', l, cbin(x[1], l, canon(x[3])))
    if x and x[0] == 'bin':
        return cbin(x[1], canon(x[2]), canon(x[3]))
    if x and x[0] == 'for':
        return ('for', x[1] if x[1] == ('empty',) else canon(x[1]), x[2] if x[2] == ('empty',) else canon(x[2]), canon(x[3]), canon(x[4]))
    if x and x[0] == 'list' and len(x[1]) == 1:
        return canon(x[1][0])
    return tuple(canon(y) for y in x)


def cbin(op, a, b):
    return minus(b) if op == '-' and a == ('int', 0) else ('bin', op, a, b)
