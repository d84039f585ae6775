"""Random compound types, and every scalar inside an object of one."""
from .exprgen import INTTYPES, BITS, SIZE

FLT = ['float', 'double', 'long double']


class Ty:
    kind = 'scalar'

    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.__dict__.update(kw)


def scalar(t):
    return Ty('scalar', t)


class Types:
    def __init__(self, rng, pfx='S$', enums=False, flt=True, fnptr=True, maxdepth=3):
        self.rng, self.pfx, self.n, self.anon = rng, pfx, 0, 0
        self.decls, self.named = [], []
        self.flt, self.fnptr, self.maxdepth = flt, fnptr, maxdepth
        self.enum = None
        if enums and rng.random() < .5:
            self.decls.append('enum E%s { E%s_A, E%s_B = 7 };' % (pfx, pfx, pfx))
            self.enum = 'enum E%s' % pfx
        self.typedefs = []
        if rng.random() < .4:
            t = rng.choice(INTTYPES)
            self.decls.append('typedef %s T%s;' % (t, pfx))
            self.typedefs.append(('T%s' % pfx, t))

    def scalar(self):
        r = self.rng
        k = r.random()
        if k < .62 or not self.flt and k < .8:
            t = r.choice(INTTYPES)
            if self.typedefs and r.random() < .1:
                n, t = self.typedefs[0]
                return Ty('scalar', t, spelled=n)
            return Ty('scalar', t, spelled='unsigned' if t == 'unsigned int' and r.random() < .5 else t)
        if k < .78:
            t = r.choice(FLT)
            return Ty('scalar', t, spelled=t)
        if k < .84 and self.enum:
            return Ty('scalar', 'unsigned int', spelled=self.enum)
        if k < .88 and self.fnptr:
            return Ty('fnptr', 'int (*%s)(int)')
        t = r.choice(['char', 'int', 'void', 'short', 'double'])
        stars = r.choice(['*', '*', '**'])
        return Ty('ptr', t + ' ' + stars, spelled=t + ' ' + stars)

    def member(self, depth):
        r = self.rng
        k = r.random()
        if k < .2 and self.named:
            c = r.choice(self.named)
            if r.random() < .25:
                return Ty('ptr', c.spelled + ' *', spelled=c.spelled + ' *')
            base = c
        elif k < .35 and depth < self.maxdepth:
            base = self.compound(depth + 1, inline=True)
        else:
            base = self.scalar()
        if r.random() < .28 and base.kind != 'fnptr':
            return Ty('array', '', of=base, n=r.randint(1, 5))
        return base

    def declare(self, t, name):
        if t.kind == 'array':
            return '%s %s[%d]' % (t.of.spelled, name, t.n)
        if t.kind == 'fnptr':
            return t.name % name
        sp = t.spelled
        return sp + name if sp.endswith('*') else sp + ' ' + name

    def body(self, fields):
        return '{ %s }' % ' '.join(self.declare(t, n).rstrip() + ';' for n, t in fields)

    def rename(self, t, pre):
        fs = [(n and pre + n, self.rename(f, pre) if not n else f) for n, f in t.fields]
        return Ty('compound', '', tag=t.tag, fields=fs, spelled='%s %s' % (t.tag, self.body(fs)), inline=True)

    def compound(self, depth=0, inline=False):
        r = self.rng
        kind = 'union' if r.random() < .28 else 'struct'
        fields = []
        for i in range(r.randint(1, 6 if depth == 0 else 4)):
            t = self.member(depth)
            if t.kind == 'compound' and t.inline and r.random() < .3:
                # Anonymous: its members get names that differ from all others.
                self.anon += 1
                fields.append(('', self.rename(t, 'z%d' % self.anon)))
                continue
            fields.append(('%s%d' % (r.choice('abcmn'), i), t))
        body = self.body(fields)
        if inline:
            return Ty('compound', '', tag=kind, fields=fields, spelled='%s %s' % (kind, body), inline=True)
        self.n += 1
        tag = '%s_%d' % (self.pfx, self.n)
        if r.random() < .3:
            self.decls.append('typedef %s %s TT%s;' % (kind, body, tag))
            sp = 'TT' + tag
        else:
            self.decls.append('%s %s %s;' % (kind, tag, body))
            sp = '%s %s' % (kind, tag)
        t = Ty('compound', sp, tag=kind, fields=fields, spelled=sp, inline=False)
        self.named.append(t)
        return t


def leaves(t, path=''):
    """(path, type) of the scalars in an object; one member of each union."""
    if t.kind == 'compound':
        for n, f in t.fields:
            yield from leaves(f, path + '.' + n if n else path)
    elif t.kind == 'array':
        for i in range(t.n):
            yield from leaves(t.of, '%s[%d]' % (path, i))
    else:
        yield path, t


def nodes(t, path=''):
    """All sub-objects that have an address: (path, type)."""
    yield path, t
    if t.kind == 'compound':
        for n, f in t.fields:
            yield from (x for x in nodes(f, path + '.' + n if n else path) if n or x[0] != path)
    elif t.kind == 'array':
        for i in range(t.n):
            yield from nodes(t.of, '%s[%d]' % (path, i))


def has_union(t):
    return t.kind == 'compound' and (t.tag == 'union' or any(has_union(f) for n, f in t.fields)) or \
        t.kind == 'array' and has_union(t.of)
