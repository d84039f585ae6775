"""Differential monitoring: the same program run by bic (monitored) and as
compiled by the host C compiler; the observed outputs must be the same.

Cases are put together in programs for speed; a disagreement is reported for
the single case that shows it.  The reference is compiled with clang's
undefined-behaviour checks, and a case in which they fire is discarded: it
isn't a case the property speaks about."""
import copy, os, re
from . import common as K

REF_FLAGS = ['-O0', '-w', '-std=gnu11', '-fno-builtin', '-ffp-contract=off',
             '-fsanitize=undefined,unsigned-integer-overflow',
             '-fno-sanitize=alignment,function,object-size,vptr',
             '-fsanitize-recover=all']
SIGN_FLAGS = ['-fsanitize=implicit-integer-sign-change']


class Case:
    """`$' in the texts stands for something unique to the case."""

    def __init__(self, body, globs='', key=None, tags=()):
        self.body, self.globs, self.tags = body, globs, tags
        self.key = key if key is not None else globs + '\x00' + body

    def inst(self, n):
        return self.globs.replace('$', 'c%d' % n), self.body.replace('$', 'c%d' % n)


class Config:
    def __init__(self, includes=('stdio.h',), ref_flags=(), libs=(), bic_args=(), variant='asan',
                 gcs=('37', '400:%d', None), files=None, timeout=60, prelude='', ref_src=None,
                 ref_env=None, sign=False, env=None, prelude_ref=None, sessions=0):
        # Every sessions-th program is a session of the REPL that includes what the cases define at file scope.
        self.__dict__.update(locals())
        del self.self
        self.session = False

    def as_session(self):
        c = copy.copy(self)
        c.session = True
        return c


def program(cases, cfg, ref=False):
    inc = ''.join('#include <%s>\n' % i for i in cfg.includes)
    pre = cfg.prelude_ref if ref and cfg.prelude_ref is not None else cfg.prelude
    out = [inc, pre]
    main = []
    for n, c in enumerate(cases):
        g, b = c.inst(n)
        out.append(g + '\nvoid casefn_%d()\n{\n%s\n}\n' % (n, b))
        main.append('    printf("#%d\\n");\n    casefn_%d();\n' % (n, n))
    out.append('int main()\n{\n    setvbuf(stdout, 0, 1, 0);\n%s    printf("#end\\n");\n    return 0;\n}\n'
               % ''.join(main))
    return '\n'.join(out)


def session(cases, cfg):
    """(headers, lines) of a session that does what the program of the cases does."""
    files, lines = {}, []
    inc = ''.join('#include <%s>\n' % i for i in cfg.includes)
    files['first.h'] = inc + cfg.prelude + '\n'
    lines.append('#include <first.h>')
    for n, c in enumerate(cases):
        g, b = c.inst(n)
        fn = 'void casefn_%d()\n{\nputs("\\n#%d");\n%s\nputs("#/");\n}\n' % (n, n, b)
        files['case%d.h' % n] = g + '\n'
        files['fn%d.h' % n] = fn
        lines += ['#include <case%d.h>' % n, '#include <fn%d.h>' % n]
        lines.append('casefn_%d();' % n)
    lines.append('puts("\\n#end");')
    return files, lines


def observe_session(cases, cfg, d, gc, timeout=None):
    files, lines = session(cases, cfg)
    os.makedirs(d + '/inc', exist_ok=True)
    for f, t in files.items():
        K.write('%s/inc/%s' % (d, f), t)
    text = ''.join(l + '\n' for l in lines)
    K.write(d + '/session.txt', text)
    r = K.bic(list(cfg.bic_args) + ['-I', 'inc'], stdin=text, variant=cfg.variant, gc=gc, cwd=d, home=d, rl=True, timeout=timeout or cfg.timeout, env=cfg.env)
    out = ''
    for m in re.finditer(r'^#(\d+)\n(.*?)(?:^#/\n|\Z)', r.out, re.M | re.S):
        out += '#%s\n%s' % m.groups()
    if re.search(r'^#end$', r.out, re.M):
        out += '#end\n'
    r.out = out
    return r


def sections(text):
    parts = re.split(r'^#(\d+|end)\n', text, flags=re.M)
    return {parts[i]: parts[i + 1] for i in range(1, len(parts) - 1, 2)}


def reference(src, cfg, d):
    """(sections by the compiled program, set of invalid ones) or None."""
    p = K.write(os.path.join(d, 'ref.c'), src)
    exe = os.path.join(d, 'ref.out')
    cc = ['clang', '-o', exe] + REF_FLAGS + (SIGN_FLAGS if cfg.sign else []) + \
        list(cfg.ref_flags) + [p] + list(cfg.libs)
    r = K.run(cc, timeout=120)
    if r.rc:
        return None, r.err
    e = K.base_env()
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=0:suppress_equal_pcs=0'
    e.update(cfg.ref_env or {})
    r = K.run([exe], cwd=d, env=e, timeout=30, merge=True)
    s = sections(r.out)
    bad = {k for k, v in s.items() if 'runtime error:' in v or 'Sanitizer' in v}
    if 'end' not in s or r.rc:
        bad |= {sorted(s, key=lambda k: int(k) if k != 'end' else 1 << 30)[-1]} if s else set()
    return (s, bad, r), None


def observe(cases, cfg, d, gc, timeout=None):
    if cfg.session:
        return observe_session(cases, cfg, d, gc, timeout)
    K.write(os.path.join(d, 'prog.c'), program(cases, cfg))
    return K.bic(list(cfg.bic_args) + ['-s', 'prog.c'], variant=cfg.variant, gc=gc, cwd=d,
                 timeout=timeout or cfg.timeout, env=cfg.env)


def mkdir(cfg):
    d = K.scratch()
    for n, t in (cfg.files or {}).items():
        K.write(os.path.join(d, n), t)
    return d


def single(check, case, cfg, gc):
    """Decide one case by itself: 'ok', 'invalid', 'inconclusive' or a violation."""
    d = mkdir(cfg)
    ref, err = reference(program([case], cfg, True), cfg, d)
    if ref is None:
        return 'invalid', err
    s, bad, rr = ref
    if '0' in bad or 'end' not in s or rr.rc:
        return 'invalid', rr.out
    r = observe([case], cfg, d, gc, cfg.timeout * 2)
    t = sections(r.out)
    why = r.crashed()
    if not why and r.timeout:
        r = observe([case], cfg, d, gc, cfg.timeout * 3)
        if r.timeout and rr.wall < 1:
            why = 'does not terminate (the compiled program took %.2f s)' % rr.wall
        elif r.timeout:
            return 'inconclusive', 'timeout'
        t = sections(r.out)
        why = why or r.crashed()
    if not why and t.get('0') != s['0']:
        why = 'output differs'
    if not why and (r.rc != 0 or 'end' not in t):
        why = 'exit status %d' % r.rc
    if not why:
        return 'ok', None
    return 'violation', (why, s['0'], t.get('0', r.out), r.err, r.rc)


def report(check, case, cfg, gc, info, what=''):
    why, exp, got, err, rc = info
    line = ''
    for a, b in zip(exp.split('\n') + [''], got.split('\n') + ['']):
        if a != b:
            line = 'expected %r, observed %r' % (a[:200], b[:200])
            break
    if cfg.session:
        files, lines = session([case], cfg)
        check.violation('in a session with a header: %s; %s; exit %s; %s (collection schedule: %s)' % (why, line, rc, err[:600].strip(), gc),
                        dict(files, **{'session.txt': '\n'.join(lines) + '\n', 'expected.txt': exp, 'observed.txt': got, 'stderr.txt': err[:20000],
                                       'replay.txt': 'bic -I . < session.txt'}), key=why + ' ' + line + ' ' + err[:300])
        return
    check.violation('%s%s; %s; exit %s; %s (collection schedule: %s)'
                    % (what, why, line, rc, err[:600].strip(), gc),
                    {'prog.c': program([case], cfg), 'expected.txt': exp, 'observed.txt': got,
                     'stderr.txt': err[:20000],
                     'replay.sh': '#!/bin/bash\n# usage: replay.sh path-to-bic\ncd "$(dirname "$0")"\n'
                     '%s "$1" %s -s prog.c\n' % ('BIC_VERIF_GC=%s' % gc if gc else '',
                                                 ' '.join(cfg.bic_args))},
                    key=why + ' ' + line + ' ' + err[:300])


def run_batch(check, cases, cfg, gc):
    d = mkdir(cfg)
    ref, err = reference(program(cases, cfg, True), cfg, d)
    todo = list(range(len(cases)))
    if ref is None:
        # Some case isn't C: take them one by one.
        check.count('reference_programs_rejected')
        if len(cases) == 1:
            check.inconclusive_case('reference compiler: ' + err[:300])
            return
        h = len(cases) // 2
        run_batch(check, cases[:h], cfg, gc)
        run_batch(check, cases[h:], cfg, gc)
        return
    s, bad, rr = ref
    r = observe(cases, cfg, d, gc)
    if cfg.session:
        check.count('sessions with the cases in headers')
    t = sections(r.out)
    suspects = []
    orderly = not r.crashed() and r.rc == 0 and 'end' in t and not r.timeout
    for n, c in enumerate(cases):
        k = str(n)
        if k in bad or k not in s:
            check.count('cases_with_undefined_behaviour_discarded')
            continue
        if t.get(k) == s[k] and (orderly or str(n + 1) in t):
            check.case(c.key)
            check.count('lines_compared', s[k].count('\n'))
            for tag in c.tags:
                check.count(tag)
            continue
        suspects.append((n, c))
    if not suspects and not orderly and not bad:
        suspects = list(enumerate(cases))
    n_bad = 0
    for n, c in suspects:
        verdict, info = single(check, c, cfg, gc)
        if verdict == 'ok':
            check.case(c.key)
            check.count('cases_decided_by_themselves')
        elif verdict == 'violation':
            check.case(c.key)
            report(check, c, cfg, gc, info)
            n_bad += 1
            if n_bad >= 3:
                break
        elif verdict == 'inconclusive':
            check.inconclusive_case('%s: %s' % (info, c.key[:200]))
        else:
            check.count('cases_with_undefined_behaviour_discarded')
    if suspects and not n_bad and not bad:
        # Only the program as a whole shows it.
        r2 = observe(cases, cfg, d, gc, cfg.timeout * 2)
        t2 = sections(r2.out)
        why = r2.crashed()
        if r2.timeout:
            check.inconclusive_case('timeout of a whole program')
        elif why or r2.rc or t2 != s:
            diff = [k for k in s if s[k] != t2.get(k)]
            k = diff[0] if diff else '0'
            check.violation('a program of %d cases: %s; exit %d; section %s: expected %r observed %r; %s'
                            % (len(cases), why or 'output differs', r2.rc, k, s.get(k, '')[:300],
                               t2.get(k, '')[:300], r2.err[:400]),
                            {'prog.c': program(cases, cfg), 'observed.txt': r2.out,
                             'expected.txt': rr.out, 'stderr.txt': r2.err[:20000]})


def differential(check, cases, cfg, batch=25):
    cases = list(cases)
    batches = [cases[i:i + batch] for i in range(0, len(cases), batch)]
    gcs = []
    for i in range(len(batches)):
        g = cfg.gcs[i % len(cfg.gcs)]
        gcs.append(g % (check.seed * 1000 + i) if g and '%d' in g else g)
    for c in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1] + cases[-1:]:
        g, b = c.inst(0)
        check.sample((g + '\n{\n' + b + '\n}')[:1500])

    def one(a):
        if len(check.violations) >= 6:
            return
        run_batch(check, a[0], cfg.as_session() if cfg.sessions and a[2] % cfg.sessions == cfg.sessions - 1 else cfg, a[1])
    K.pmap(one, list(zip(batches, gcs, range(len(batches)))))
    check.count('programs', len(batches))
