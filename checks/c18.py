"""The <REPL> statement suspends a script without disturbing it."""
import random
from lib import common as K
from lib.scriptrepl import SR, check

KINDS = ['value'] * 5 + ['expr'] * 2 + ['assign'] * 5 + ['call', 'nested', 'printf', 'decl', 'error', 'inspect', 'complete']


def run(c):
    c.rule = ('Random scripts (functions, nested blocks, loops, code at the top level; shadowed variables of all kinds) with <REPL> statements, each entered several times with lines that print and assign '
              'visible objects, declare, call functions that open the REPL themselves, and fail to parse; the whole output is compared with a C program that has the code of the lines in these places. '
              'Non-trivial: a new script and what is entered.')
    n = 120 if not K.THOROUGH else 2000
    seeds = [c.rng.random() for _ in range(n)]
    gcs = ['37', None, '300:%d']

    def f(i):
        if len(c.violations) >= 4:
            return
        g = SR(random.Random(seeds[i]), KINDS).make(top=i % 4 == 3)
        gc = gcs[i % 3]
        check(c, g, K.scratch(), gc % (c.seed * 100 + i) if gc and '%d' in gc else gc)
    K.pmap(f, range(n))
    return 30
