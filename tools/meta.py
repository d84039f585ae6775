#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run in /verif)."""
import json, os, subprocess
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TESTS = 'The existing tests are some 70 fixed scripts whose output is compared once; '
P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe, technique, note, state=(), hook=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state, hook=hook))


DIFF = ('runtime monitoring: ASan/UBSan-instrumented interpreter on generated programs, online oracle = the same '
        'program compiled with the host C compiler (undefined cases discarded by UBSan)')
EXPL = ('Holds on every generated program observed (seeded, fresh on every seed); a passing run is not a proof. '
        'Trusts the host compiler as reference and its undefined-behaviour checks to discard invalid cases.')

prop('C01', 'Integer expressions have the values C gives them',
     'Every expression over integer literals and integer objects, made of the operators that bic implements '
     '(arithmetic, shifts, bitwise, comparison, logical, conditional, unary, pre/post increment and decrement, casts, '
     'assignments as operands) evaluates to the value that compiled C gives it, whenever C defines that value and every '
     'intermediate result fits its C type. && || and ?: evaluate only the operands that C evaluates, and side effects '
     'happen exactly once. Precedence and associativity are those of C.',
     ['inputs', 'programs'], 'all expressions of the stated operators, all operand values of all integer types',
     TESTS + 'a handful of constants per operator is tried, expressions are an unbounded space.',
     ['src/evaluate.c', 'src/parser.m4', 'src/lex.m4'],
     [('the per-operator evaluators on arbitrary-precision integers', 'src/evaluate.c'),
      ('the operator grammar', 'src/parser.m4')],
     ['printed values of scripts'], DIFF, EXPL)
prop('C02', 'Stores and conversions truncate, extend and round as C does',
     'A value stored into an object of any arithmetic or pointer type - by initialisation, assignment, compound '
     'assignment, increment, cast, parameter passing or return - is read back as the C conversion of that value to the '
     "object's type: modulo 2^N with the right sign, float and double rounded to nearest, long double exact. The value of an assignment is "
     'the converted one, and no store alters a neighbouring object.',
     ['inputs', 'programs'], 'all pairs of source and destination types, all values including the extremes of each type',
     TESTS + 'they store a few small values; the combinations of types and boundary values are not sampled.',
     ['src/evaluate.c', 'src/genctypes.cpp', 'src/c.lang'],
     [('assignment and conversion between live objects of each C type', 'src/evaluate.c'),
      ('table of C types', 'src/c.lang')],
     ['printed values of scripts'], DIFF, EXPL)
prop('C03', 'Control flow runs exactly the statements C runs',
     'Any nesting of if/else, for, while, blocks, break and return, with any controlling expressions, executes the same statements in the '
     'same order and number of times as the compiled program. A loop condition is evaluated once per iteration, an '
     'else belongs to the nearest if, and break or return leave exactly the innermost loop or the function.',
     ['programs', 'inputs'], 'all nestings and combinations of the control statements, all trip counts',
     TESTS + 'they contain a few loops; break or return at some depth of some nesting is not covered.',
     ['src/evaluate.c', 'src/parser.m4'],
     [('statement evaluators and the break/return results they pass up', 'src/evaluate.c')],
     ['trace printed by the script'], DIFF, EXPL)
prop('C04', 'Function calls follow C: arguments by value, results, recursion',
     'A call of a script-defined function, by name or through a pointer, binds each argument converted to the type of '
     'its parameter to a fresh object of that activation, evaluates the arguments in the scope of the caller, and yields the returned '
     "value converted to the function's return type. Activations are independent under recursion and mutual recursion; "
     'parameters and locals of one never alias those of another. A function designator, its address and a dereferenced '
     'pointer to it all call the same function.',
     ['programs', 'inputs'], 'all signatures, argument expressions, call graphs and recursion depths (to several hundred)',
     TESTS + 'a few fixed functions are called; combinations of signature, nesting of calls and recursion are not.',
     ['src/evaluate.c', 'src/function-call.c'],
     [('call evaluation: a fresh scope per activation, argument and result conversion', 'src/evaluate.c')],
     ['printed values of scripts'], DIFF, EXPL)
prop('C05', 'Identifiers denote the object C scoping selects, for its lifetime',
     'Every use of an identifier denotes the object, function, enumerator or parameter that C block scoping selects: '
     'the innermost visible declaration, with shadowed ones intact afterwards. File-scope and static objects keep '
     'their value for the whole run and are initialised once (to zero by default); automatic ones are initialised anew on every entry of their '
     "block. A function's body never sees the locals of its caller.",
     ['programs', 'histories'], 'all nestings of blocks, loops and functions with shadowing declarations, all histories of entry',
     TESTS + 'they shadow a name in one or two places.',
     ['src/evaluate.c'],
     [('chain of evaluation contexts mapping identifiers to objects', 'src/evaluate.c'),
      ('static objects kept with their declaration', 'src/evaluate.c')],
     ['printed values of scripts'], DIFF, EXPL)
prop('C06', 'Sizes, offsets and bytes of objects match the host C ABI',
     'sizeof and the placement of members of every struct, union and array made of the supported types agree with the '
     'host C compiler, for objects and for type names. An object that the script fills in has, in memory, the bytes that '
     'compiled code expects, so that either side reads through a pointer what the other wrote.',
     ['programs', 'inputs'], 'all compositions of arithmetic, pointer, array, struct and union types (without bit-fields)',
     TESTS + 'one or two structures are exercised, by the script alone.',
     ['src/evaluate.c', 'src/c.lang', 'src/genctypes.cpp'],
     [('layout of compounds: offset, alignment and padding of each member', 'src/evaluate.c')],
     ['sizeof and addresses printed by scripts', 'values read and written by a compiled library'], DIFF +
     '; second oracle: a compiled library exchanging objects with the script', EXPL)
prop('C07', 'Pointers, arrays and members access the object C designates',
     'Reading or writing through any designator - *p, p->m, s.m, a[i], &x and their nestings, after any pointer '
     'arithmetic, comparison or difference - accesses exactly the object that C designates: a write is seen through every alias and '
     'changes nothing else. Pointer arithmetic is scaled by the pointed-to type and index signs are honoured. This '
     'holds for objects of the script and for memory from malloc.',
     ['programs', 'inputs'], 'all designator shapes, element types and index values within the object',
     TESTS + 'a few accesses per kind are tried; aliasing between several paths is not.',
     ['src/evaluate.c'],
     [('evaluation of designators to live objects that refer to storage', 'src/evaluate.c')],
     ['printed values of scripts', 'sanitizer reports'], DIFF, EXPL)
prop('C08', 'External functions and variables are called and accessed by the C ABI',
     'A call from the script to any function of a loaded library passes every argument with the type and value that C '
     'passes (including default promotions of variadic arguments and pointers to script objects), and yields the returned value '
     'with its declared type. External variables are read and written in place.',
     ['inputs', 'programs'], 'all signatures of arithmetic and pointer types, argument counts, and argument values',
     TESTS + 'they call printf and a few libc functions with small arguments.',
     ['src/function-call.c', 'src/genffitypes.cpp', 'src/c.lang', 'src/evaluate.c'],
     [('libffi call descriptions made from the declared types', 'src/function-call.c')],
     ['what a generated compiled library saw and returned'], DIFF +
     '; the callee is a generated compiled library that logs what it received', EXPL)
prop('C09', 'Compiled code can call functions of the script',
     'The address of a script function handed to compiled code is callable with the C ABI, at once, repeatedly, nested and '
     'later: the function sees the arguments compiled code passed, its effects are kept, and compiled code receives the '
     "returned value converted to the function's return type. The same function has the same address for the whole run.",
     ['inputs', 'histories'], 'all signatures of arithmetic and pointer types, all histories of calls through kept addresses',
     TESTS + 'one qsort-like callback is made.',
     ['src/function-call.c', 'src/evaluate.c'],
     [('libffi closures, one for each function, kept alive by the function', 'src/function-call.c')],
     ['what a generated compiled library passed and received'], DIFF +
     '; the caller is a generated compiled library that logs both directions', EXPL)
prop('C10', 'Garbage collection never changes what a program does',
     'Whenever a collection takes place - at any allocation, any number of times - the output and exit status of a script or '
     'REPL session are the same as without it, and nothing that is still reachable is freed, moved or modified.',
     ['schedules', 'programs'], 'all collection points of all programs',
     'A collection happens after ten thousand allocations only, which few tests reach; when it strikes is up to the program.',
     ['src/gc.c', 'src/gengc.cpp', 'src/evaluate.c', 'src/hash_table.c', 'src/function-call.c'],
     [('mark and sweep from static roots and the stack', 'src/gc.c'), ('generated marking of the fields of each node', 'src/gengc.cpp')],
     ['sanitizer reports', 'output under different collection schedules'],
     'runtime monitoring: schedule injection (collections forced at every n-th or random allocations, hook BIC_VERIF) under ASan '
     'with poisoned frees; oracle = output without collections and the compiled program',
     'Holds for the collection schedules and programs observed; the evidence counts the collections and what they freed.',
     [dict(name='set of live allocations', meaning='every object of the interpreter', where='src/gc.c')],
     'collect at chosen allocations and log each collection (BIC_VERIF)')
prop('C11', 'Running on does not use up memory, descriptors, files or processes',
     'However long a script loops or a REPL session lasts, the memory of the process stays bounded by what the program keeps reachable (except '
     'what it allocates itself): repeating the same statements does not make it grow. No run leaves temporary files, '
     'child processes or open file descriptors behind, including those of #include, completion and runs that fail.',
     ['histories', 'programs'], 'all iteration counts and session lengths',
     TESTS + 'each is far too short to notice growth, and none looks at files or descriptors.',
     ['src/gc.c', 'src/evaluate.c', 'src/preprocess.c', 'src/repl.c'],
     [('sweep frees what was not marked', 'src/gc.c'), ('temporary files of the preprocessor are unlinked', 'src/preprocess.c')],
     ['live objects after each collection', 'resident set', 'directory of temporary files', '/proc/self/fd of the session itself'],
     'runtime monitoring: resource monitors (collection log hook, resident set, descriptors, temporary files, children) on long '
     'histories of different lengths, offline comparison',
     'Growth is decided by comparing a run with one several times as long; a leak slower than the threshold is not seen.',
     hook='log of live objects at each collection (BIC_VERIF)')
prop('C12', 'Errors of a script are contained and located',
     'A program that does something bic rejects at run time (an undeclared name, a division by zero, a negative shift, a call of a '
     'non-function, an absent member, ...) ends with exit status 1 and a message on standard error that names the file '
     'and line of the offending expression followed by a backtrace of the active calls. Everything executed before has had its effect and '
     'output, nothing after it is executed, and no error ends in a crash.',
     ['inputs', 'programs'], 'all kinds of rejected expressions at all places of a program',
     TESTS + 'nearly all are correct programs.',
     ['src/evaluate.c', 'src/util.c', 'src/main.c'],
     [('error reports with the location of the evaluated node', 'src/evaluate.c')],
     ['stdout, stderr and exit status'],
     'runtime monitoring: fault injection (one error planted in a generated program at a known line) on the sanitized interpreter; oracle '
     'checks prefix of output, location, backtrace and status',
     'Holds for the error kinds and places observed.')
prop('C13', 'No input makes bic crash or misuse memory',
     'For every byte sequence given as a script, as a line of the REPL, as the configuration file or as command line arguments, bic accepts it or rejects it with a diagnostic and '
     'an exit status: it does not access memory it does not own, execute undefined behaviour, end by a signal, or hang while '
     'parsing. Memory that the script itself misuses through pointers is excepted.',
     ['inputs'], 'all byte sequences',
     TESTS + 'they are all well-formed.',
     ['src/lex.m4', 'src/parser.m4', 'src/cscript.c', 'src/repl.c', 'src/evaluate.c'],
     [('lexers and parsers reject what is not C', 'src/parser.m4')],
     ['sanitizer reports', 'exit status', 'time'],
     'runtime monitoring: ASan/UBSan-instrumented interpreter under mutation and generation of scripts, sessions and arguments',
     'Absence of reports on the inputs observed. alignment and object-size checks of UBSan are off (bic accesses storage through one union type by design).')
prop('C14', 'A REPL session is the program its lines make up',
     'Entering the declarations, definitions and expression statements of a program line by line has the effects and output of '
     'running them as a script: each line is evaluated exactly once, in order, and what it declares or assigns stays for all following lines. A line that '
     'does not parse is reported and changes nothing.',
     ['histories', 'inputs'], 'all sequences of accepted lines, interspersed with lines that do not parse',
     TESTS + 'the expect scripts enter a few lines.',
     ['src/repl.c', 'src/evaluate.c', 'src/parser.m4'],
     [('one evaluation per line in a persistent context', 'src/repl.c')],
     ['marked output of each line'],
     'runtime monitoring: generated sessions on the sanitized interpreter with per-line markers; oracle = compiled program of the same lines',
     'Holds on the sessions observed.')
prop('C15', 'The REPL prints the value and type that an expression has',
     'After evaluating a line the REPL prints the resulting value: integers in decimal with the sign of their type, floating '
     'point as printf %f, pointers as addresses with the text of strings, compounds with every member name and value in '
     'declaration order, recursively and indented by their nesting. What it prints agrees with what printf prints for the same expression, and printing has no side effects on the program.',
     ['inputs', 'programs'], 'all types and values an expression can have',
     TESTS + 'they look at a few values of a few types.',
     ['src/pretty-printer.c', 'src/repl.c', 'src/evaluate.c'],
     [('printing per kind of live object', 'src/pretty-printer.c')],
     ['marked output of each line'],
     'runtime monitoring: generated sessions; oracle = expected text computed from the generating model and printf of the same expression',
     'Holds on the types and values observed.')
prop('C16', 'The inspector tells the truth about an identifier',
     'Inspecting an identifier in the REPL reports the kind and C type, the size, the current value and the file and line of '
     'the declaration of the object that the identifier denotes at that moment, and reports an unknown name as not found. '
     'Inspecting has no side effects.',
     ['inputs', 'histories'], 'all declarations of all types, all histories of assignments before the inspection',
     TESTS + 'a few inspections are compared with expected text.',
     ['src/inspect.c', 'src/typename.c', 'src/pretty-printer.c', 'src/repl.c'],
     [('description of live objects and of their declarations', 'src/inspect.c')],
     ['marked output of each line'],
     'runtime monitoring: generated sessions; oracle = expected report computed from the generating model and the compiler',
     'Holds on the declarations observed.')
prop('C17', 'Completion offers exactly the valid continuations, without side effects',
     'Completing a partial identifier offers exactly the visible identifiers that begin with it, and completing after . or -> of an expression that designates a compound (or points to one) offers exactly the '
     "members of that compound type that begin with what was typed. Completing neither evaluates the session's side effects nor changes what later "
     'lines do, and on text that cannot be evaluated it offers nothing and leaves the session running.',
     ['inputs', 'histories'], 'all prefixes and designators at all points of a session',
     TESTS + 'the expect scripts complete a few names.',
     ['src/repl.c', 'src/preprocess.c', 'src/evaluate.c'],
     [('completion generators over the evaluation context; compound accesses are evaluated in a child process', 'src/repl.c')],
     ['list of offered completions', 'output and state of the session after it'],
     'runtime monitoring: completion requests driven through the readline interface in generated sessions; oracle = model of the declared names',
     'Holds on the requests observed; the editing of the line itself belongs to libreadline, which a stand-in replaces.')
prop('C18', 'The <REPL> statement suspends a script without disturbing it',
     'Where a script executes the <REPL> statement, the REPL opens with every identifier visible at that point denoting the '
     "script's own objects: values printed are the current ones and assignments are seen by the script. When the session ends the "
     'script resumes after the statement exactly as if it had not been there, apart from what was entered.',
     ['programs', 'histories'], 'all places in a program (functions, loops, recursion), all lines entered',
     TESTS + 'one script with one interruption is tried.',
     ['src/evaluate.c', 'src/repl.c'],
     [('evaluation of the interrupt in the current context', 'src/evaluate.c')],
     ['printed values of script and session'],
     'runtime monitoring: generated programs with interruptions and scripted sessions; oracle = compiled program with the entered statements in place',
     'Holds on the programs observed.')
prop('C19', 'Scripts are invoked with their arguments, options and status',
     "bic -s runs the script with argc and argv holding the script and everything after it, unaltered, whether it is a main or top-level code, and exits with the "
     'value that main returns, that a top-level return gives or that exit is called with, modulo 256. -l and -I make libraries and '
     'headers available, a missing script or library or an unknown option ends with status 1 and a message, ~/.bic is evaluated before '
     'a REPL session.',
     ['configurations', 'inputs'], 'all combinations of options, arguments and ways to end',
     TESTS + 'two or three invocations are tried.',
     ['src/main.c', 'src/cscript.c', 'src/evaluate.c', 'src/repl.c'],
     [('option parsing and start of a program', 'src/main.c')],
     ['stdout, stderr and exit status'],
     'runtime monitoring: generated invocations on the sanitized interpreter; oracle = compiled program run with the same arguments and a model of the options',
     'Holds on the invocations observed.')
prop('C20', 'Dumping the syntax tree is faithful and executes nothing',
     'With the dump option bic prints the tree of the whole program - every declaration, statement, operator, identifier and '
     'constant of the source in its place - as text or as a well-formed graph description, deterministically up to addresses, and exits with status 0 without executing any '
     'of it.',
     ['programs'], 'all programs bic accepts',
     TESTS + 'none looks at a dump.',
     ['src/gendump.cpp', 'src/gendot.cpp', 'src/tree-dump-primitives.h', 'src/main.c'],
     [('generated printers for each kind of node', 'src/gendump.cpp'), ('generated graph printers', 'src/gendot.cpp')],
     ['the dump', 'absence of output and effects of the program'],
     'runtime monitoring: dumps of generated programs parsed back and compared with the generating model, or compiled and run in place of the original',
     'Holds on the programs observed.')
prop('C21', 'Literals, comments and layout mean what they mean in C',
     'Decimal, octal, hexadecimal, character, floating and string literals denote the values and bytes that C gives them, '
     'for the escapes bic supports. Comments, white space and line splits between tokens do not change what a program does, '
     'tokens are recognised by longest match, and a name may contain a keyword.',
     ['inputs', 'programs'], 'all literals, all placements of comments and white space',
     TESTS + 'they use a few literals each.',
     ['src/lex.m4', 'src/parser.m4'],
     [('lexer', 'src/lex.m4')],
     ['printed values of scripts'], DIFF, EXPL)
prop('C22', 'Declarations declare what C says they declare',
     'Every order of type specifiers, every combination of declarators bic supports (pointers, arrays, functions, pointers to '
     'functions, lists with initialisers), typedefs, enumerations, structure and union tags, forward declarations and prototypes '
     'declares names with the type, value and initialisation that C gives them.',
     ['programs', 'inputs'], 'all permutations of specifiers and nestings of declarators',
     TESTS + 'a few declarations are tried.',
     ['src/parser.m4', 'src/evaluate.c', 'src/genspecresolver.cpp', 'src/c.lang'],
     [('specifier resolver generated from the table of types', 'src/genspecresolver.cpp'),
      ('resolution of declarators', 'src/evaluate.c')],
     ['printed sizes and values of scripts'], DIFF, EXPL)
prop('C23', 'Headers and macros work as with the C preprocessor',
     'Scripts are preprocessed as by the C preprocessor: macros, conditionals and includes (system and own, searched in the order of -I) '
     'take effect as in compiled C, with __FILE__ and __LINE__ and all diagnostics referring to the original file and line. In the REPL an #include makes the functions, types, variables and '
     'constants of the header available from then on.',
     ['programs', 'configurations'], 'all uses of the preprocessor, all standard headers that bic can parse',
     TESTS + 'they include two or three headers.',
     ['src/preprocess.c', 'src/lex.m4', 'src/cscript.c', 'src/repl.c'],
     [('runs the C preprocessor and follows its line markers', 'src/preprocess.c')],
     ['printed values of scripts', 'locations of diagnostics'],
     DIFF, EXPL)
prop('C24', 'A syntax error is reported where it is and nothing is executed',
     'A script with a syntax error anywhere (other than a misplaced qualifier, which bic ignores) ends with exit status 1 and a message naming the file and line of the error, and no part of it is executed, '
     'however late the error is. In the REPL a line with a syntax error is reported, has no effect, and the session continues with everything declared before.',
     ['inputs', 'programs'], 'all places and kinds of syntax errors',
     TESTS + 'no erroneous script is tried.',
     ['src/parser.m4', 'src/lex.m4', 'src/cscript.c', 'src/repl.c'],
     [('a script is parsed as a whole before it is evaluated', 'src/cscript.c')],
     ['stdout, stderr and exit status'],
     'runtime monitoring: fault injection (one token inserted, removed or replaced in a generated program so that the compiler rejects it there); oracle checks output, location and status',
     'Holds on the errors observed.')


def main():
    with open('properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': list(p['state']),
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': p['hook']}}) + '\n')
    hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=BIC_VERIF'],
                          capture_output=True, text=True).stdout.split()
    checks, na = [], []
    for p in P:
        if os.path.exists('checks/%s.py' % p['pid'].lower()):
            checks.append({'property': p['pid'], 'quick_cmd': './check.py ' + p['pid'],
                           'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + p['pid'],
                           'evidence_file': 'evidence/%s.json' % p['pid'],
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            na.append({'property': p['pid'], 'reason': 'its monitor is not finished yet'})
    json.dump({'version': 1, 'setup_cmd': './check.py --build',
               'hooks': {'guard': 'BIC_VERIF', 'enable': 'support/Makefile compiles the sources of /repo/src with -DBIC_VERIF',
                         'source_commits': hook},
               'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
    for p in P:
        assert len(p['title']) <= 80, p['pid']
        n = p['statement'].count('. ') + 1
        if n > 3:
            print(p['pid'], 'has', n, 'sentences')


main()
