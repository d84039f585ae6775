E = 'src/evaluate.c'
T = []


def script(src, want, args=''):
    """A demonstration: the output of a script."""
    return '''cat > $d/t.c <<'EOF'
%s
EOF
cat > $d/want <<'EOF'
%s
EOF
timeout 60 $B -s $d/t.c %s > $d/out 2> $d/err
s=$?
cat $d/err >&2
[ $s = 0 ] || { echo "status $s" >&2; exit 1; }
diff $d/want $d/out >&2
''' % (src.strip('\n'), want.strip('\n'), args)


def seed(id, prop, edits, demo, needs, breaks, files={}):
    T.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files))


seed('eq-word', 'C01',
     [(E, '''        if (!mpz_cmp(tINT_VAL(left), tINT_VAL(right)))
            val = 1;
        else
            val = 0;''',
       '''        if (mpz_get_si(tINT_VAL(left)) == mpz_get_si(tINT_VAL(right)))
            val = 1;
        else
            val = 0;''')],
     script('''
#include <stdio.h>
int main()
{
    unsigned long a = 18446744073709551615, b = 9223372036854775807;
    printf("%d %d\\n", (int)(a == b), (int)(b == b));
    return 0;
}''', '0 1'),
     'an operand of == that does not fit a signed long, compared with the value that has the same low bits',
     '== of unsigned values of 2^63 and more')

seed('double-rounding', 'C02',
     [(E, '''        tLV_VAL(var)->D_T_FLOAT = (float)val;
''', '''        tLV_VAL(var)->D_T_FLOAT = (float)(double)val;
''')],
     script('''
#include <stdio.h>
int main()
{
    long l = 1152921573326323713;
    float f;
    f = l;
    printf("%.1f\\n", f);
    return 0;
}''', '1152921642045800448.0'),
     'an integer of more than 53 bits that lies just above the middle between two floats',
     'integers stored into a float are rounded twice')

seed('union-size', 'C06',
     [(E, '''            if (member_size > max_member_sz)
                max_member_sz = member_size;''',
       '''            if (member_size > max_member_sz && member_alignment >= max_alignment)
                max_member_sz = member_size;''')],
     script('''
#include <stdio.h>
union u { int i; char c[13]; };
union v { char c[13]; int i; };
int main()
{
    printf("%lu %lu\\n", sizeof(union u), sizeof(union v));
    return 0;
}''', '16 16'),
     'a union, the largest member of which is less aligned than an earlier one',
     'the size of the union, so that objects overlap')

seed('long-names', 'C05',
     [(E, '''        if (strcmp(tID_STR(tEMAP_LEFT(i)), tID_STR(id)) == 0)
            return tEMAP_RIGHT(i);''',
       '''        if (strncmp(tID_STR(tEMAP_LEFT(i)), tID_STR(id), 63) == 0)
            return tEMAP_RIGHT(i);''')],
     script('''
#include <stdio.h>
int a23456789_123456789_123456789_123456789_123456789_123456789_123_one = 1;
int main()
{
    int a23456789_123456789_123456789_123456789_123456789_123456789_123_two = 2;
    printf("%d\\n", a23456789_123456789_123456789_123456789_123456789_123456789_123_one);
    return 0;
}''', '1'),
     'two identifiers that have their first 63 characters in common',
     'the second one denotes the first object')

seed('negative-index', 'C07',
     [(E, '''    size_t idx, base_type_length;
    void *base;
''', '''    unsigned int idx;
    size_t base_type_length;
    void *base;
''')],
     script('''
#include <stdio.h>
int main()
{
    int a[4], i = -2;
    int *p;
    a[0] = 10; a[1] = 11; a[2] = 12; a[3] = 13;
    p = &a[3];
    printf("%d\\n", p[i]);
    return 0;
}''', '11'),
     'a negative index',
     'p[-n] accesses memory 4G elements away')

seed('integer-leak', 'C11',
     [('src/gc.c', '''    case T_INTEGER:
        mpz_clear(tINT_VAL(t));
        break;
''', '')],
     '''cat > $d/t.c <<'EOF'
int main()
{
    int i;
    for (i = 0; i < 1000000; i++)
        i + 1 + 2 + 3 + 4 + 5;
    return 0;
}
EOF
cat > $d/m.py <<'EOF'
import os, resource, subprocess, sys
subprocess.run([sys.argv[1], '-s', sys.argv[2]], check=True, timeout=280)
kb = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
print(kb, file=sys.stderr)
sys.exit(kb > 90000)
EOF
python3 $d/m.py $B $d/t.c
''',
     'a long run that computes with integers',
     'the digits of integers are never freed, so memory grows with the length of the run')

seed('error-flush', 'C12',
     [(E, '''    ctx_backtrace();

    exit(EXIT_FAILURE);
''', '''    ctx_backtrace();

    _exit(EXIT_FAILURE);
''')],
     '''cat > $d/t.c <<'EOF'
#include <stdio.h>
int main()
{
    printf("before\\n");
    printf("%d\\n", 1 / (1 - 1));
    return 0;
}
EOF
timeout 60 $B -s $d/t.c > $d/out 2> $d/err
[ $? = 1 ] && grep -q '^before' $d/out
''',
     'an error while the output of the script is buffered, as it is when it goes to a file or a pipe',
     'what the script printed before the error is lost')

seed('repl-parse-error', 'C14',
     [('src/repl.c', '''    if (parse_result)
        return NULL;

    for_each''', '''    if (parse_result > 1)
        return NULL;

    for_each''')],
     '''printf '%s\\n' 'int i;' 'i++;' 'i++ +;' 'i;' | timeout 60 $B > $d/out 2> $d/err
grep '^[0-9]' $d/out | tail -1 | grep -qx 1
''',
     'a line that does not parse after one that has a side effect',
     'the previous line is evaluated again')

seed('inspect-pointers', 'C16',
     [('src/inspect.c', '    return handle_pointer_type(tDTPTR_EXP(ptr_type));', '    return tDTPTR_EXP(ptr_type);')],
     '''printf '%s\\n' 'char ***p;' '?p' | timeout 60 $B > $d/out 2> $d/err
grep -q 'p is a pointer to a pointer to a pointer to a signed char' $d/out || { cat $d/out >&2; exit 1; }
''',
     'inspection of a pointer to a pointer',
     'the type that is printed')

seed('complete-headers', 'C17',
     [(E, '''    if (include_ctx)
        match_identifiers_for_idmap(chain, tECTX_ID_MAP(include_ctx), prefix);

    return chain;''', '''    return chain;''')],
     '''printf '#include <string.h>\\n%s\\n' 'int n;' > $d/in
printf 'n = strcsp\\t("abcd", "d");\\nn;\\n' >> $d/in
timeout 60 $B < $d/in > $d/out 2> $d/err
grep -qx 3 $d/out || { cat $d/out $d/err >&2; exit 1; }
''',
     'completion of an identifier that a header declares',
     'it is not offered')

seed('script-options', 'C19',
     [('src/main.c', '''            return optind;
        case 'D':''', '''            break;
        case 'D':''')],
     script('''
#include <stdio.h>
int main(int argc, char *argv[])
{
    int i;
    for (i = 1; i < argc; i++)
        puts(argv[i]);
    return 0;
}''', '-D\nx\n-l', '-D x -l'),
     'arguments of the script that look like options',
     'bic takes them for its own')

seed('dump-union', 'C20',
     [('src/tree-dump-primitives.h', '''    switch(v) {
    case sstruct:
        fputs("struct", stderr);
        break;
    case uunion:
        fputs("union", stderr);
        break;
    }''', '''    fputs(v == sstruct || dt == DOT ? "struct" : "union", stderr);''')],
     '''echo 'union u { int a; char b; };' > $d/t.c
timeout 60 $B -T -D -s $d/t.c > $d/out 2>&1 || exit 1
grep -q union $d/out && ! grep -q struct $d/out
''',
     'the graph of a program that declares a union',
     'the union is shown as a structure')

seed('include-order', 'C23',
     [('src/preprocess.c', '''    tree_chain(new_dir, include_dirs);
''', '''    list_add(&new_dir->chain, &include_dirs->chain);
''')],
     '''mkdir $d/one $d/two
echo '#define WHICH 1' > $d/one/which.h
echo '#define WHICH 2' > $d/two/which.h
cat > $d/t.c <<'EOF'
#include <which.h>
int main() { return WHICH; }
EOF
timeout 60 $B -I $d/one -I $d/two -s $d/t.c
[ $? = 1 ]
''',
     'two -I options, both directories having the header',
     'the directories are searched in the wrong order')

seed('syntax-status', 'C24',
     [('src/cscript.c', '''            cscriptlloc.first_line, str);

    exit(1);
''', '''            cscriptlloc.first_line, str);
''')],
     '''printf 'int main() {\\n return 0 +;\\n}\\n' > $d/t.c
timeout 60 $B -s $d/t.c
[ $? = 1 ]
''',
     'a syntax error in a script',
     'the exit status')

seed('or-negative', 'C01',
     [(E, '''    right = convert_to_comparable_type(tL_OR_RHS(t), depth);

    switch (TYPE(right)) {
    case T_INTEGER:
    {
        if (mpz_cmp_ui(tINT_VAL(right), 0))''',
       '''    right = convert_to_comparable_type(tL_OR_RHS(t), depth);

    switch (TYPE(right)) {
    case T_INTEGER:
    {
        if (mpz_cmp_ui(tINT_VAL(right), 0) > 0)''')],
     script('''
#include <stdio.h>
int main()
{
    int a = 0, b = -7;
    printf("%d %d %d\\n", a || b, b || a, a || 2);
    return 0;
}''', '1 1 1'),
     'a right operand of || that is negative',
     'the truth of negative right operands of ||')

seed('too-few-arguments', 'C13',
     [(E, '''                if (no_vals != no_decls)''', '''                if (no_vals > no_decls)''')],
     '''cat > $d/t.c <<'EOF'
int f(int a, int b) { return a; }
int main()
{
    f(1);
    return 0;
}
EOF
timeout 60 $B -s $d/t.c > $d/out 2> $d/err
[ $? = 1 ] && grep -q "t.c:4" $d/err
''',
     'a call of a function of the script with too few arguments',
     'the list of the arguments is run past its end')

seed('include-dirs-root', 'C10',
     [('src/preprocess.c', 'GC_STATIC_TREE(include_dirs);\n', '')],
     '''mkdir $d/inc
echo 'typedef int from_inc;' > $d/inc/own.h
{
echo 'int i;'
n=0
while [ $n -lt 700 ]; do echo 'i = i + 1 + 1 + 1 - 2;'; n=$((n+1)); done
echo '#include <own.h>'
echo 'from_inc z;'
echo 'z = 4100 + 1;'
} > $d/in
MALLOC_PERTURB_=165 timeout 250 $B -I $d/inc < $d/in > $d/out 2> $d/err
[ $? = 0 ] && grep -q '^4101' $d/out || { tail -n 3 $d/out >&2; tail -n 3 $d/err >&2; exit 1; }
''',
     'collections between the start of bic with -I and an #include in the session',
     'the directories given with -I are freed while they are still in use')

seed('promoted-temporaries', 'C10',
     [('src/function-call.c', '''    // after function calling is complete.
    inhibit_gc();
''', '''    // after function calling is complete.
'''), ('src/function-call.c', '''    free(types);
    free(vals);

    enable_gc();
''', '''    free(types);
    free(vals);
''')],
     '''cat > $d/t.c <<'EOF'
#include <stdio.h>
int main()
{
    float a = 1.5, b = 2.5, c = 3.5;
    char x = 1, y = 2, z = 3;
    int i;
    for (i = 0; i < 20000; i++)
        printf("%d %.1f %d %.1f %d %.1f %.1f %d\\n", x, a, y, b, z, c, a, x);
    return 0;
}
EOF
MALLOC_PERTURB_=165 timeout 250 $B -s $d/t.c > $d/out || exit 1
[ $(sort -u $d/out | wc -l) = 1 ] && grep -qx '1 1.5 2 2.5 3 3.5 1.5 1' $d/out
''',
     'a collection between the promotions of two arguments of one variadic call',
     'a promoted argument is freed before the call')

seed('ushort-promotion', 'C08',
     [('src/function-call.c', '''    PROMOTE(ffi_type_ushort, unsigned short, D_T_UINT,''', '''    PROMOTE(ffi_type_ushort, short, D_T_UINT,''')],
     script('''
#include <stdio.h>
int main()
{
    unsigned short s = 40000;
    printf("%d %u\\n", s, s);
    return 0;
}''', '40000 40000'),
     'an unsigned short above 32767 as a variadic argument',
     'the argument is sign extended')

seed('return-depth', 'C04',
     [(E, '''                while (cur_ctx != fn_ctx)
                    pop_ctx();
''', '''                if (cur_ctx != fn_ctx)
                    pop_ctx();
''')],
     script('''
#include <stdio.h>
int f(int n)
{
    int i;
    for (i = 0; i < 10; i++) {
        if (i == n) {
            while (1) {
                return i * 10;
            }
        }
    }
    return -1;
}
int main()
{
    int x;
    x = f(3);
    printf("%d\\n", x);
    printf("%d\\n", f(12));
    return 0;
}''', '30\n-1'),
     'a return out of several nested blocks',
     'the value that is returned')

seed('for-after-scope', 'C05',
     [(E, '''        __evaluate_1(tFLOOP_AFTER(t), depth + 1);

    } while (1);
''', '''    } while (1);
'''), (E, '''        result = __evaluate(tFLOOP_STMTS(t), depth + 1);
        pop_ctx();
''', '''        result = __evaluate(tFLOOP_STMTS(t), depth + 1);
        if (!is_T_BREAK(result))
            __evaluate_1(tFLOOP_AFTER(t), depth + 1);
        pop_ctx();
''')],
     script('''
#include <stdio.h>
int main()
{
    int i, n = 0;
    for (i = 0; i < 3; i++) {
        int i = 100;
        n++;
        if (n > 5)
            return 1;
    }
    printf("%d %d\\n", i, n);
    return 0;
}''', '3 3'),
     'a body of a for loop that declares a variable with the name of that of the loop',
     'the increment applies to the variable of the body')

seed('while-break-scope', 'C05',
     [(E, '''        result = __evaluate(tWLOOP_STMTS(t), depth + 1);
        pop_ctx();
''', '''        result = __evaluate(tWLOOP_STMTS(t), depth + 1);
        if (!is_T_BREAK(result))
            pop_ctx();
''')],
     script('''
#include <stdio.h>
int main()
{
    int x = 1, i = 0;
    while (i < 3) {
        int x = 50;
        i = i + 1;
        if (i == 2)
            break;
    }
    printf("%d\\n", x);
    return 0;
}''', '1'),
     'a while loop that ends by break and whose body declares a variable with the name of an outer one',
     'the variable of the body stays in scope after the loop')

seed('second-session', 'C18',
     [(E, '''static tree eval_repl(tree t, int depth)
{
    bic_repl();
''', '''static tree eval_repl(tree t, int depth)
{
    static bool in_repl = false;

    /* Don't start a session within a session. */
    if (!in_repl) {
        in_repl = true;
        bic_repl();
    }

''')],
     '''cat > $d/t.c <<'EOF'
#include <stdio.h>
int main()
{
    int i;
    for (i = 0; i < 2; i++) {
        <REPL>;
    }
    printf("end %d\\n", i);
    return 0;
}
EOF
printf 'i;\\n' | timeout 60 $B -s $d/t.c > $d/out 2> $d/err
[ $(grep -o 'BIC> ' $d/out | wc -l) = 3 ] || { cat $d/out >&2; exit 1; }
''',
     'a <REPL> statement that is reached for the second time, after the end of the first session',
     'the script is not suspended')

seed('callback-long-double', 'C09',
     [('src/function-call.c', '''            tLV_VAL(new_arg)->TNAME = *((STDINTSZ *)(ffi_args[n])); \\
''', '''            memcpy(tLV_VAL(new_arg), ffi_args[n], sizeof(void *));  \\
''')],
     '''cat > $d/l.c <<'EOF'
int calls(int (*f)(int, long double, double), long double v)
{
    return f(1, v, 0.5);
}
EOF
gcc -shared -fPIC -o $d/l.so $d/l.c || exit 2
cat > $d/t.c <<'EOF'
#include <stdio.h>
extern int calls(int (*f)(int, long double, double), long double v);
int f(int a, long double b, double c)
{
    printf("%d %Lf %f\\n", a, b, c);
    return 7;
}
int main()
{
    long double v = 2.25;
    printf("%d\\n", calls(&f, v));
    return 0;
}
EOF
printf '1 2.250000 0.500000\\n7\\n' > $d/want
timeout 60 $B -l $d/l.so -s $d/t.c > $d/out 2> $d/err
diff $d/want $d/out >&2
''',
     'a callback that takes a long double',
     'the value of the parameter')

seed('print-wide-integer', 'C15',
     [('src/pretty-printer.c', '''        gmp_printf("%Zd", tINT_VAL(t));
''', '''        printf("%ld", mpz_get_si(tINT_VAL(t)));
''')],
     '''printf '%s\\n' '18446744073709551615;' '7;' | timeout 60 $B > $d/out 2> $d/err
grep -qx 18446744073709551615 $d/out && grep -qx 7 $d/out
''',
     'an expression whose value is an integer that does not fit a signed long',
     'the value that is printed')

seed('complete-inner-scope', 'C17',
     [(E, '''    while (search_ctx) {
        match_identifiers_for_idmap(chain, tECTX_ID_MAP(search_ctx), prefix);

        search_ctx = tECTX_PARENT_CTX(search_ctx);
    }
''', '''    while (search_ctx && list_empty(&chain->chain)) {
        match_identifiers_for_idmap(chain, tECTX_ID_MAP(search_ctx), prefix);

        search_ctx = tECTX_PARENT_CTX(search_ctx);
    }
''')],
     '''cat > $d/t.c <<'EOF'
#include <stdio.h>
int zebra_out = 3;
int main()
{
    int zebra_in = 4;
    zebra_in = zebra_in + 1;
    <REPL>;
    printf("end\\n");
    return 0;
}
EOF
printf 'zebra_o\\t;\\n1 + zebra_\\t\\t\\n' > $d/in
timeout 60 $B -s $d/t.c < $d/in > $d/out 2> $d/err
grep -q 'zebra_in' $d/out && grep -q 'zebra_out.*zebra_in\\|zebra_in.*zebra_out' $d/out || { cat $d/out >&2; exit 1; }
''',
     'completion of a prefix that names in several scopes have',
     'only those of the innermost scope are offered')

seed('inspect-array-size', 'C16',
     [('src/inspect.c', '''    tSZOF_EXP(sizeof_obj) = resolved_object;
''', '''    tSZOF_EXP(sizeof_obj) = tLV_TYPE(resolved_object);
''')],
     '''printf '%s\\n' 'int arr[7];' '?arr' | timeout 60 $B > $d/out 2> $d/err
grep -q 'sizeof(arr) = 28 bytes' $d/out || { cat $d/out >&2; exit 1; }
''',
     'inspection of an array',
     'the size is that of a pointer')

seed('argument-stack', 'C13',
     [('src/function-call.c', '''    if (*n == ARG_STACK_SZ) {''', '''    if (*n > ARG_STACK_SZ) {''')],
     '''{
echo '#include <stdio.h>'
echo 'int main() {'
printf 'printf("'; for i in $(seq 32); do printf '%%d '; done; printf '\\\\n"'
for i in $(seq 32); do printf ', %d' $i; done; echo ');'
echo 'return 0; }'
} > $d/t.c
timeout 60 $B -s $d/t.c > $d/out 2> $d/err
[ $? = 1 ] && grep -q 'Max num args' $d/err || { cat $d/out $d/err >&2; exit 1; }
''',
     'a call of an external function with exactly 33 arguments',
     'memory behind the argument stack is written')

seed('include-chain-order', 'C23',
     [(E, '''    tree_chain(cpp_include, include_chain);
''', '''    list_add(&cpp_include->chain, &include_chain->chain);
''')],
     '''echo '#define BASE 40' > $d/base.h
printf '#ifdef BASE\\n#define VALUE (BASE + 2)\\n#else\\n#define VALUE 1\\n#endif\\n' > $d/value.h
printf '%s\\n' '#include <base.h>' '#include <value.h>' 'VALUE;' | timeout 60 $B -I $d > $d/out 2> $d/err
grep -qx 42 $d/out || { cat $d/out $d/err >&2; exit 1; }
''',
     'a header that depends on a macro of one that was included before',
     'headers are preprocessed in the reverse order')

seed('incomplete-object', 'C12',
     [(E, '''    if (is_E_INCOMP_TYPE(type))
        eval_die(id, "Can not create incomplete type %s\\n",
                 tID_STR(id));

''', '')],
     '''cat > $d/t.c <<'EOF'
#include <stdio.h>
struct s;
int main()
{
    struct s x;
    printf("after\\n");
    return 0;
}
EOF
timeout 60 $B -s $d/t.c > $d/out 2> $d/err
[ $? = 1 ] && grep -q "t.c:5:.*ncomplete" $d/err && [ ! -s $d/out ]
''',
     'the declaration of an object of an incomplete type',
     'the script goes on')

seed('float-decrement', 'C02',
     [(E, '''    live_var_sub(exp, 1);
    return ret;
}

static tree eval_dec''', '''    live_var_add(exp, -1);
    return ret;
}

static tree eval_dec''')],
     script('''
#include <stdio.h>
int main()
{
    double x = 2.5;
    int i = 4;
    unsigned long u = 0;
    x--;
    i--;
    u--;
    printf("%f %d %lu\\n", x, i, u);
    return 0;
}''', '1.500000 3 18446744073709551615'),
     'the postfix decrement of an object of a floating type',
     'the value that is stored')

seed('header-union-tag', 'C22',
     [(E, '''    /* Also search the include_ctx if it exists. */
    if (include_ctx) {
        tree result''', '''    /* Also search the include_ctx if it exists. */
    if (include_ctx && map_type != UNION_TYPE) {
        tree result''')],
     '''mkdir $d/inc
echo 'union both { int i; char c[8]; };' > $d/inc/both.h
cat > $d/t.c <<'EOF'
#include <stdio.h>
#include <both.h>
int main()
{
    union both b;
    b.i = 0;
    b.c[1] = 1;
    printf("%d %d\\n", b.i, (int)sizeof(union both));
    return 0;
}
EOF
printf '%s\\n' '#include <both.h>' 'union both x;' 'sizeof(x);' > $d/in
timeout 60 $B -I $d/inc -s $d/t.c > $d/out 2> $d/err
grep -qx '256 8' $d/out || { cat $d/err >&2; exit 1; }
timeout 60 $B -I $d/inc < $d/in > $d/out 2> $d/err
grep -qx '8' $d/out || { cat $d/err >&2; exit 1; }
''',
     'the tag of a union that a header defines',
     'is not found in the script')

seed('completion-hang', 'C17',
     [('src/repl.c', '''            close(pfds[1]);

            matches = recieve_matches(pfds[0]);
''', '''            matches = recieve_matches(pfds[0]);

            close(pfds[1]);
''')],
     '''printf 'struct s { int abc; } v;\\nnosuch.z\\t;\\nv.a\\t = 7;\\nv.abc * 3;\\n' > $d/in
timeout 20 $B < $d/in > $d/out 2> $d/err
[ $? != 124 ] && grep -q nosuch $d/err || { cat $d/out $d/err >&2; exit 1; }
''',
     'completion of a member of an object that does not exist',
     'bic waits for ever')

seed('for-without-condition', 'C03',
     [(E, '''        __evaluate_1(tFLOOP_AFTER(t), depth + 1);

    } while (1);''', '''        __evaluate_1(tFLOOP_AFTER(t), depth + 1);

    } while (!is_T_EMPTY(tFLOOP_COND(t)));''')],
     script('''
#include <stdio.h>
int main()
{
    int i;
    for (i = 0;; i++) {
        if (i == 3)
            break;
        printf("%d ", i);
    }
    printf("%d\\n", i);
    return 0;
}''', '0 1 2 3'),
     'a for loop without a condition',
     'the loop ends after one iteration')

seed('dump-integer', 'C20',
     [('src/tree-dump-primitives.h', '''    gmp_fprintf(stderr, "%Zd", val);''', '''    fprintf(stderr, "%ld", mpz_get_si(val));''')],
     '''echo 'unsigned long x = 18446744073709551615; unsigned long y = 9223372036854775809;' > $d/t.c
timeout 60 $B -T -s $d/t.c > $d/out 2>&1 || true
grep -q 18446744073709551615 $d/out && grep -q 9223372036854775809 $d/out || { cat $d/out >&2; exit 1; }
''',
     'a constant that does not fit a signed long',
     'the number in the dump')
