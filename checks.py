"""Registry of checks: property id -> harnesses, rule, budgets."""
import glob, os
from concurrent.futures import ThreadPoolExecutor

def build_tool(repo, bdir, sh, die, name, srcs, libs, incs=(), flags=('-O1', '-g1'), post=()):
    """Compile one of the repository's programs (with the libraries it uses) from the current tree into bdir."""
    os.makedirs(f'{bdir}/{name}.d', exist_ok=True)
    files = [f for d in libs for f in sorted(glob.glob(f'{repo}/{d}/*.c'))] + [f'{repo}/{s}' for s in srcs]
    def one(a):
        n, f = a
        o = f'{bdir}/{name}.d/{n}.o'
        r = sh(['gcc', '-std=gnu11', '-w', *flags, '-DR_DEBUG_MEMALLOC', '-I', repo, '-I', f'{repo}/arch/unix', *[x for i in incs for x in ('-I', f'{repo}/{i}')], '-c', f, '-o', o])
        return o, f, r
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(files)))
    for o, f, r in objs:
        if r.returncode:
            die(f'cannot compile {f}\n{r.stdout[-2000:]}')
    r = sh(['gcc', *flags, *[o for o, _, _ in objs], '-o', f'{bdir}/{name}', '-lm', '-lpthread', *post])
    if r.returncode:
        die(f'cannot link {name}\n{r.stdout[-2000:]}')

def build_rexcc(repo, bdir, sh, die, **kw):
    build_tool(repo, bdir, sh, die, 'rexcc', ['rexcc/rexcc.c', 'rexcc/rexccmain.c', 'rexcc/unix/rexccdep.c'], ['rlib', 'rex'], ['rexcc', 'rexcc/unix', 'rexcc/build/unix'], **kw)

def gen_rexjson(repo, bdir, sh, die):
    """rexjsondfa.h, generated by the current tree's rexcc from the current tree's token file."""
    build_rexcc(repo, bdir, sh, die)
    r = sh([f'{bdir}/rexcc', f'{repo}/rexjson/rexjsondfa.rexcc', '-o', f'{bdir}/rexjsondfa.h'])
    if r.returncode or not os.path.exists(f'{bdir}/rexjsondfa.h'):
        die('rexcc cannot process rexjsondfa.rexcc\n' + r.stdout[-2000:])

# the code under test, instrumented for the controlled scheduler of harness/sched.hpp (which is linked instead of the sanitizer's runtime)
SCHED = ['-O1', '-fsanitize=thread', '--param=tsan-distinguish-volatile=1', '-fno-builtin'] + [f'-D{f}=sut_{f}' for f in ('malloc', 'free', 'calloc', 'realloc', 'memcpy', 'memmove', 'memset', 'memcmp')]

CHECKS = {
 'R01': dict(
    harnesses=[dict(src=['rex_lang.cpp'], lib='rex', mode='fast')],
    rule='every expression tree of the stated shapes is compiled and run on every input of the stated alphabets and lengths on four engines, against a set-of-positions reference matcher; '
         'distinct counts expressions with different result vectors over all inputs'),
 'R02': dict(
    harnesses=[dict(src=['rex_scan.cpp'], lib='rex', mode='fast', link=['-Wl,--wrap=malloc'])],
    rule='every expression of the stated set is scanned over every text of the stated alphabets and lengths by the NFA, DFA and frozen-DFA scanners; each reported hit must be the leftmost-longest one of the reference; distinct counts expressions with different hit vectors'),
 'R03': dict(
    harnesses=[dict(src=['rex_multi.cpp'], lib='rex', mode='asan')],
    rule='every pair and triple of expressions of the stated set is put in one database; the set of accepting tags after every input is compared with the reference set; DFA structure (partition of the code space, substates, reachability) is checked on every state'),
 'R04': dict(
    harnesses=[dict(src=['rex_syntax.cpp'], lib='rex', mode='asan')],
    rule='every text over the stated alphabets and lengths is offered to the compiler; acceptance, language and the effect on a database that already holds expressions are compared with a reference reader; distinct counts texts with different acceptance and language'),
 'P01': dict(
    harnesses=[dict(src=['rpa_peg.cpp'], lib='rpa', mode='fast')],
    rule='every grammar of the stated shapes is compiled and every rule of it matched and parsed on every input of the stated alphabet and lengths against a parsing-expression evaluator; distinct counts grammars with different result vectors'),
 'P02': dict(
    harnesses=[dict(src=['rpa_left.cpp'], lib='rpa', mode='fast')],
    rule='every left-recursive grammar of the stated shapes is compiled and every rule of it matched and parsed on every input of the stated alphabet and lengths; length and parse tree are compared with explicit seed growing where a single cycle makes the meaning unambiguous, termination and bounds everywhere; distinct counts grammars with different result vectors'),
 'P03': dict(
    harnesses=[dict(src=['rpa_recs.cpp'], lib='rpa', mode='fast')],
    rule='every grammar of the stated shapes, under every combination of emission directives, is parsed with every rule on every input; the record array must equal the derivation of the reference evaluator field by field; every navigation function is compared with an explicit tree on those records and on every forest up to the stated size; distinct counts different record sets'),
 'P04': dict(
    harnesses=[dict(src=['rpa_cfg.cpp'], lib='rpa', mode='fast')],
    rule='every grammar of the stated shapes is compiled with all optimisation/prefilter settings and every rule matched and parsed on every input with the cache on and off; the eight outcomes (length, error, records) must be equal; byte, UTF-8, UTF-16LE and case-insensitive runs are compared with the reference evaluator on the characters; distinct counts grammars with different outcome vectors'),
 'V01': dict(
    harnesses=[dict(src=['rvm_alu.cpp'], lib='rvm', mode='fast')],
    rule='every data-processing instruction is executed for every pair of boundary operand values, every incoming flag setting and every register/immediate operand form and compared with a table of definitions over exact integers; every branch for every flag setting and distance'),
 'V02': dict(
    harnesses=[dict(src=['rvm_prog.cpp'], lib='rvm', mode='fast')],
    rule='every program over the stated instruction alphabets up to the stated length is executed in lockstep with a reference interpreter: all registers, flags, stack slots, memory bytes and the error state are compared after every instruction, and again at the end of an unobserved run; distinct counts different final states'),
 'V03': dict(
    harnesses=[dict(src=['rvm_reloc.cpp'], lib='rvm', mode='asan')],
    rule='every history of the stated operations up to the stated length is applied to a code generator and to a plain symbol table; every instruction, label and data block is compared after each relocation; programs of functions calling each other, in every order of emission, are relocated and executed; distinct counts different outcomes'),
 'V04': dict(
    harnesses=[dict(src=['rvm_scope.cpp'], lib='rvm', mode='asan')],
    rule='every history of the stated operations up to the stated length; after every operation both lookups of six names (counted and terminated) and the counts are compared with a list of scopes; distinct counts different sequences of lookup results'),
 'V05': dict(
    harnesses=[dict(src=['rvm_reg.cpp'], lib='rvm', mode='asan')],
    rule='every history of the stated register operations up to the stated length over two registers, each register compared with a model after every operation; every value through every instruction constructor and, where it moves an immediate, through the machine; every text up to the stated length read as a number; every graph of up to three containers through the collector helper; distinct counts different histories of kinds and flags, instructions, numbers and graphs'),
 'L01': dict(
    harnesses=[dict(src=['lib_seq.cpp'], lib='rlib', mode='asan')],
    rule='every history of the stated operations up to the stated length on the dynamic array, the chunked array and two linked lists, from several starting lengths and element sizes; after every operation the whole container is compared with a plain vector; distinct counts different sequences of contents'),
 'L02': dict(
    harnesses=[dict(src=['lib_keyed.cpp'], lib='rlib', mode='asan')],
    rule='every history of the stated operations up to the stated length on the hash table (four key types, three bucket counts), the map and the name-indexed array; after every operation every lookup form of every key, the iteration in both directions and every element are compared with a plain list of entries; distinct counts different sequences of contents'),
 'L03': dict(
    harnesses=[dict(src=['lib_str.cpp'], lib='rlib', mode='asan')],
    rule='every history of the stated string operations up to the stated length on three strings, every pair of strings over six bytes up to the stated length through every string function and count, every boundary integer and number, and every code point through the letter-case functions, against a plain string type; distinct counts different contents'),
 'L04': dict(
    harnesses=[dict(src=['lib_utf.cpp'], lib='rlib', mode='asan')],
    rule='every code point is encoded into every buffer size and decoded again with several continuations; every sequence over the representatives of all byte classes up to the stated length, every pair (thorough: triple) of bytes and every sequence of UTF-16 units with and without an odd byte is decoded at every position and with every end; distinct counts different decodings'),
 'L06': dict(
    harnesses=[dict(src=['lib_mem.cpp'], lib='rpa', mode='asan', link=['-Wl,--wrap=malloc', '-Wl,--wrap=calloc', '-Wl,--wrap=realloc', '-Wl,--wrap=free'])],
    rule='every history of the stated allocator calls, with any request refused; every history of growing operations with each underlying request refused in turn; every create/use/destroy history of collector, reference, grammar, expression and machine objects; the account and the number of underlying blocks are compared with the live allocations; distinct counts different sequences of outcomes'),
 'J01': dict(
    harnesses=[dict(src=['json_c.cpp'], extra=['@REPO/rexjson/rexjson.c'], gen=gen_rexjson, extradefs=['-I', '/repo/rexjson'], mode='asan')],
    rule='every sequence of tokens, number characters, string characters, bytes and words up to the stated lengths, every document with up to the stated number of nodes and every prefix of it, is parsed with ample limits and with every smaller record count and depth; result, records, spans and tree navigation are compared with an independent reader; distinct counts different results'),
 'J02': dict(
    harnesses=[dict(src=['json_cpp.cpp'], extra=['@REPO/rexjson/rexjson++.cpp'], gen=gen_rexjson, extradefs=['-I', '/repo/rexjson'], mode='asan')],
    rule='every text of the stated spaces is read and compared with an independent reader, for every depth limit; every value of the stated spaces (trees, reals by precision, all strings of two bytes, all \\u escapes) is written in every format and read back by both readers; every history of assignments, self-assignments, moves and reads up to the stated length is compared with a plain value model; distinct counts different results'),
 'J03': dict(
    harnesses=[dict(src=['json_rpc.cpp'], extra=['@REPO/rexjson/rexjson++.cpp'], gen=gen_rexjson, extradefs=['-I', '/repo/rexjson'], mode='asan')],
    rule='every request over the stated ids, methods and parameter lists is given as value, as text and by name in every mode, every token sequence and every one-byte mutation or prefix of the sample requests as text, and every history of the stated requests up to the stated length; the reply and the number of times each method ran are compared with a model; distinct counts different replies'),
 'J04': dict(
    harnesses=[dict(src=['json_prop.cpp'], extra=['@REPO/rexjson/rexjson++.cpp', '@REPO/rexjsonrpc/property.cpp'], gen=gen_rexjson, extradefs=['-I', '/repo/rexjson'], mode='asan')],
    rule='every tree up to the stated size is enumerated, navigated and copied, every path over the stated alphabet is navigated in every small tree, every write history over the stated values is applied to every kind of variable with every access right and hook, and every history of copies and assignments is applied to the seed trees; results, variables and hook calls are compared with a model; distinct counts different outcomes'),
 'P08': dict(
    harnesses=[dict(src=['rpa_limits.cpp'], lib='rpa', mode='asan')],
    rule='every grammar of the stated shapes is matched, parsed and scanned with every stack size from one slot up to three sizes that suffice, with every combination of abort directives, and with the abort call made before and after every executed instruction; each outcome must be the one of the reference evaluator or an error, and the next call must be unaffected; distinct counts different outcome vectors'),
 'P06': dict(
    harnesses=[dict(src=['rpa_hist.cpp'], lib='rpa', mode='asan'), dict(src=['rpa_hist.cpp'], lib='rpa', mode='fast', defs=['-DONLY_APART'])],
    rule='every grammar of the stated shapes (with and without abort directives) is scanned over every text from every position in every encoding against the reference evaluator; every malformed text against the matcher at each position; every history of the stated calls (rules, kinds, texts in one buffer, encodings, cache settings, refused calls) up to the stated length on one matcher: each outcome must be the one the call has on a fresh matcher, also when two calls are any number of other calls (to 258, and 2^k) apart; distinct counts different outcome sequences'),
 'P05': dict(
    harnesses=[dict(src=['rpa_text.cpp'], lib='rpa', mode='fast', defs=['-DREPO="/repo"']), dict(src=['rpa_text.cpp'], lib='rpa', mode='asan', defs=['-DREPO="/repo"'])],
    rule='every text over the stated token alphabets and lengths, every cut and every one-character edit of the grammars that come with the project, and every depth and length of the stated shapes is loaded; acceptance, error code, offset, line and name, the declared items, what every rule matches and records, reuse of the handle after a refusal, and the memory still allocated after destruction are compared with a reference reader; distinct counts texts with different outcome'),
 'L05': dict(
    harnesses=[dict(src=['lib_sync.cpp'], lib='rlib', mode='fast', libmode=SCHED)],
    technique='stateless model checking of the real code under a controlled scheduler: every interleaving within the preemption bound is executed, with happens-before race detection',
    rule='every schedule (up to the stated number of preemptions; scheduling points before every shared memory access and atomic operation of the real code) of every program of the stated operations and lengths on two to four threads; each execution is checked for mutual exclusion, deadlock, data races (vector clocks), use of released memory, a sequential explanation of all returned values, and the final state; distinct counts different outcomes'),
 'P07': dict(
    harnesses=[dict(src=['rpa_share.cpp'], lib='rpa', mode='fast', libmode=SCHED)],
    technique='stateless model checking of the real code under a controlled scheduler: every interleaving within the preemption bound is executed, with happens-before race detection and a write-protected shared object',
    rule='every schedule with up to the stated number of preemptions (scheduling points at every function entry and every atomic operation of the real code) of two and three threads that match, parse, scan and walk automata on one shared compiled object, from the stated grammars, expressions and inputs; every call must give what it gives alone, and in every execution no access may race (vector clocks) and nothing of the shared object, which is write-protected, may be written; distinct counts different result vectors'),
 'R05': dict(
    harnesses=[dict(src=['rex_cc.cpp'], lib='rex', mode='fast', defs=['-DREPO="/repo"'], link=['-ldl'], gen=lambda repo, bdir, sh, die: build_rexcc(repo, bdir, sh, die, flags=('-O1', '-g1', '-fsanitize=address')))],
    rule='every token file of the stated shapes (expressions, number of tokens, identifiers, separators, line ends, continuation lines, prologs, epilogs, options) and every stated malformed or cut file is run through the real rexcc; the generated C is compiled and loaded, and its table walked with the macros of its header over every input of the stated alphabets and lengths against the reference matcher and the in-memory automaton; distinct counts different vectors of results'),
 'G01': dict(
    harnesses=[dict(src=['grep_rex.cpp'], lib='rex', mode='asan', extra=['@REPO/rexgrep/rexgrep.c', '@REPO/rexgrep/rexgrep-main.c', '@REPO/rexgrep/unix/rexgrepdep.c', '@REPO/rexgrep/unix/fsenum.c'],
                    extradefs=['-Dmain=tool_main', '-I', '/repo/rexgrep', '-I', '/repo/rexgrep/unix'], link=['-Wl,--wrap=mmap', '-Wl,--wrap=munmap']),
               dict(src=['grep_rpa.cpp'], lib='rpa', mode='asan', extra=['@REPO/rpagrep/rpagrep.c', '@REPO/rpagrep/rpagreputf.c', '@REPO/rpagrep/unix/rpagrep-main.c', '@REPO/rpagrep/unix/rpagrepdep.c', '@REPO/rpagrep/unix/fsenum.c'],
                    extradefs=['-Dmain=tool_main', '-I', '/repo/rpagrep', '-I', '/repo/rpagrep/unix'], link=['-Wl,--wrap=mmap', '-Wl,--wrap=munmap']),
               dict(src=['grep_rpa.cpp'], lib='rpa', mode='fast', extra=['@REPO/rpagrep/rpagrep.c', '@REPO/rpagrep/rpagreputf.c', '@REPO/rpagrep/unix/rpagrep-main.c', '@REPO/rpagrep/unix/rpagrepdep.c', '@REPO/rpagrep/unix/fsenum.c'],
                    extradefs=['-Dmain=tool_main', '-I', '/repo/rpagrep', '-I', '/repo/rpagrep/unix'], link=['-Wl,--wrap=mmap', '-Wl,--wrap=munmap'])],
    rule='every expression or grammar of the stated shapes with every stated combination of options is given to the real main function of rexgrep and rpagrep on texts, files, standard input and directories (every text over the stated alphabets and lengths, every file size around the buffer and page boundaries); the printed bytes and the exit status are compared with what the reference matcher says; distinct counts different outputs'),
}
