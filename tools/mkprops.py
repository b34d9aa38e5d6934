#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif to regenerate it)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))

p("R01","Regex match length is the longest prefix in the pattern's language",
 "For every valid regular expression and every input, matching at the start of the input reports exactly the length of the longest non-empty prefix that belongs to the language the expression denotes (0 when there is none). "
 "The language is the textbook one for characters, escapes, '.', bracket classes with ranges, negation and numeric codes, grouping, alternation, *, +, ?, and the counted forms {n}, {n,} and {n,m}, including nested ones. "
 "The result is the same through the NFA simulator, the DFA simulator, a precomputed full DFA and the one-call regex interface, for byte and UTF-8 input alike.",
 ["inputs","programs"],"all expressions and all inputs; checked over every expression built by a small grammar up to a size bound and every input over a small alphabet up to a length bound",
 "the gtest cases try a few dozen fixed expression/input pairs; the guarantee is about every pair and about five execution paths agreeing",
 ["rex/rexcompiler.c","rex/rexdb.c","rex/rexdfa.c","rex/rexdfasimulator.c","rex/rexnfasimulator.c","rex/rexregex.c","rex/rextransition.c"],
 [("Thompson construction of fragments","rex/rexcompiler.c"),("subset construction with range splitting","rex/rexdb.c"),("full DFA freeze","rex/rexdfa.c, rex/rexdb.c rex_db_todfa"),("longest-match loops","rex/rexregex.c, rex/rexdfasimulator.c, rex/rexnfasimulator.c")],
 [("fragment stack and repeat counts","pending pieces of the expression under construction","rex/rexcompiler.h")],
 ["rex_regex_match_s","rex_dfasimulator_run","rex_nfasimulator_run","REX_DFA_NEXT over rexdfa_t"])

p("R02","Scanning finds the leftmost match, and its full length, always",
 "Scanning an input for a valid regular expression reports a match exactly when some position of the input starts a non-empty match; the reported position is the leftmost such position and the reported length is the longest match there. "
 "This holds for byte and UTF-8 scanning wherever the match lies (at the very start, at the very end, adjacent to a failed partial match), so the prefilter never hides a match.",
 ["inputs","programs"],"all expressions, all inputs, all match positions",
 "the tests scan few texts; the hash prefilter is only wrong for particular (expression, position, tail) combinations",
 ["rex/rexregex.c","rex/rexdfa.c","rex/rexdfa.h"],
 [("hash bit-array prefilter","rex/rexdfa.c rex_dfa_hash"),("scan loops","rex/rexregex.c rex_regex_scan*")],
 [("dfa bits","which hashes of the next bytes can start a match","rex/rexdfa.h rexdfa_t.bits")],["rex_regex_scan_s","rex_regex_scan"])

p("R03","Multi-expression automata are deterministic, total and name every match",
 "When several expressions are added to one database, the automaton built from it accepts an input exactly when at least one expression does, and at the accepting state it lists exactly the user tags of those expressions that match that input. "
 "In every state the transitions are disjoint, ordered and cover the whole character range, so exactly one transition applies to every character and a dead state is never left.",
 ["inputs","programs"],"all sets of expressions (up to 3 at once in the check) and all inputs",
 "tests check one or two fixed sets; tag bookkeeping and range splitting go wrong only for particular overlaps between expressions",
 ["rex/rexdb.c","rex/rexdfa.c","rex/rexstate.c","rex/rextransition.c"],
 [("sub-state sets","rex/rexdb.c rex_db_createstate_subset"),("range splitting","rex/rextransition.c"),("tag tables of the frozen DFA","rex/rexdb.c rex_db_todfa")],
 [("sub-states","NFA states a DFA state stands for, with their user tags","rex/rexstate.h")],["rex_dfa_state","rex_dfa_accsubstate","rex_dfasimulator_run"])

p("R04","Malformed regular expressions are rejected cleanly and change nothing",
 "Adding a malformed regular expression (unbalanced brackets, dangling operator, bad range or repeat, truncated escape, stray bytes) reports an error, never crashes, hangs, leaks or corrupts memory, and leaves the database usable so that expressions added later behave as if the bad one had never been tried. "
 "Every text is either rejected or given the meaning of R01; no prefix of a malformed text is silently accepted as the whole expression. "
 "An expression ends with its line: an unescaped line end ends it, a backslash in front of a line end continues it where blanks may stand, and behind '|' any white space may stand. A NUL character is a character like any other.",
 ["inputs"],"all texts over the operator alphabet up to a length bound, all interleavings of one bad and one good expression",
 "the tests contain a handful of bad patterns; error paths depend on what was on the fragment stack",
 ["rex/rexcompiler.c","rex/rexregex.c","rex/rexdb.c"],
 [("token grammar and error returns","rex/rexcompiler.c"),("cleanup on failed init","rex/rexregex.c rex_regex_init")],(),["rex_db_addexpression_s","rex_regex_create_s","r_debug_get_allocmem"])

p("R05","Exported automata behave exactly like the in-memory ones",
 "A table generated as C source from a token file accepts exactly the same inputs, with the same longest-match lengths and the same token numbers, as matching the token file's expressions directly; the token chosen for an input matched by several expressions is among the matching ones and is the first listed. "
 "Generation is deterministic and the generated source compiles.",
 ["inputs","programs"],"all small token files and all inputs up to the bounds",
 "the repository builds one token file (the JSON lexer) and only runs it on a few texts",
 ["rexcc/rexcc.c","rexcc/rexccmain.c","rex/rexdfa.c","rexjson/rexdfatypes.h"],
 [("table writer","rexcc/rexcc.c rex_cc_output*"),("token file reader","rexcc/rexcc.c rex_cc_parse")],(),["generated C tables","rexcc command line"])

p("P01","A compiled grammar matches exactly what its parsing expressions define",
 "For every valid grammar and every input, matching a rule succeeds exactly when the rule's parsing-expression meaning succeeds and consumes exactly that many characters: sequences in order, ordered choice with backtracking, greedy ? + *, bracketed groups, character classes and ranges, strings, any-character, not-followed-by (^), exclusion (-), and references to other rules, where an empty result of a rule or alternative counts as failure. "
 "Failure of the rule is reported as failure and never as a shorter or longer match.",
 ["inputs","programs"],"all grammars built from the documented operators up to a size bound and all inputs over a small alphabet up to a length bound",
 "the testrpa and gtest suites run about 200 hand-written grammar/input pairs; backtracking bugs need particular combinations of failing and succeeding parts",
 ["rpa/rpacompiler.c","rpa/rpadbex.c","rpa/rpaparser.c","rpa/rpavm.c","rpa/rpastat.c","rpa/rpaoptimization.c","rvm/rvmcpu.c"],
 [("code generation per production","rpa/rpadbex.c rpa_parseinfo_*/rpa_dbex_play_recordhandlers"),("match opcodes","rpa/rpavm.c, rpa/rpastat.c"),("position/record save and restore on backtrack","rpa/rpacompiler.c, rpa/rpavm.c")],
 [("R_TOP, R_REC, R_OTP","input position, record count and rule start during a match","rpa/rpavm.h")],["rpa_stat_match","rpa_stat_parse"])

p("P02","Left-recursive grammars parse left-associatively and always terminate",
 "Direct and indirect left recursion is accepted: a rule E with non-recursive alternatives b and recursive alternatives E t matches the first alternative b that succeeds followed by as many tails t as can be matched greedily, in any textual order of the alternatives, and the parse tree nests to the left. "
 "Lengths and trees are defined where a rule lies on one left-recursive cycle and its looping reference is not itself repeated with * or + nor put under ^ or -. "
 "Matching any grammar, left recursive or not, on any input terminates.",
 ["inputs","programs"],"all small left-recursive grammars (direct, indirect through one or two other rules, several recursive alternatives) and all short inputs",
 "tests contain several arithmetic-style grammars with a few inputs each",
 ["rpa/rpadbex.c","rpa/rpacompiler.c","rpa/rpastat.c","rpa/rpavm.c"],
 [("seed growing loop","rpa/rpacompiler.c loop begin/end"),("loop path detection","rpa/rpadbex.c"),("record normalisation","rpa/rpastat.c, rpa/rparecord.c")],
 [("R_LOO","length of the seed currently being grown","rpa/rpavm.h")],["rpa_stat_match","rpa_stat_parse"])

p("P03","Parse records form the exact, well-nested tree of the successful parse",
 "A successful parse returns start and end records that are properly nested, lie within their parent's span and within the input, carry the right rule name and identifiers, and are exactly those of the successful derivation: nothing from abandoned alternatives, nothing missing. "
 "Which rules produce records is decided only by the emission directives, never changing what is matched, and tree navigation (first child, last child, next, previous, parent, copy) agrees with that nesting. "
 "Emission directives are those written in front of the rules; walking a tree nested deeper than 128 levels may be refused.",
 ["inputs","programs"],"all small grammars, all inputs, all emission directive settings per rule",
 "tests print or count records for a few grammars; stale records appear only after particular backtracking",
 ["rpa/rpastat.c","rpa/rparecord.c","rpa/rpacompiler.c","rpa/rpavm.c","rpa/rpadbex.c"],
 [("record emission opcodes","rpa/rpavm.c"),("record rollback","rpa/rpastat.c"),("tree navigation","rpa/rparecord.c")],
 [("records array","flat list of start/end records","rpa/rparecord.h")],["rpa_stat_parse records","rpa_recordtree_*"])

p("P04","Optimisation, prefilter, cache and encoding never change a result",
 "For every grammar and input the match result and the records are identical whatever combination of optimisation level, first-character prefilter and result cache is in force. "
 "The same characters given as bytes (when all are below 128), UTF-8 or UTF-16LE match the same number of characters, and case-insensitive matching equals case-sensitive matching after folding ASCII letters.",
 ["configurations","inputs","programs"],"all combinations of settings x all small grammars x all short inputs",
 "tests run nearly always in the default configuration",
 ["rpa/rpaoptimization.c","rpa/rpabitmap.c","rpa/rpacache.c","rpa/rpadbex.c","rpa/rpastat.c","rpa/rpavm.c"],
 [("record optimisations","rpa/rpaoptimization.c"),("first-set bitmaps","rpa/rpabitmap.c, rpa/rpacompiler.c"),("memo cache keyed on position and rule","rpa/rpacache.c"),("decoding input","rpa/rpastat.c rpa_stat_shift_*")],
 [("bitmap","64-bit over-approximation of the first characters of a rule","rpa/rpabitmap.h"),("cache","earlier results at a position","rpa/rpacache.h")],["rpa_dbex_cfgset","rpa_stat_cachedisable","rpa_stat_match encoding argument"])

p("P05","Malformed grammars are rejected with an error and leave the handle usable",
 "Loading a malformed grammar text or compiling a grammar with an undefined rule reports failure with the matching error code (and the undefined name), never crashes, hangs, leaks or corrupts memory, and the handle can afterwards be closed, destroyed, or reopened with a valid grammar that then behaves normally. "
 "A text that is not rejected is given its defined meaning in full, and the handle's state decides what each call may do: loading needs an open database, compiling and looking up a closed one, matching a compiled one, and what was loaded earlier stays. "
 "A text nested deeper than the parser can follow is refused with an error. Not specified: numbers beyond 32 bits, references written <:name:>, and the meaning of a name defined twice with different bodies.",
 ["inputs","histories"],"all short texts over the grammar's operator alphabet; all short histories of open/load/close/compile/match calls mixing good and bad grammars",
 "tests have a few bad grammars and always use the API in the intended order",
 ["rpa/rpadbex.c","rpa/rpaparser.c","rpa/rpacompiler.c"],
 [("grammar parser and error info","rpa/rpaparser.c, rpa/rpadbex.c"),("handle state checks","rpa/rpadbex.c open/load/close/compile")],(),["rpa_dbex_load","rpa_dbex_compile","rpa_dbex_lasterror","rpa_dbex_lasterrorinfo"])

p("P06","Earlier calls never influence later ones; scan finds the leftmost match",
 "The result of a match, parse or scan depends only on the compiled grammar, the rule, the encoding and the input given in that call: any history of earlier calls on the same matcher (successful, failed, other rules, other inputs in the same buffer, other encodings) leaves it unchanged. "
 "Scanning returns the leftmost position at which the rule matches together with that match's length, or reports no match.",
 ["histories","inputs"],"all call histories up to a depth over a small set of rules, inputs and encodings, compared with a fresh matcher",
 "each test uses a fresh matcher for one input",
 ["rpa/rpastat.c","rpa/rpacache.c","rpa/rpavm.c"],
 [("state reset before each execution","rpa/rpastat.c rpa_stat_init/rpa_stat_exec"),("cache invalidation","rpa/rpacache.c"),("scan loop","rpa/rpastat.c rpa_stat_scan")],
 [("matcher instance","vm, input window, records, cache reused between calls","rpa/rpastatpriv.h")],["rpa_stat_match","rpa_stat_parse","rpa_stat_scan"])

p("P07","Threads may share one compiled database, each with its own matcher",
 "Any number of threads, each with its own matcher or simulator, can match concurrently against the same compiled grammar or the same precomputed regular-expression automaton, and every call returns what it would return alone, under every interleaving. "
 "Matching writes nothing into the shared compiled object.",
 ["schedules"],"all interleavings (up to a preemption bound) of two threads matching on one shared compiled object",
 "no test is multi-threaded",
 ["rpa/rpastat.c","rpa/rpadbex.c","rvm/rvmcpu.c","rex/rexdfasimulator.c","rlib/rmem.c","rlib/rspinlock.c"],
 [("per-matcher state only","rpa/rpastatpriv.h"),("locked allocation counters","rlib/rmem.c")],(),["rpa_stat_match","rpa_stat_parse","rex_dfa_next"])

p("P08","Exhausted resources and aborts surface as errors, never as wrong matches",
 "When a match runs out of its virtual machine stack, or an abort directive or abort call stops it, the call reports failure together with a non-zero error code, without memory corruption; with enough stack the result is the one P01 defines. "
 "For every stack size the outcome is either that same correct result or the error. Not specified: abort directives for left-recursive rules.",
 ["inputs","fault_sequences"],"all small stack sizes, recursion depths and abort points",
 "tests only use the default stack and succeed",
 ["rpa/rpastat.c","rpa/rpavm.c","rvm/rvmcpu.c"],
 [("stack bound checks","rvm/rvmcpu.c"),("error propagation","rpa/rpastat.c rpa_stat_exec")],(),["rpa_stat_match","rpa_stat_lasterror"])

p("V01","Virtual machine instructions compute their defined result and flags",
 "Every arithmetic, logic, shift, compare and move instruction writes exactly the defined value to its destination and leaves all other registers alone; the zero, negative, carry and overflow flags are those of the exact result for the flag-setting forms and unchanged otherwise. "
 "Signed and unsigned division by zero is reported as an error. Conditional branches are taken exactly when their condition on the flags is true, for all flag combinations and distances. "
 "Not specified: shifts by 64 or more. After a subtraction or comparison the overflow flag is set when the operands' signs differ and the result keeps the first one's sign, and a comparison's carry is the borrow, as the machine's own tests define them.",
 ["inputs","programs"],"all instructions x boundary operand values x all incoming flag settings x register/immediate forms",
 "the asm tests execute each opcode with one or two operand values",
 ["rvm/rvmcpu.c","rvm/rvmcpu.h"],
 [("instruction handlers","rvm/rvmcpu.c"),("flag macros","rvm/rvmcpu.h")],
 [("status register","Z N C V flags","rvm/rvmcpu.h")],["rvm_cpu_exec","RVM_CPUREG_GETU","rvm_cpu_getreg"])

p("V02","Control flow, memory and stack instructions follow the machine model",
 "Executing any program follows the machine model step by step: branches and calls go to their target under their condition, return resumes after the call, push/pop and multi-register push/pop are last-in-first-out inverses, loads and stores of each width read and write exactly the addressed bytes with the defined extension, and stack-relative accesses address the current frame. "
 "A run that reaches its exit returns with the registers of the model.",
 ["programs"],"all programs up to a small length over a small instruction alphabet, executed against a reference interpreter",
 "tests run fixed programs of a few lines",
 ["rvm/rvmcpu.c","rvm/rvmcodegen.c"],
 [("handlers for B/BL/RET/PUSH/POP/PUSHM/POPM/LD*/ST*","rvm/rvmcpu.c")],(),["rvm_cpu_exec","rvm_cpu_exec_debug"])

p("V03","Labels, jumps and relocations resolve to the intended instruction",
 "However code, labels and references to labels are emitted (references before or after the definition, several references to one label, labels redefined, functions and data blocks mixed in), every reference resolves to the address of the label's last definition, other instructions are untouched, and an unresolved label is reported by name instead of producing code. "
 "Repeated relocation and re-use of a cleared generator give the same code as a fresh one.",
 ["histories"],"all short histories of emit/label/reference/redefine/relocate operations",
 "tests relocate a few fixed functions",
 ["rvm/rvmcodegen.c","rvm/rvmcodemap.c","rvm/rvmrelocmap.c"],
 [("code map","rvm/rvmcodemap.c"),("relocation list","rvm/rvmrelocmap.c"),("emit functions","rvm/rvmcodegen.c")],
 [("code map","label name to address","rvm/rvmcodemap.h")],["rvm_codegen_*","rvm_relocmap_relocate","rvm_codemap_lookup"])

p("V04","Nested scopes resolve each name to its innermost live binding",
 "For every sequence of scope push, pop and declaration, looking a name up yields the most recent live declaration of that name visible from the innermost scope, a lookup limited to the current scope sees only that scope, and leaving a scope makes exactly its declarations disappear and uncovers the shadowed ones. "
 "Scope counts and the number of live declarations always agree with the history.",
 ["histories"],"all push/pop/declare/lookup histories up to a depth over two names",
 "one unit program exercises one history",
 ["rvm/rvmscope.c"],[("scope stack and reverse lookup","rvm/rvmscope.c")],(),["rvm_scope_lookup","rvm_scope_tiplookup","rvm_scope_count"])

p("V05","A register keeps the kind and the value that were put into it",
 "A value put into a virtual machine register -- by the set and create functions, by an instruction constructor whose immediate a running program moves, pushes and pops -- is read back with the same kind, size and value, and overwriting, clearing or retyping one register changes only that one. "
 "Copying a register that holds a string, an array or a named array makes a separate object with equal contents (maps cannot be copied); a text is converted to the number it begins with, whole numbers as signed, with a decimal point as double. "
 "The collector's helper removes from a container, and from every collected container it reaches, exactly the references to collected objects, ends on cyclic structures, and leaves every container intact and usable.",
 ["values","histories"],"all histories of register operations up to a depth over two registers and every kind of value; all short numeric texts; all graphs of up to three containers",
 "the unit programs use one value of a few kinds",
 ["rvm/rvmreg.c","rvm/rvmcpu.c"],[("register values","rvm/rvmreg.c"),("instruction constructors","rvm/rvmcpu.c")],(),["rvm_reg_copy","rvm_reg_str2num","rvm_reg_array_unref_gcdata","rvm_asm"])

p("L01","Sequence containers behave as ordinary lists under every operation history",
 "For every history of operations, the dynamic array, the chunked array, the linked list, the queue-like uses and the string arrays built on them hold exactly the elements, in exactly the order, that a plain list would: append, insert, replace, remove, move, resize, copy and clear affect only what they name, indices stay valid, growth preserves contents. "
 "Out-of-range requests are refused without touching memory outside the container.",
 ["histories"],"all operation histories up to a depth over each container, with element counts crossing the growth boundaries",
 "the unit programs exercise one or two fixed histories per container",
 ["rlib/rarray.c","rlib/rcarray.c","rlib/rlist.c","rlib/rharray.c"],
 [("growth and element moves","rlib/rarray.c"),("chunk addressing","rlib/rcarray.c"),("link surgery","rlib/rlist.c")],(),["r_array_*","r_carray_*","r_list_*"])

p("L02","Keyed containers return the latest value per key, under any history",
 "For every history of insertions, replacements, deletions, lookups and clears, the hash table, the ordered map and the name-indexed array answer each lookup with what a plain dictionary holding the same history would, whether or not keys collide in a bucket, share prefixes, or are re-inserted after deletion. "
 "Iteration visits every live entry exactly once, and indices handed out for a key stay valid until it is removed. Inserting a key that is already present keeps both entries, the plain lookup answering the oldest and the tail lookup the newest, while replacing changes the oldest in place. Keys are text without NUL; a numeric key is its decimal text (15 decimals).",
 ["histories"],"all histories up to a depth over a few keys forced to collide",
 "unit programs use fixed histories without forced collisions",
 ["rlib/rhash.c","rlib/rmap.c","rlib/rharray.c"],
 [("bucket chains","rlib/rhash.c"),("free-slot recycling","rlib/rmap.c"),("name index","rlib/rharray.c")],(),["r_hash_*","r_map_*","r_harray_*"])

p("L03","String operations preserve exact contents and lengths",
 "Creating, assigning, concatenating, copying, comparing and converting strings, in any order and through any of the offered forms (counted, zero-terminated, formatted), yields exactly the bytes a plain string type would, always zero-terminated with the correct length, and comparison is a consistent total order. "
 "Copies are independent of their source. Text ends at its first NUL, also in counted form; appending a string's own buffer to itself is not specified.",
 ["histories","inputs"],"all short histories over a few strings including empty ones and ones crossing the growth size",
 "unit programs use a few fixed strings",
 ["rlib/rstring.c","rlib/robject.c"],[("string object","rlib/rstring.c")],(),["r_string_*","r_rstr*","r_strcmp family"])

p("L04","UTF-8 and UTF-16 decoding and encoding are exact inverses",
 "For every Unicode code point, encoding to UTF-8 or UTF-16 and decoding again gives the code point back, with the standard byte sequence and length; decoding never reads past the given end and always makes progress on non-empty input, and truncated or malformed sequences are consumed one byte at a time, each such byte standing for the character of the same number, so that no following valid character is swallowed. "
 "Byte, UTF-8 and UTF-16 views of the same text therefore agree on the characters they contain. Not specified: overlong forms and encoded surrogates.",
 ["inputs"],"all 1,114,112 code points; all byte sequences up to length 4 over the class representatives of UTF-8 lead and trail bytes",
 "no test covers code points beyond a few samples",
 ["rlib/rutf.c"],[("encoders and decoders","rlib/rutf.c")],(),["r_utf8_mbtowc","r_utf8_wctomb","r_utf16_mbtowc","r_utf16_wctomb"])

p("L05","Locks, atomic counters and reference counts are correct under all schedules",
 "Under every interleaving of threads, the spin lock admits at most one holder and is acquired by someone when free, a failed try-lock changes nothing, atomic increments, decrements, exchanges and compare-and-swaps lose no update and return the value they should, and a reference-counted object is destroyed exactly once, exactly when its last reference is dropped. The allocation counters shared by all threads lose no update.",
 ["schedules"],"all interleavings at memory-access granularity of 2 and 3 threads with 1 to 3 operations each",
 "one unit program runs threads freely, sampling schedules",
 ["rlib/rspinlock.c","rlib/rref.c","rlib/ratomic.c","rlib/rmem.c"],
 [("test-and-set lock","rlib/rspinlock.c"),("atomic primitives","rlib/ratomic.c"),("reference count","rlib/rref.c")],(),["r_spinlock_*","r_atomic_*","r_ref_inc","r_ref_dec"])

p("L06","Every allocation is released exactly once and accounted for exactly",
 "The reported amount of allocated memory equals the sum of the sizes of live allocations after every allocation, reallocation and release, and after every object the library offers is created, used in any way and destroyed, it is back to its earlier value, with no block freed twice or used after release. "
 "When an allocation is refused, the allocation functions, the string duplicating functions and a growing array report it and leave the existing contents and the accounting as they were; object constructors under refusal are not specified.",
 ["histories","fault_sequences"],"all allocate/reallocate/release histories up to a depth and all create/use/destroy histories of each object kind in the other checks",
 "tests check the counter at process end on success paths",
 ["rlib/rmem.c","rlib/robject.c","rlib/rgc.c"],[("size-tagged blocks and counter","rlib/rmem.c")],(),["r_debug_get_allocmem","r_debug_get_maxmem"])

p("J01","The record-based JSON parser accepts exactly JSON and reports exact spans",
 "Given any text, the C parser succeeds exactly when the text starts with a well-formed JSON value within the nesting and record limits, and its records then list, in document order and properly nested, every value with its kind, its exact span and the exact span of its member name. "
 "Malformed, truncated or too deep texts, and record buffers that are too small, give failure without reading or writing outside the given buffers.",
 ["inputs"],"all token sequences up to a length, all short character strings over JSON's alphabet, all buffer and level limits",
 "the test program parses five fixed documents",
 ["rexjson/rexjson.c","rexjson/rexjsondfa.rexcc"],[("token automaton","rexjson/rexjsondfa.rexcc"),("recursive descent","rexjson/rexjson.c")],(),["rexjson_parse_buffer","rexjson_recordtree_*"])

p("J02","JSON values survive writing and reading back unchanged",
 "Reading any well-formed JSON text yields the value it denotes (escapes decoded, integers exact within 64 bits, last duplicate member winning), and malformed text is refused with an exception. "
 "Writing any value, compact or formatted, produces well-formed JSON that reads back as an equal value (real numbers up to the requested precision, at least one digit; numbers that are not finite become null), and copies of a value are independent. Text given to constructors and assignments may use JSON escapes, which are decoded. Text after the first value, integers beyond 64 bits and lone surrogates are not specified.",
 ["inputs"],"all small values (nesting, strings over special characters, integer extremes) and all short texts over JSON's alphabet",
 "the test program only prints five fixed documents",
 ["rexjson/rexjson++.cpp","rexjson/rexjson++.h","rexjson/rexjsondfa.rexcc"],[("escape/unescape","rexjson/rexjson++.cpp"),("tokeniser and parser","rexjson/rexjson++.cpp input"),("writer","rexjson/rexjson++.cpp output")],(),["rexjson::read","rexjson::value::write","rexjson::value accessors"])

p("J03","Every RPC request gets one well-formed reply with its id and result or error",
 "Whatever request text or value is given, the server returns one object holding result, id and error; the id is the request's own, and exactly one of result and error is meaningful: a known method called with acceptable parameters runs once and returns its value, while a malformed request, an unknown method, missing or wrong-typed parameters or a failing method give an error object with the documented code and a message. "
 "No request can crash the server or affect a later one.",
 ["inputs","histories"],"all requests built from a small set of ids, methods and parameter lists, and all short histories of them",
 "nothing runs the server in the tests; it is only compiled",
 ["rexjsonrpc/rpcserver.h"],[("dispatch and error mapping","rexjsonrpc/rpcserver.h call"),("parameter conversion","rexjsonrpc/rpcserver.h rpc_wrapper")],(),["rexjson::rpc_server::call"])

p("J04","Property trees address exactly the bound variable with its access rights",
 "Navigating a property tree by a path of member names and indices reaches exactly the property bound there or fails with an exception for a path that does not exist; reading returns the bound variable's current value and writing changes that variable and no other, subject to the access rights and check hook, running the modified hook exactly once per successful write. "
 "A refused write changes nothing, and copies of a tree share its variables but not its nodes. Enumeration visits every leaf once under a path that navigates back to it. Member names containing a dot or bracket, values outside a variable's range and ranges of bool are not specified.",
 ["inputs","histories"],"all small property trees, paths and get/set histories",
 "nothing runs the property code in the tests; it is only compiled",
 ["rexjsonrpc/property.h","rexjsonrpc/property.cpp"],[("path navigation","rexjsonrpc/property.h navigate"),("typed access","rexjsonrpc/property.h property_object")],(),["rexjson::property"])

p("G01","The grep tools print exactly the matches their pattern defines",
 "For every pattern and text (given as an argument, on standard input, or in files), rexgrep and rpagrep print exactly the successive leftmost matches (rexgrep: the longest match at each place), or, in line mode, exactly the lines that contain a match, including a last line without newline; rpagrep also the match at the start, or the records of the parse. "
 "The output is independent of using the NFA, the DFA, its sub-states or a saved binary automaton (rexgrep), of the optimisation, prefilter and cache options and of byte, UTF-8 or UTF-16LE storage (rpagrep), and of the size of the text relative to buffers and pages. "
 "In a directory every regular file is searched once, hidden directories are not entered, and a directory that cannot be read is passed over. The exit status is 0 when something matches, 1 when nothing does and 2 when a pattern is refused, and then nothing is searched. Not specified: how control characters and undecodable bytes are printed by rpagrep, and its -a and -t output.",
 ["inputs","configurations"],"all small patterns, all short texts, all modes, every text size around buffer and page boundaries, all small directory trees",
 "the tests never run the tools except to build",
 ["rexgrep/rexgrep.c","rpagrep/rpagrep.c","rexgrep/rexgrep-main.c","rpagrep/unix/rpagrep-main.c","rexgrep/unix/fsenum.c","rpagrep/unix/fsenum.c"],[("scan loops and prefilter","rexgrep/rexgrep.c"),("file reading and line splitting","rpagrep/rpagrep.c")],(),["rexgrep and rpagrep standard output and exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
