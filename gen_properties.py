#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable and editable)."""
import json
A="projectm-eval/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","Operators group by the fixed precedence ladder",
 "Every expression is grouped by one precedence ladder, loosest to tightest: `=`; `+= -=`; `*= /= %=`; `^= |= &=`; `?:`; `||`; `&&`; `|`; `&`; `== !=`; `> >=`; `< <=`; `+ -`; `* /`; `%`; `!`; `^`; unary `+ -`; subscript `[]`. Assignments and `?:` group right to left, all other binary operators left to right. An expression and its fully parenthesised form therefore give the same result and the same side effects in every state.",
 ["programs","inputs"],"all operator sequences (with prefix operators and subscripts) over all operand values",
 "Two tests sample one ordering of * / and one of * %; the remaining ~30 operators and their pairwise/triple combinations are never compiled by a test.",
 [A+"Compiler.y",A+"Compiler.c",A+"Scanner.l",A+"Scanner.c"],
 [("bison precedence declarations",A+"Compiler.y %right/%left block"),("operator token rules",A+"Scanner.l Operators section"),("operator reductions",A+"Compiler.y expression")],
 observe=["projectm_eval_code_execute result","registered variables"])
p("C02","Exactly the documented syntax is accepted, all-or-nothing",
 "A text compiles if and only if it is a (possibly empty) semicolon-separated list of expressions of the documented syntax, with optional trailing semicolons and empty items `()`, every built-in being called with exactly its number of arguments. Any single error anywhere makes the whole compilation fail and return no handle, and an accepted text is executed completely, with nothing dropped or added.",
 ["inputs"],"all token sequences",
 "Tests compile ten hand-written valid programs and no invalid one.",
 [A+"Compiler.y",A+"Compiler.c",A+"CompilerFunctions.c",A+"CompileContext.c"],
 [("LALR(1) grammar with LAC",A+"Compiler.y"),("argument count check",A+"CompilerFunctions.c prjm_eval_compiler_create_function"),("parse result check",A+"CompileContext.c prjm_eval_compile_code")],
 observe=["projectm_eval_code_compile return value"])
p("C03","Literals, names, comments and whitespace are read as documented",
 "Decimal numbers with optional fraction and exponent, `$X` hexadecimal, `$'c'` ordinal and `$PI`/`$E`/`$PHI` constants (case-insensitive) denote exactly their documented values, and tokens are formed by longest match. Whitespace, `//` and `/* */` comments may appear between any two tokens without changing the meaning of the program or being visible anywhere. Compiling or executing never writes anything to the standard streams.",
 ["inputs"],"all character strings",
 "Tests contain no comment, hexadecimal, ordinal, exponent or named constant.",
 [A+"Scanner.l",A+"Scanner.c"],
 [("flex rules and start conditions",A+"Scanner.l"),("constant conversions",A+"Scanner.l Constants section")],
 observe=["execute result","stdout/stderr"])
p("C04","Every operator and built-in function computes its documented value",
 "For every combination of argument values, each operator, built-in function and alias returns the value its documentation defines, including the guarded cases: division or modulo by zero yields 0, comparisons and boolean operators yield exactly 0 or 1, `&`, `|` and their assignment forms work bitwise on the integer parts. Operator form, function form and alias agree, and literal, variable and memory operands agree.",
 ["inputs"],"all argument values (finite and special) for every function and operator",
 "Tests execute only = * / % and sin on one fixed operand set each.",
 [A+"TreeFunctions.c",A+"Compiler.y",A+"Scanner.l"],
 [("intrinsic function table",A+"TreeFunctions.c intrinsic_function_table"),("prjm_eval_func_*",A+"TreeFunctions.c")],
 observe=["execute result"])
p("C05","A program changes exactly the storage it designates, and nothing else",
 "Executing a program writes only the variables, registers and buffer slots that its assignments, compound assignments, memcpy and memset designate, including targets selected through if, ?:, exec2, exec3, parenthesised lists, loop, while or nested assignments. Evaluating an operand never modifies the storage it refers to, and assigning to a plain value changes nothing but yields the assigned value.",
 ["programs","inputs"],"all programs over the reference-passing constructs from all small states",
 "One test assigns one variable; no test uses a reference-returning expression as an assignment target or as an argument of a multi-argument construct.",
 [A+"TreeFunctions.c",A+"api/projectm-eval.c"],
 [("value-or-reference return protocol","docs/Compiler-Internals.md, "+A+"TreeFunctions.c assign_ret_val/assign_ret_ref"),("scratch value per node",A+"CompilerTypes.h prjm_eval_exptreenode.value")],
 state=[("ret_val","where a node's result goes; after evaluation it may alias user storage",A+"TreeFunctions.c")],
 observe=["registered variables","reg array","megabuf/gmegabuf slots","execute result"])
p("C06","Control flow: evaluation order, laziness, iteration counts and limits",
 "Arguments, operands and list items are evaluated left to right, each exactly once, except that if/?: evaluate only the selected branch, && and || (and _and/_or) evaluate the right side only when needed, and the loop and while bodies repeat. loop(n,e) runs e exactly n times for the integer part of n (none when n < 1), while(e) runs e at least once and until it yields 0, and both stop after 2^20 iterations whatever the count or condition is. A list, exec2, exec3, if, loop or while yields the result of the last expression it executed.",
 ["programs","inputs"],"all nestings of control constructs, all loop counts",
 "One while test with a constant-false condition; no test of loop, if, ?:, &&, ||, exec2/exec3, of nesting, or of the iteration limits.",
 [A+"TreeFunctions.c",A+"Compiler.y",A+"CompilerFunctions.c"],
 [("prjm_eval_func_if/execute_loop/execute_while/execute_list/exec2/exec3/band_op/bor_op",A+"TreeFunctions.c"),("mapping of && || ?: to functions",A+"Compiler.y")],
 observe=["trace left in variables","execute result"])
p("C07","Compile-time optimisation is unobservable",
 "Constant folding and the removal of list items without side effects never change what a program does: replacing any literal by an equal-valued non-constant expression, or forcing any discarded list item to be kept, yields the same results and the same final state. Nothing with a side effect is ever removed or executed at compile time.",
 ["programs"],"all programs mixing constant and non-constant sub-expressions and lists with discarded items",
 "Three fixed lists are tested; which node is folded or dropped depends on the shape of the whole tree.",
 [A+"CompilerFunctions.c",A+"TreeFunctions.c"],
 [("is_const_eval / is_state_changing propagation",A+"CompilerFunctions.c prjm_eval_compiler_create_expression"),("list item removal",A+"CompilerFunctions.c prjm_eval_compiler_add_instruction")],
 state=[("instr_/list_ is_const_expr, is_state_changing","flags deciding folding and removal",A+"CompilerTypes.h prjm_eval_compiler_node")],
 observe=["execute result","registered variables"])
p("C08","Code handles hold no hidden state and are independent of each other",
 "What an execution does depends only on the program text and on the current contents of the context's variables, registers and buffers, never on earlier executions, on other handles in the context, or on the order of compilation. Handles can be executed any number of times, interleaved, recompiled and destroyed in any order, and destroying one affects neither stored values nor other handles.",
 ["histories","programs"],"all interleavings of compile, execute and destroy over several handles in one context",
 "Each test executes each handle once; state kept in tree nodes between executions is never exposed.",
 [A+"TreeFunctions.c",A+"CompileContext.c",A+"ExpressionTree.c"],
 [("scratch values reset on entry",A+"TreeFunctions.c ctx->value"),("tree ownership by handle",A+"CompileContext.c prjm_eval_compile_code / prjm_eval_destroy_code")],
 observe=["execute result","registered variables"])
p("C09","megabuf and gmegabuf are zero-initialised arrays of 2^23 independent slots",
 "Every index 0..8388607 of megabuf and of gmegabuf is an independent slot that reads 0 until written and then the last value written, whichever notation is used (megabuf()/_mem()/i[]/i[off], gmegabuf()/_gmem()/gmem[i]), and a fractional index addresses the next lower slot unless it is within 0.0001 below the next integer, which then is addressed. Any other index (negative, too large, non-finite) reads as the value 0 and writing through it changes nothing.",
 ["inputs","histories"],"all indices and all orders of writes and reads",
 "Tests write gmem[100] once and never read it back; block boundaries, out-of-range and fractional indices are never touched.",
 [A+"MemoryBuffer.c",A+"TreeFunctions.c",A+"Compiler.y"],
 [("lazy block allocation",A+"MemoryBuffer.c prjm_eval_memory_allocate"),("index conversion",A+"TreeFunctions.c prjm_eval_func_mem"),("subscript reductions",A+"Compiler.y")],
 state=[("block table","128 pointers to 65536-value blocks",A+"MemoryBuffer.c")],
 observe=["values read back by scripts"])
p("C10","memset and memcpy affect exactly the trimmed range, also when overlapping",
 "memset(d,v,n) sets exactly the slots of [d,d+n) that exist, and memcpy(d,s,n) sets exactly the destination slots i whose own index and source index both exist, to the value the source slot had before the call, even when the areas overlap or span blocks. All other slots keep their values for every d, s, n, including negative, fractional (converted like an index), huge and non-finite ones, and both return d.",
 ["inputs","histories"],"all (destination, source/value, count) triples relative to block and buffer boundaries",
 "No test calls memset or memcpy.",
 [A+"MemoryBuffer.c",A+"TreeFunctions.c"],
 [("range trimming and chunked copy",A+"MemoryBuffer.c prjm_eval_memory_copy / prjm_eval_memory_set")],
 observe=["values read back by scripts","execute result"])
p("C11","One case-insensitive name denotes one stable storage location",
 "Within a context, every spelling of a variable name that differs only in letter case, used in any code compiled or registration made before or after, denotes the same storage, names that differ otherwise denote different storage, and a registered pointer stays valid and attached to its name for the whole life of the context. reg00..reg99 denote the 100 entries of the register array the context was created with (or the built-in one), near-misses such as reg0, reg100 or regx1 are ordinary variables, and built-in function names are recognised in any letter case.",
 ["inputs","histories"],"all names, all orders of registration and compilation",
 "Tests use x, y, z in lower case and never a reg variable.",
 [A+"TreeVariables.c",A+"CompilerFunctions.c",A+"Scanner.l"],
 [("prjm_eval_register_variable",A+"TreeVariables.c"),("prjm_eval_compiler_name_is_function",A+"CompilerFunctions.c")],
 state=[("cctx->variables","list of heap-allocated variables",A+"CompilerTypes.h"),("global_variables","custom or built-in reg array",A+"TreeVariables.c")],
 observe=["registered pointers","execute result"])
p("C12","Compile errors are reported with message and location, and only then",
 "After a failed compilation the context reports a non-empty message together with the line (from 1) and column (characters before it on its line) of the first offending token, or of the call for a wrong argument count, no matter which whitespace or comments precede it. After a successful compilation, and in a fresh context, no error is reported.",
 ["inputs","histories"],"all rejected texts, all sequences of failing and succeeding compilations",
 "No test looks at an error.",
 [A+"CompilerFunctions.c",A+"CompileContext.c",A+"Scanner.l",A+"api/projectm-eval.c"],
 [("prjm_eval_error",A+"CompilerFunctions.c"),("location tracking YY_USER_ACTION",A+"Scanner.l"),("projectm_eval_get_error",A+"api/projectm-eval.c")],
 state=[("cctx->error","last error, owned by the context",A+"CompilerTypes.h")],
 observe=["projectm_eval_get_error"])
p("C13","Compiling has no effect on program state",
 "A compilation, successful or failed, leaves every variable, register and buffer slot and every previously compiled handle of all contexts unchanged; variables it introduces start at 0. The source text passed in is neither modified nor needed after the call returns.",
 ["programs","histories"],"all accepted and rejected texts compiled in all small states",
 "Tests compile once in a fresh context.",
 [A+"CompilerFunctions.c",A+"CompileContext.c"],
 [("constant folding only of pure nodes",A+"CompilerFunctions.c prjm_eval_compiler_create_expression"),("scanner works on a private copy",A+"CompileContext.c prjm_eval__scan_string")],
 observe=["registered variables","buffers","earlier handles' results"])
p("C14","Contexts are isolated except for what they were created to share",
 "Contexts never influence each other's variables or megabuf; they share gmegabuf exactly if created with the same buffer (or both with the built-in one) and registers exactly if created with the same array (or both built-in). Resetting variables zeroes exactly that context's variables, freeing a context's memory zeroes exactly its megabuf, destroying the built-in global buffer zeroes exactly it and leaves it usable by contexts created later. Contexts and handles may be destroyed in any order, buffers once no context uses them.",
 ["histories"],"all histories of create/compile/execute/reset/free/destroy operations over several contexts, handles and buffers",
 "Every test uses one context with its own buffer and registers and the same fixed teardown order.",
 [A+"CompileContext.c",A+"MemoryBuffer.c",A+"TreeVariables.c",A+"api/projectm-eval.c"],
 [("ownership of memory, global_memory, global_variables",A+"CompileContext.c"),("built-in global buffer",A+"MemoryBuffer.c static_global_memory"),("reset",A+"CompileContext.c prjm_eval_reset_context_vars")],
 state=[("static_global_memory","lazily created built-in gmegabuf",A+"MemoryBuffer.c"),("static_global_variables","built-in registers",A+"TreeVariables.c")],
 observe=["execute results in every context"])
p("C15","No script and no legal API history can corrupt memory or kill the host",
 "No input text, argument value or legal sequence of API calls makes the library read or write outside live objects, use freed memory, execute undefined arithmetic that traps, abort, exit or fail to return. This includes malformed text, special floating-point values, out-of-range indices and sizes, long tokens, long lists and deep nesting.",
 ["inputs","programs","histories"],"all texts, values and legal API histories",
 "Tests run ten benign programs without instrumentation.",
 [A+"Scanner.c",A+"Compiler.c",A+"CompilerFunctions.c",A+"TreeFunctions.c",A+"MemoryBuffer.c",A+"TreeVariables.c",A+"ExpressionTree.c"],
 [("index checks",A+"MemoryBuffer.c"),("divisor checks",A+"TreeFunctions.c mod/modop/div"),("parser depth limit",A+"Compiler.c YYMAXDEPTH"),("loop limit",A+"TreeFunctions.c MAX_LOOP_COUNT")],
 observe=["process termination","AddressSanitizer/UBSan reports"])
p("C16","Everything allocated is released exactly once",
 "For every history, after all handles, contexts and buffers are destroyed no memory allocated by the library remains, and nothing is released twice. A failed compilation retains nothing but its error message, and repeating any cycle of compile, execute, destroy, reset or free never increases the memory held.",
 ["inputs","histories"],"all accepted and rejected texts and all API histories",
 "Tests neither measure allocations nor compile anything invalid.",
 [A+"Compiler.y",A+"CompilerFunctions.c",A+"CompileContext.c",A+"ExpressionTree.c",A+"MemoryBuffer.c"],
 [("tree destruction",A+"ExpressionTree.c"),("compiler node and argument list destruction",A+"CompilerFunctions.c"),("context destruction",A+"CompileContext.c")],
 observe=["allocation ledger"])
p("C17","Concurrent contexts sharing a gmegabuf never lose or duplicate storage",
 "When the host implements the lock functions with a plain mutex, threads executing programs in separate contexts that share a gmegabuf, or creating and destroying such contexts, behave like some sequential interleaving of their individual memory accesses: every access to a slot index reaches the same storage, no written value is lost through allocation, all contexts using the built-in buffer get the same one, and nothing leaks or deadlocks. rand() called concurrently still only returns numbers of its generator.",
 ["schedules"],"all thread interleavings",
 "All tests are single-threaded with empty lock functions.",
 [A+"MemoryBuffer.c",A+"CompileContext.c",A+"TreeFunctions.c"],
 [("double-checked block allocation under the host lock",A+"MemoryBuffer.c prjm_eval_memory_allocate"),("locked creation of the built-in buffer",A+"MemoryBuffer.c prjm_eval_memory_global")],
 state=[("block table","shared between contexts",A+"MemoryBuffer.c"),("static generator state","shared by all contexts",A+"TreeFunctions.c prjm_eval_genrand_int32")],
 observe=["slot values after all threads finished","allocation ledger","lock calls"])
p("C18","Host lock calls are strictly paired, never nested and always released",
 "On every path through every API call, including failed allocations and rejected or out-of-range accesses, the library calls the host lock and unlock functions in strictly alternating pairs, never locks while already holding the lock, and never returns holding it. Buffer storage is only ever allocated into or released from a buffer between such a pair, so a plain non-recursive mutex suffices.",
 ["histories","fault_sequences","inputs"],"all API histories and all allocation-failure points",
 "The tests' lock functions are empty.",
 [A+"MemoryBuffer.c"],
 [("lock/unlock around allocation and freeing",A+"MemoryBuffer.c")],
 observe=["sequence of host lock/unlock calls","allocations of buffer blocks"])
p("C19","Running out of buffer memory degrades to reads of 0, nothing worse",
 "If allocating buffer storage fails at any moment, the affected access behaves like an out-of-range access (reads 0, writes are discarded, memset/memcpy stop there), all other state stays intact, execution continues, and the same access succeeds once memory is available again. If a buffer or context cannot be allocated completely, its creation returns NULL and leaves nothing behind.",
 ["fault_sequences"],"every subset of failing allocations up to the bound, in all programs of the menu",
 "No test injects an allocation failure.",
 [A+"MemoryBuffer.c",A+"TreeFunctions.c",A+"CompileContext.c"],
 [("NULL block handling",A+"MemoryBuffer.c prjm_eval_memory_allocate"),("NULL address handling",A+"TreeFunctions.c prjm_eval_func_mem")],
 observe=["execute result","buffers","allocation ledger"])
p("C20","The ns-eel2 shim behaves exactly like the native API",
 "Every history of ns-eel2 shim calls has the same results, side effects, error reports and resource usage as the same history of the corresponding native calls, handles of both kinds are interchangeable, and setting a context's global memory through the shim makes code compiled afterwards use precisely that buffer. Linking the shim forwards every library lock and unlock to the host's ns-eel2 mutex functions.",
 ["histories"],"all histories of shim calls, mixed with native calls",
 "No test links the shim.",
 ["ns-eel2-shim/ns-eel.c","ns-eel2-shim/ns-eel.h"],
 [("one-to-one wrappers","ns-eel2-shim/ns-eel.c")],
 observe=["NSEEL_* results","registered variables","NSEEL_HOSTSTUB_* calls"])
p("C21","rand(n) is the documented generator and always in range",
 "The n-th number drawn in a process is the n-th output of the 32-bit Mersenne Twister (fixed initial state) scaled to the range 0..max(1, floor(n)), both ends included, for every argument value, whichever contexts, handles or API calls are interleaved. A call is evaluated anew each time it is executed, also with a constant argument.",
 ["inputs","histories"],"all arguments and all interleavings of draws over contexts",
 "No test calls rand.",
 [A+"TreeFunctions.c"],
 [("prjm_eval_genrand_int32, prjm_eval_func_rand",A+"TreeFunctions.c"),("not const-evaluable",A+"TreeFunctions.c intrinsic_function_table")],
 state=[("mt, mti","process-wide generator state",A+"TreeFunctions.c")],
 observe=["execute result"])
p("C22","The meaning of a program does not depend on the process locale",
 "For every program text the same literals, names and functions are recognised and the same results are computed whatever locale the host process has selected, including locales with another decimal separator or other case-conversion rules.",
 ["configurations","inputs"],"all locales of the catalogue, all literals and names",
 "Tests run in the C locale.",
 [A+"Scanner.l",A+"Scanner.c",A+"TreeVariables.c",A+"CompilerFunctions.c"],
 [("number conversion",A+"Scanner.l"),("case-insensitive name comparison",A+"TreeVariables.c, "+A+"CompilerFunctions.c")],
 observe=["execute result under setlocale"])
p("C23","Both number sizes implement the same language",
 "Configured for 4-byte numbers, library, public header and ns-eel2 shim consistently use float, and every program means the same as with 8-byte numbers with all values stored in and results rounded to float. Selecting the size through the documented build option is sufficient.",
 ["configurations","programs"],"both number sizes, all small programs and argument values",
 "Only the 8-byte configuration is built and tested.",
 [A+"api/projectm-eval.h",A+"CMakeLists.txt","CMakeLists.txt","ns-eel2-shim/CMakeLists.txt","ns-eel2-shim/ns-eel.h",A+"TreeFunctions.c"],
 [("PRJM_F_SIZE / EEL_F_SIZE",A+"api/projectm-eval.h, ns-eel2-shim/ns-eel.h"),("PROJECTM_EVAL_FLOAT_SIZE","CMakeLists.txt")],
 observe=["execute result","registered variables"])
p("C24","Calls made by different threads are independent and equal",
 "It does not matter which thread makes an API call: every history of calls, handed from thread to thread in any way, has the same results as when one thread makes all of them. Threads that use contexts sharing neither registers nor buffers can compile, execute, register, query errors, create and destroy at the same time without locks of their own (apart from the host lock functions), and each gets exactly the results it gets alone.",
 ["schedules","histories"],"all schedules of threads with independent contexts, all assignments of the calls of a history to threads",
 "All tests run in a single thread.",
 [A+"CompileContext.c",A+"Compiler.y",A+"Scanner.l",A+"CompilerFunctions.c",A+"TreeVariables.c",A+"TreeFunctions.c",A+"api/projectm-eval.c"],
 [("re-entrant parser and scanner",A+"Compiler.y, "+A+"Scanner.l"),("error and variables kept per context",A+"CompilerTypes.h, "+A+"CompileContext.c"),("intermediate values kept per node",A+"TreeFunctions.c")],
 observe=["execute result","projectm_eval_get_error","registered variables"])
p("C25","The library leaves the state of the host process alone",
 "No API call, whatever program it compiles or executes, changes state that belongs to the host process: the locale of process and thread, the floating-point rounding mode and trap settings, signal handlers and masks, open files, working directory, environment, limits and timers, and the random generators and tokeniser of the C library all stay as the host has set them.",
 ["histories","inputs","configurations"],"all API histories, function calls and texts in several process states",
 "No test observes the process.",
 [A+"api/projectm-eval.c",A+"CompileContext.c",A+"CompilerFunctions.c",A+"Scanner.l",A+"TreeFunctions.c",A+"MemoryBuffer.c"],
 [("number conversion reads the locale only",A+"CompilerFunctions.c"),("own random generator",A+"TreeFunctions.c")],
 observe=["setlocale, fegetround, sigaction, fcntl, rand() and others after each call"])
p("C26","Executing allocates nothing but the buffer storage it accesses",
 "Executing a program never allocates or releases memory, except that the first access to a slot of megabuf or gmegabuf (by index, memset or memcpy) may allocate the storage of the 65536-slot block the slot lies in. The memory held by a buffer is therefore bounded by the blocks accessed, repeating an execution that accesses the same slots allocates nothing, and no execution ever releases anything.",
 ["programs","inputs"],"all small programs and areas, executed repeatedly",
 "No test observes allocations.",
 [A+"TreeFunctions.c",A+"MemoryBuffer.c",A+"CompileContext.c"],
 [("block allocation on first access",A+"MemoryBuffer.c prjm_eval_memory_allocate"),("values passed by reference, without temporaries",A+"TreeFunctions.c")],
 state=[("buffer[block]","allocated blocks",A+"MemoryBuffer.c")],
 observe=["allocation calls during projectm_eval_code_execute"])
p("C27","Every build type runs the same language",
 "How the library is compiled does not change what it does: built through its own build system as Release with or without ENABLE_FAST_MATH, as MinSizeRel, or by the other compiler, it accepts the same texts with the same errors, gives every program the results, effects and evaluation order of the documented language, and keeps the same API behaviour as the debug build the tests run. With fast math this holds as long as all values handled are finite and not subnormal, which is what its documentation excepts; which memory is accessed stays within the buffers even then, whatever the values. In particular nothing happens only inside assertions, and nothing relies on undefined behaviour an optimizer may exploit.",
 ["inputs","programs","histories"],"small programs, texts and histories of C02-C12, C14 and C19 in every build type",
 "The tests run in one build type, with assertions enabled and without optimization.",
 [A+"TreeFunctions.c",A+"MemoryBuffer.c",A+"CompilerFunctions.c","cmake/FastMathOptimizations.cmake"],
 [("assertions that check arguments of every function",A+"TreeFunctions.c assert_valid_ctx"),("fast math flags for Release builds","cmake/FastMathOptimizations.cmake"),("address checks on floating point indices",A+"MemoryBuffer.c prjm_eval_memory_allocate")],
 observe=["results, errors, variables and buffers, in each build"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
