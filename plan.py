"""What decides each property: build variants of the library and exploration stages."""
F8 = "-DPRJM_F_SIZE=8"
E8 = "-DEEL_F_SIZE=8"
# the undefined behaviour that can trap or go outside of an object
ASAN = "-fsanitize=address,bounds,null,alignment,integer-divide-by-zero,unreachable,return,vla-bound,object-size"
VARIANTS = {
    "plain": dict(cc="gcc", cflags=["-O1", F8, E8], hflags=[F8]),
    "asan": dict(cc="clang", cflags=["-O1", "-fno-omit-frame-pointer", ASAN, "-fno-sanitize-recover=all", F8, E8], hflags=[F8, "-DVF_ASAN"], ld="clang++", ldflags=[ASAN]),
    "shim": dict(cc="gcc", cflags=["-O1", F8, E8], hflags=[F8, E8, "-DVF_SHIM"], shim=True),
    "shimfloat": dict(cmake=["-DPROJECTM_EVAL_FLOAT_SIZE=4"], hflags=["-DPRJM_F_SIZE=4", "-DEEL_F_SIZE=4", "-DVF_SHIM"], shim=True),
    "float": dict(cmake=["-DPROJECTM_EVAL_FLOAT_SIZE=4"], hflags=["-DPRJM_F_SIZE=4"]),
}

VARIANTS["sched"] = dict(cc="clang", cflags=["-O1", "-fno-pic", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", F8, E8], hflags=[F8, "-DVF_SCHED", "-fno-pic"], ldflags=["-no-pie"], extra=["sched.cpp"],
    objcopy=["--set-section-flags", ".bss=alloc,load,data,contents", "--rename-section", ".bss=vfbss", "--rename-section", ".data=vfdata"],
    redefine={**{f: "vs_" + f for f in "malloc calloc realloc reallocarray free strdup strndup aligned_alloc memalign posix_memalign asprintf vasprintf strchr strrchr memcmp stpcpy strtol strtof memcpy memmove memset strlen strcpy strncpy strcat strcmp strncmp strcasecmp atoi atof strtod vsnprintf snprintf vsprintf sprintf".split()},
              **{a + "_" + b: "vs_" + a + "_" + b for a in ("pthread_mutex", "mtx") for b in ("lock", "unlock", "init", "destroy")}, "pthread_once": "vs_pthread_once", "call_once": "vs_call_once"})
# the same as compiled for debugging, where every access to a variable is one to memory
VARIANTS["sched0"] = dict(VARIANTS["sched"], cflags=["-O0"] + VARIANTS["sched"]["cflags"][1:])

# the other build types, through the project's own build
VARIANTS["release"] = dict(cmake=["-DCMAKE_BUILD_TYPE=Release"], hflags=[F8])
VARIANTS["asanfast"] = dict(VARIANTS["asan"], cflags=["-Ofast"] + VARIANTS["asan"]["cflags"][1:] + ["-DNDEBUG"])
VARIANTS["exact"] = dict(cmake=["-DCMAKE_BUILD_TYPE=Release", "-DENABLE_FAST_MATH=OFF"], hflags=[F8])
VARIANTS["clang"] = dict(cmake=["-DCMAKE_BUILD_TYPE=Release", "-DENABLE_FAST_MATH=OFF", "-DCMAKE_C_COMPILER=/usr/bin/clang"], hflags=[F8])
VARIANTS["minsize"] = dict(cmake=["-DCMAKE_BUILD_TYPE=MinSizeRel"], hflags=[F8])

def st(variant, file, mode, **kw):
    return dict(variant=variant, file=file, mode=mode, **kw)

PLAN = {}
def prop(pid, stages, states, technique, note, level="model_checking", **kw):
    PLAN[pid] = dict(stages=stages, states=states, level=level, technique=technique, note=note, **kw)

TRUST = " Trusts the compiler and libm, and the reference model in src/ref.hpp where it is the oracle; nothing is claimed beyond the bounds."

prop("C01", [st("plain", "m_lang.cpp", "C01")], "final states (variables and result) reached by the enumerated expressions",
     technique='exhaustive enumeration of operator sequences executed on the real code against their fully parenthesised form',
     note='All sequences of up to 3 (thorough 4) binary operators with prefixes, subscripts and ?: are compiled and executed; grouping comes from an independent precedence parser.' + TRUST)
prop("C02", [st("plain", "m_lang.cpp", "C02")], "results of accepted programs",
     technique='exhaustive enumeration of token strings, accept/reject and effects compared with a reference grammar',
     note='All token strings up to the length bound over an alphabet with every token class and arity; accepted ones are executed and compared, so dropped or added parts are seen.' + TRUST)
prop("C03", [st("plain", "m_lang.cpp", "C03")], "results of accepted texts",
     technique='exhaustive enumeration of character strings compared with a reference lexer',
     note='All character strings over numeric, constant, name and comment alphabets up to the length bound; both standard streams are checked to stay empty.' + TRUST)
prop("C12", [st("plain", "m_lang.cpp", "C12")], "distinct reported error positions",
     technique='exhaustive enumeration of rejected texts in several layouts; error location compared with a reference parser',
     note='Every rejected token string up to the bound in several whitespace and comment layouts, and histories of failing and succeeding compilations.' + TRUST)
prop("C13", [st("plain", "m_lang.cpp", "C13")], "results of compiled programs",
     technique='exhaustive enumeration of compiled texts in populated contexts with bitwise state comparison',
     note='Every token string up to the bound is compiled while a populated world is compared bit by bit; the source text lies in a read-only page that is unmapped afterwards.' + TRUST)
prop("C04", [st("plain", "m_eval.cpp", "C04")], "distinct results",
     technique='exhaustive enumeration of argument tuples over boundary values against reference functions',
     note='All combinations of about 50 boundary values per argument for every function, operator and alias, in literal, variable and memory operand forms.' + TRUST)
prop("C05", [st("plain", "m_eval.cpp", "C05")], "distinct (result, variables, registers, buffers) states after an execution",
     technique='explicit-state exploration: all programs of a grammar from several states, whole state compared with a reference evaluator',
     note='All programs up to the size bound; after every execution all variables, 100 registers and all buffer slots are compared.' + TRUST)
prop("C06", [st("plain", "m_eval.cpp", "C06")], "distinct (result, variables, registers, buffers) states after an execution",
     technique='exhaustive enumeration of programs and iteration counts against a reference evaluator',
     note='All programs of control constructs up to the size bound with an order-recording variable, plus the iteration limits.' + TRUST)
prop("C07", [st("plain", "m_eval.cpp", "C07")], "distinct final states",
     technique='exhaustive enumeration of programs, each compared with its de-optimised forms on the real code',
     note='Every program up to the size bound is executed with every subset of its literals replaced by variables and with list items kept by force.' + TRUST)
prop("C23", [st("consumer", None, "consumer"), st("float", "m_eval.cpp", "C23")] +
            [st("float", f, m) for f, ms in (("m_mem.cpp", "C09 C10"), ("m_eval.cpp", "C07"), ("m_lang.cpp", "C02 C03"), ("m_misc.cpp", "C21")) for m in ms.split()] +
            [st("shimfloat", "m_shim.cpp", "C20")], "distinct states",
     technique='exhaustive enumeration of programs and values on the library built with 4-byte numbers through its own build option',
     note='The spaces of C04 to C06 with the float instance of the reference model, and an outside project consuming the exported targets.' + TRUST)
prop("C09", [st("plain", "m_mem.cpp", "C09")], "distinct buffer contents (or slot and notation reached)",
     technique='exhaustive enumeration of indices, pairs of accesses and access histories against an array model',
     note='Every slot of both buffers is written and read, all pairs over block boundaries in all notations, fractional and out-of-range indices.' + TRUST)
prop("C10", [st("plain", "m_mem.cpp", "C10")], "distinct affected ranges and buffer contents",
     technique='exhaustive enumeration of argument triples around boundaries, whole buffer compared with an array model',
     note='All (destination, source, count) triples over boundary sets including overlapping, negative, huge, fractional and non-finite ones.' + TRUST)
prop("C18", [st("plain", "m_mem.cpp", "C18")], "distinct numbers of lock calls of a history",
     technique='exhaustive enumeration of histories, accesses and allocation failures under a lock automaton',
     note='An automaton checks each lock and unlock call, and that buffer tables change only while the lock is held.' + TRUST)
prop("C19", [st("plain", "m_mem.cpp", "C19")], "",
     technique='exhaustive enumeration of failing allocations in each program of a menu, compared with an array model with failing blocks',
     note='Every single allocation failure and every permanent failure from a point on, for all programs of the menu and all creation calls.' + TRUST, level="fault_enumeration", rule="every allocation of buffer storage (and, for creations, every allocation) made by each enumerated program or creation call fails, alone or together with all later ones; distinct_nontrivial counts the runs in which an allocation did fail")
prop("C08", [st("plain", "m_api.cpp", "C08")], "distinct (result, variables) states after an execution",
     technique='exhaustive enumeration of histories of compile, execute and destroy compared with a reference evaluator',
     note='All histories up to the depth bound over two or three handles of a text menu, and a grammar of programs each executed by one or several handles.' + TRUST)
prop("C11", [st("plain", "m_api.cpp", "C11")], "distinct (values of the variables) states, name relations and orders",
     technique='exhaustive enumeration of name pairs, spellings and registration orders against a map model',
     note='All pairs from a table of adversarial names in all orders of registration and compilation, plus many and long names.' + TRUST)
prop("C14", [st("plain", "m_api.cpp", "C14")], "distinct final states of a context",
     technique='exhaustive enumeration of API histories over two contexts against an explicit-state model',
     note='All histories up to the depth bound of create, compile, execute, reset, free, destroy over shared and private buffers and registers.' + TRUST)
prop("C16", [st("plain", "m_api.cpp", "C16")], "distinct amounts of memory held",
     technique='exhaustive enumeration of texts and API histories with an allocation ledger',
     note='Ledger of all library allocations: empty at the end of every history, unchanged by every rejected text, never released twice.' + TRUST)
prop("C20", [st("shim", "m_shim.cpp", "C20")], "distinct final values of the variables, registers and buffers",
     technique='exhaustive enumeration of API histories, each executed natively, through the shim and mixed, compared with each other and with an explicit-state model',
     note='All histories up to the depth bound over two contexts with every (short ones) or three (long ones) assignments of calls to the interfaces: results, errors, memory held and lock calls are compared after every call.' + TRUST)
prop("C15", [st("plain", "m_misc.cpp", "C15"), st("asan", "m_misc.cpp", "C15", light=True)] +
            [st("asan", f, m, light=True) for f, ms in (("m_lang.cpp", "C02 C03 C12 C13"), ("m_eval.cpp", "C04 C05 C06"), ("m_mem.cpp", "C09 C10 C19"), ("m_api.cpp", "C08 C11 C14 C16")) for m in ms.split()],
     "distinct results, errors and states reached",
     technique='exhaustive enumeration of texts, argument values, histories and growing constructs executed on the real code under address and undefined-behaviour checks',
     note='The spaces of the other checks (at smaller bounds) run under sanitizers; in addition every construct is repeated and nested up to a million times, and realistic programs get every single edit of a set.' + TRUST)
prop("C17", [st("sched0", "m_thr.cpp", "C17"), st("sched", "m_thr.cpp", "C17R")], "distinct final contents of shared slots, registers and variables (or numbers drawn) over all schedules",
     technique='stateless exploration of all thread schedules within a preemption bound on the real code, outcomes compared with all interleavings of a model',
     note='The library is compiled with access hooks; every access to memory that two threads use and every lock call is a scheduling point. Sequential consistency is assumed: the unlocked read of the double-checked allocation is taken as it is written.' + TRUST)
prop("C21", [st("plain", "m_misc.cpp", "C21")], "distinct numbers drawn",
     technique='exhaustive enumeration of interleavings of draws over contexts, handles and API calls against std::mt19937',
     note='Every one of the first millions of draws, all histories up to the depth bound, and all programs of a grammar are compared with the documented generator in step.' + TRUST)
LOCALES = [("de", "de_DE", "ISO-8859-1"), ("tr", "tr_TR", "ISO-8859-9"), ("fa", "fa_IR", "UTF-8"), ("tr8", "tr_TR", "UTF-8"), ("fr", "fr_FR", "UTF-8"), ("az", "az_AZ", "UTF-8")]
prop("C22", [st("plain", "m_misc.cpp", "C22")], "distinct results of accepted texts", locales=LOCALES,
     technique='exhaustive enumeration of texts, each executed on the real code in every locale of a set covering the decimal separators and case rules',
     note='All numeric, name and token strings up to the length bound and all function names in several spellings, in locales with other decimal separators and case rules, compared with the C locale.' + TRUST)
prop("C26", [st("plain", "m_eval.cpp", "C26")], "distinct amounts of storage held after executions",
     technique='exhaustive enumeration of programs and states on the real code under an allocation ledger, compared with the slots a reference evaluator accesses',
     note='Every program up to the size bound is executed three times from the same state; allocations, releases and memory held are compared with the blocks it accesses.' + TRUST)
prop("C24", [st("sched0", "m_thr.cpp", "C24"), st("plain", "m_misc.cpp", "C24")], "distinct answers of the calls of all threads",
     technique='stateless exploration of all thread schedules within a preemption bound on the real code, answers compared with those of each thread alone',
     note='Pairs of programs, of compilations and of API histories in contexts that share nothing; in addition all assignments of the calls of a history to threads.' + TRUST)
prop("C25", [st("plain", "m_misc.cpp", "C25")], "distinct results, errors and answers", locales=LOCALES,
     technique='exhaustive enumeration of API histories, calls and texts in several states of the process, which is observed after every call',
     note='Locale, floating-point environment, signals, files, environment, limits and the generators of the C library are compared after every call of every history, with every function on special operands, and on all short texts.' + TRUST)
BUILDS = [("m_eval.cpp", "C04 C05 C06 C07"), ("m_lang.cpp", "C02 C03 C12"), ("m_mem.cpp", "C09 C10 C19"), ("m_api.cpp", "C08 C11 C14")]
HEAVY = "dense,dense-pairs,edges,fractions,contexts3,windows,single,scale,set-extremes,cpy-huge,limits,lists6,long,forms3"
def stages(variant, modes, **kw):
    return [st(variant, f, m, **kw) for f, ms in BUILDS for m in ms.split() if m in modes.split()]
prop("C27", stages("release", "C02 C03 C04 C05 C06 C08 C11 C12 C14", small=True, finite=True, skip="dense-pairs,forms3,long,short,handles3,pure-wide,special")
     + stages("exact", "C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C19", small=True, skip="dense-pairs,windows")
     + stages("clang", "C02 C04 C05 C06 C07 C09 C10 C19", small=True, fixed=True, skip=HEAVY)
     + stages("minsize", "C02 C04 C05 C06 C07 C09 C10 C19", small=True, fixed=True, skip=HEAVY)
     + stages("asanfast", "C04 C06 C09 C10 C19", light=True, skip="edges,fractions,contexts3,windows,forms3,single,scale"), "distinct results and states in each build",
     technique='exhaustive enumeration of programs, texts, calls and histories on the real code in every build type, compared with the reference evaluator and models of the other checks',
     note='Small bounds of the spaces of the other checks, executed in the build types the project offers; with fast math, states with values that are not finite are explored for memory safety only.' + TRUST)
