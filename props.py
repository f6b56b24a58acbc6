"""Which analysis cases and obligation kinds decide which property."""
MEM = ["oob", "null", "uaf", "overlap", "uninit", "div", "assert", "trap", "unreachable", "rowrite", "abort", "free", "badfree", "doublefree"]
SPEC = ["spec", "content", "escape", "terminate", "assert", "abort", "unreachable"]
OWN = ["badfree", "doublefree", "leak", "uaf", "free"]
LIFE = ["life"]
ALL = ["*"]
ASSUME = ["LLVM 18's front end translates the source as the build's compiler does; malloc/free, memcpy and friends behave as specified",
          "user-supplied element types, callbacks and iterators keep to their documented contracts",
          "sizes and counts given by the caller are at most 2^30"]
AI = ("Abstract interpretation of the LLVM IR compiled from the current headers: every public operation is applied to an arbitrary valid object "
      "(symbolic sizes, capacities and contents), loops are summarised by inductive header states, and each memory access, element lifetime event, "
      "release and postcondition is an obligation that the relational domain must discharge. ")
HIST = ("An arena with a first block of symbolic size runs histories of two to four allocations of symbolic sizes and different kinds; what was given out is filled and compared later. "
        "Harness callbacks count and check every block, hook and cleanup call.")
V, V2, V3, S, S2, S3 = "vec.cpp", "vec2.cpp", "vec3.cpp", "str.cpp", "str2.cpp", "str3.cpp"
INT = {"flags": ["-D_GLIBCXX_EXTERN_TEMPLATE=0"]}
INP = {"limit": 20}
AR, ME = "arena.cpp", "metrics.cpp"
MET = {"flags": ["@stub", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]}
def ARENA(msg=None): return {"flags": ["@stub"], "msg": msg}
OP = "optparse.cpp"
def OPT(heap=False, thorough=False, limit=100): return {"flags": ["@stubopt", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + (["-DVP_LMIN=16", "-DVP_LMAX=MX"] if heap else []), "limit": limit, "thorough": thorough}
PARSE = ("The real parser runs on command lines of up to six arguments of every kind with arbitrary texts (up to 15 characters, and again of 16 up to 2^30); a reference model in the harness says what has to come out. "
         "The conversion of texts to numbers and fmt are replaced by stand-ins. ")
AS, AS2, AS3 = "astr.cpp", "astr2.cpp", "astr3.cpp"
def SIZES(a, b, *cd, limit=60): return {"flags": ["@stub", "-DVP_CMIN=" + a, "-DVP_CMAX=" + b] + (["-DVP_DMIN=" + cd[0], "-DVP_DMAX=" + cd[1]] if cd else []), "limit": limit}
BIG, SMALL, TINY = SIZES("24", "MX"), SIZES("0", "23"), SIZES("0", "2")
def CONC(base, *fl, thorough=False): return {"flags": list(fl) + ["-DVP_CONC=2", "-DVP_BASE=%d" % base], "limit": 45, "thorough": thorough}
SLOW = r"(append_sub|assign_sub|insert_sub|replace.*)$"
PROPS = {
    "V01": {"units": [(V, r"^v_", MEM), (V2, r".", MEM), (V3, r".", MEM)], "explanation": AI + "Reported kinds: accesses outside the object, null/dangling/uninitialised use, library assertions that can fail."},
    "V02": {"units": [(V, r"^v_", LIFE), (V2, r".", LIFE), (V3, r".", LIFE)], "explanation": AI + "Reported kind: life (construction over a living element, destruction of a dead one, use of a dead one, memory released over living or moved-from elements)."},
    "V03": {"units": [(V, r"^v_", SPEC + MEM), (V2, r".", SPEC + MEM), (V3, r".", SPEC + MEM)], "explanation": AI + "Reported kinds: size and content postconditions of each operation, and anything that keeps the operation from completing."},
    "V04": {"units": [(V, r"^v_", OWN), (V2, r".", OWN), (V3, r".", OWN), (V, r"^v_(copy|move|swap|self|mo_move)", SPEC + MEM)], "explanation": AI + "Reported kinds: leaks, double or foreign releases, uses after release; for copy/move/swap also the content postconditions."},
    "V05": {"units": [(V, r"^va_", ALL), (V3, r"^y_.*own_", ALL)], "explanation": AI + "Cases whose argument is a reference to an arbitrary element of the same vector."},
    "V06": {"units": [(V, r"^vo_", ALL)], "explanation": AI + "Cases in which every allocation of the operation may fail."},
    "S01": {"units": [(S, r"^(s|sc)_", MEM), (S, r"^sxa?_(?!find$|find_str$)", MEM), (S, r"^sxa_find$", MEM, {"limit": 25}),
                      (S2, r"^(s|sx|sxa)_(?!inp)", MEM), (S2, r"^s_inp", MEM, INP)],
            "explanation": AI + "Reported kinds: accesses outside the buffer, null/dangling/uninitialised use, assertions and aborts that can be reached."},
    "S02": {"units": [(S, r"^sc_(?!replace|insert_sub|data_write)", ["content", "spec"] + OWN, CONC(0, thorough=True)), (S, r"^(sc|sac)_", ["content", "spec"] + OWN), (S2, r"^(sc|sac)_(?!inp)", ["content", "spec"] + OWN)], "explanation": AI + "Cases in which a copy of the string is alive during the operation and is compared with its old content afterwards."},
    "S03": {"units": [(S, r"^(s|sc|sa|sac|so|soa)_", OWN), (S2, r"^(s|sc|so)_(?!inp)", OWN), (S2, r"^s_inp", OWN, INP)], "explanation": AI + "Reported kinds: leak, double or foreign release, use after release."},
    "S04": {"units": [(S, r"^s_(?!replace|insert_sub)", SPEC + MEM, CONC(0)), (S, r"^(s_|sc_(?!data_write))", SPEC + MEM), (S, r"^sxa?_ctors", SPEC + MEM), (S2, r"^(s|sc)_(?!inp)", SPEC + MEM), (S2, r"^s_inp", SPEC + MEM, INP)], "explanation": AI + "Reported kinds: size, terminator and content postconditions of each operation, and anything that keeps the operation from completing."},
    "S05": {"units": [(S, r"^sa_(?!replace)", ALL, CONC(0)), (S, r"^(sa|sac)_", ALL)], "explanation": AI + "Cases whose argument is an arbitrary range of the string's own text."},
    "S06": {"units": [(S, r"^st_", ALL)], "explanation": AI + "Cases with a position beyond the end of the text."},
    "S07": {"units": [(S, r"^sxa?_(?!find|rfind)", SPEC + MEM), (S2, r"^sxa?_(?!c?r?find|contains)", SPEC + MEM)], "explanation": AI + "Comparison results are related to memcmp of the texts, hashes to the text hashed."},
    "S08": {"units": [("find.cpp", r".", ALL), (S, r"^sxa?_(find_|rfind)(?!str)", SPEC + MEM), (S, r"^sxa_find$", SPEC + MEM, {"limit": 60}), (S2, r"^sxa?_(c?r?find|contains)", SPEC + MEM)], "explanation": AI + "Results of the searches are positions inside the text at which the characters are as asked for; with a given matching position, a match no farther than that one is reported."},
    "S09": {"units": [(S, r"^(so|soa|soh)_", ALL), (S2, r"^so_(?!inp)", ALL)], "explanation": AI + "Cases in which every allocation of the operation may fail, and sizes up to 2^64-1."},
    "S10": {"units": [(S3, r".", ALL, INT)], "explanation": AI + "Conversions from and to std::string, std::string_view and streams, mixed concatenation and comparison."},
    "A01": {"units": [(AR, r"^[ahrmpcf]_", MEM + ["spec", "content"], ARENA(r"allocation (lies|keeps|succeeds|leaves)|intact|own place|usable|elements|Create\(\) passes"))], "explanation": AI + HIST},
    "A02": {"units": [(AR, r"^[ahrmpf]_", ["spec"], ARENA("alignment"))], "explanation": AI + HIST},
    "A03": {"units": [(AR, r"^[ahrmpcf]_", OWN + ["spec"], ARENA(r"block|releases"))], "explanation": AI + HIST},
    "A04": {"units": [(AR, r"^[ahrmcf]_", OWN + ["null", "uninit", "spec", "content"], ARENA(r"cleanup|objects?\b|destroyed|refused object"))], "explanation": AI + HIST},
    "A05": {"units": [(AR, r"^f_", ALL, ARENA())], "explanation": AI + "Cases in which the block allocator may fail or the requested size is beyond anything that can be had."},
    "A06": {"units": [(AR, r"^[hrmf]_", ["spec"], ARENA(r"hook|reported|report|untyped|nothing left|reset and destruction"))], "explanation": AI + HIST},
    "A07": {"units": [(AR, r"^([ahrmsf]_)", ["spec", "assert"], ARENA(r"Space(Allocated|Remains)|Reset\(\) (reports|forgets)|counts?\b|counted|remain|too small|refused"))], "explanation": AI + HIST},
    "A08": {"units": [(AR, r"^[mp]_", ALL, ARENA())], "explanation": AI + "Histories with a move of the arena, and allocations through the memory resource."},
    "A09": {"units": [(AR, r"^k_", ALL, ARENA())], "explanation": AI + "check() is asked about an arbitrary byte of an arbitrary block, and about foreign memory."},
    "S11": {"units": [(AS, r"^s_(?!replace|insert_sub)", MEM + SPEC, CONC(22, "@stub", thorough=True)), (AS, r"^s_(?!replace_sub)", MEM + SPEC, BIG), (AS, r"^s_(?!SLOW)".replace("SLOW", SLOW), MEM + SPEC, SMALL), (AS, r"^s_(?!replace_sub|insert_sub)SLOW".replace("SLOW", SLOW), MEM + SPEC, TINY),
                      (AS3, r"^s_(?!inp)", MEM + SPEC, BIG), (AS3, r"^s_(?!inp|.*replace)", MEM + SPEC, SMALL), (AS3, r"^s_(?!inp).*replace", MEM + SPEC, TINY)],
            "explanation": AI + "Strings that start outside of the object, inside of it, and inside of it with up to two characters, over a memory resource that checks that nothing is given back."},
    "S15": {"units": [(AS, r"^sc_(?!replace|insert_sub|data_write)", ["content", "spec"] + OWN, CONC(22, "@stub", thorough=True)), (AS, r"^sc_(?!replace_sub)", ["content", "spec"] + OWN, BIG), (AS, r"^sc_(?!data_write|SLOW)".replace("SLOW", SLOW), ["content", "spec"] + OWN, SMALL), (AS, r"^sc_(?!replace_sub|insert_sub)SLOW".replace("SLOW", SLOW), ["content", "spec"] + OWN, TINY),
                      (AS3, r"^sc_(?!inp)", ["content", "spec"] + OWN, BIG), (AS3, r"^sc_(?!inp|.*replace)", ["content", "spec"] + OWN, SMALL), (AS3, r"^sc_(?!inp).*replace", ["content", "spec"] + OWN, TINY)],
            "explanation": AI + "A copy of the string is alive during the operation and is compared with its old content afterwards. Strings that start outside of the object, inside of it, and inside of it with up to two characters, over a memory resource that checks that nothing is given back."},
    "S12": {"units": [(AS2, r".", ALL, SIZES(*x)) for x in (("24", "MX", "24", "MX"), ("0", "23", "24", "MX"), ("24", "MX", "0", "23"), ("0", "23", "0", "23"))]
                     + [(AS, r"^((s|sc)_(?!.*_sub|data_write)|sac?_(?!.*_sub|replace))", OWN + ["spec", "null"], dict(BIG, msg="arena|given back|null"))],
            "explanation": AI + "Two strings of different arenas; after the operation the memory of the arena that is not named by a string's allocator is released and the text of the string compared."},
    "S13": {"units": [(AS, r"^sa_(?!replace|insert)", ALL, CONC(22, "@stub", thorough=True)), (AS, r"^(sac?_(?!replace(_it)?$)|soa?_|soh_|st_)", ALL, BIG), (AS, r"^(sac?|soa?|soh|st)_(?!replace)", ALL, SMALL), (AS, r"^(sac?|soa?|soh|st)_replace", ALL, TINY), (AS3, r"^so_(?!inp)", ALL, BIG)],
            "explanation": AI + "Arguments inside the own text, allocations that fail, positions beyond the end."},
    "S14": {"units": [(AS, r"^sxa?_(?!find(_str)?$)", ALL, BIG), (AS, r"^sxa?_(?!find(_str)?$|compare_sub)", ALL, SMALL), (AS, r"^sxa?_compare_sub", ALL, TINY), (AS3, r"^sxa?_", ALL, BIG), (AS3, r"^sxa?_(?!.*find)", ALL, SMALL), (AS3, r"^sxa?_.*find", ALL, TINY)],
            "explanation": AI + "Comparisons, searches, hashes and accessors of arena strings."},
    "M01": {"units": [(ME, r"^m_(?!report|shared)", ALL, MET)], "explanation": AI + "Counters start with arbitrary values, each probe is applied to arbitrary arguments, and every counter is compared afterwards."},
    "M02": {"units": [(ME, r"^m_(report|shared)", ALL, MET)], "explanation": AI + "Reports between arbitrary counter values; each access to the shared table must hold the lock, each access to the shared counters must be atomic."},
    "O01": {"units": [(OP, r"^o_lines_", ALL, OPT()), (OP, r"^o_lines3_(?!WORD_WORD|WORD_EQUALS|EQUALS_WORD)", ALL, OPT()), (OP, r"^o_lines_", ALL, OPT(True)),
                      (OP, r"^o_lines3_(WORD_WORD|WORD_EQUALS|EQUALS_WORD)", ALL, OPT(thorough=True)), (OP, r"^o_lines3_", ALL, OPT(True, True))], "explanation": AI + PARSE},
    "O02": {"units": [(OP, r"^n_", ALL, OPT()), (OP, r"^n_(?!prefix)", ALL, OPT(True)), (OP, r"^n_prefix", ALL, OPT(True, True))], "explanation": AI + PARSE},
    "O03": {"units": [(OP, r"^w_", ALL, OPT()), (OP, r"^w_", ALL, OPT(True))], "explanation": AI + PARSE},
    "O04": {"units": [(OP, r"^[dh]_", ALL, OPT()), (OP, r"^[dh]_", ALL, OPT(True))], "explanation": AI + PARSE},
    "O05": {"units": [(OP, r"^(o_lines_|[nwdhu]_)", MEM + OWN, OPT()), (OP, r"^(o_lines_|[wdhu]_|n_(?!prefix))", MEM + OWN, OPT(True))], "explanation": AI + PARSE + "Reported kinds: memory accesses, leaks, releases."},
    "O06": {"units": [(OP, r"^u_", ALL, OPT()), (OP, r"^u_", ALL, OPT(True))], "explanation": AI + PARSE},
    "A10": {"units": [(AR, r"^(r_|[ch]_.*reset)", ALL, ARENA())], "explanation": AI + "Histories with Reset()."},
}
