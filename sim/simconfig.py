"""Which simulators exist, how they are built, and which runs decide each property."""
ADAPT = [["sim/adapters.cpp", "-DGROUP=%d" % g, "-DChocobo1=Chocobo1_%d" % g, "-DREPO_SRC=@REPO@/src"] for g in range(30)]
LIB = ADAPT + [["sim/opsreg.cpp"], ["sim/heap.cpp"], ["sim/libsim.cpp"], ["ref/ref.cpp"]]

SIMS = {
    "lib-gcc14": {"cxx": "g++", "flags": "-std=c++14 -O2 -faligned-new", "units": LIB, "about": "g++ C++14 -O2, library assertions on"},
    "lib-clang20": {"cxx": "clang++", "flags": "-std=c++20 -O2 -DNDEBUG -Wno-invalid-constexpr", "units": LIB, "about": "clang++ C++20 -O2, assertions off",
                    "fallback": [{"flags": "-std=c++14 -O2 -DNDEBUG -Wno-invalid-constexpr -faligned-new", "about": "clang++ C++14 -O2, assertions off (C++20 build failed)"},
                                 {"cxx": "g++", "flags": "-std=c++14 -O2 -DNDEBUG -faligned-new", "about": "g++ C++14 -O2, assertions off (clang build failed)"}]},
    "lib-asan": {"cxx": "g++", "flags": "-std=c++17 -O1 -g1 -fsanitize=address,alignment,bounds-strict", "units": LIB, "about": "g++ C++17 with address/alignment/bounds sanitizer",
                 "fallback": [{"flags": "-std=c++14 -O1 -g1 -faligned-new -fsanitize=address,alignment,bounds-strict", "about": "g++ C++14 with address/alignment/bounds sanitizer (C++17 build failed)"}]},
}

CLI = [["REPO/src/program/main.cpp", "-std=c++14", "|objcopy --redefine-sym main=hash_main @OBJ@"], ["sim/clisim.cpp", "-std=c++17"], ["ref/ref.cpp", "-std=c++17"]]
SIMS.update({
    "cli-gcc": {"cxx": "g++", "flags": "-O2", "units": CLI, "about": "src/program/main.cpp, g++ C++14 -O2, assertions on"},
    "cli-clang": {"cxx": "clang++", "flags": "-O2 -DNDEBUG -Wno-invalid-constexpr", "units": CLI, "about": "src/program/main.cpp, clang++ C++14 -O2, assertions off",
                  "fallback": [{"cxx": "g++", "flags": "-O2 -DNDEBUG", "about": "src/program/main.cpp, g++ C++14 -O2, assertions off (clang build failed)"}]},
})

LIB_REAL = ["every hasher header in src/ (47 classes), compiled unmodified from the current tree"]
LIB_STUBS = ["operator new/delete: simulated heap (patterned memory, injected failures, balance)",
             "caller memory: pages the simulator owns, read-only to the library, guard pages around, revoked or overwritten after each call",
             "crash: all live hashers vanish without their destructors; only checkpoint copies survive"]
LIB_ASSUME = ["the reference models in ref/ implement the published algorithms (cross-checked with OpenSSL/hashlib and published vectors)",
              "seeded search: a clean batch is evidence, not proof",
              "x86-64 little endian; GCC 13 and Clang 18 builds"]
LIB_RULE = ("one case = one seeded plan of operations (create, feed, finalize, read, copy, assign, move, swap, reset, destroy, checkpoint, crash, resume) over up to "
            "8 hashers with pieces, overloads, alignments, memory contents and faults chosen by the seed; non-trivial = at least two pieces were absorbed and at "
            "least one digest was compared with the reference; distinct = different operation/parameter sequence")
LIB_STATES = "hashed (algorithm, operation, fill of the partial block, whole blocks so far (0..3+), lifecycle state, piece size class, overload, placement, failing allocation)"


def lib(profile, q14, q20, qa, t=16, rule=LIB_RULE, **kw):
    parts = [{"sim": "lib-gcc14", "profile": profile, "quick": q14, "thorough": q14 * t},
             {"sim": "lib-clang20", "profile": profile, "quick": q20, "thorough": q20 * t},
             {"sim": "lib-asan", "profile": profile, "quick": qa, "thorough": qa * t}]
    d = {"parts": [p for p in parts if p["quick"]], "rule": rule, "states": LIB_STATES, "real": LIB_REAL, "stubs": LIB_STUBS, "assumptions": LIB_ASSUME}
    d.update(kw)
    return d


PROPS = {
    "C01": lib("C01", 150000, 150000, 16000),
    "C05": lib("C05", 180000, 180000, 18000),
    "C06": lib("C06", 180000, 180000, 18000),
    "C07": lib("C07", 200000, 120000, 20000, level="fault_enumeration"),
    "C08": lib("C08", 180000, 180000, 18000),
    "C09": lib("C09", 120000, 60000, 36000),
    "C10": lib("C10", 120000, 120000, 16000),
}

CLI_REAL = ["src/program/main.cpp and every header it uses, compiled unmodified from the current tree (its main is renamed in the object file)",
            "the real C++ and C stream libraries (std::ifstream, std::cin, stdio buffering, printf, exit-time flushing)"]
CLI_STUBS = ["kernel: every file, descriptor, time and process system call of the program is trapped (seccomp) and answered by the simulator",
             "malloc family: simulated heap with patterned blocks and injected failures"]
CLI_ASSUME = ["the reference models in ref/ implement the published algorithms (cross-checked with OpenSSL/hashlib and published vectors)",
              "seeded search: a clean batch is evidence, not proof", "Linux x86-64, glibc and libstdc++"]
CLI_RULE = ("one case = one seeded run of the program: algorithm and parameters, file or standard input of a kind (regular, fifo, character device, tty, socket, unknown size, grown), "
            "content, the answer to every read/write/open, allocation failures; non-trivial = at least one fault or irregular delivery actually reached the program; distinct = different plan")
CLI_STATES = "hashed (algorithm, source, source and sink kind, fault classes delivered, outcome, number of system calls, open error, order of bytes delivered, failing allocation, output size)"


def cli(profile, q, t=30, **kw):
    d = {"parts": [{"sim": "cli-gcc", "profile": profile, "quick": q, "thorough": q * t}, {"sim": "cli-clang", "profile": profile, "quick": q // 3, "thorough": q // 3 * t}],
         "rule": CLI_RULE, "states": CLI_STATES, "real": CLI_REAL, "stubs": CLI_STUBS, "assumptions": CLI_ASSUME,
         "time": "see counters.sim_ms: simulated milliseconds (1 microsecond per system call plus injected delays)"}
    d.update(kw)
    return d


def tsim(flags):
    return [[u[0], flags + " -fsanitize=thread"] + u[1:] for u in ADAPT] + [[f, "-std=c++17 -O2"] for f in ("sim/opsreg.cpp", "sim/tsim.cpp", "ref/ref.cpp")]


TCLANG = " -Wno-invalid-constexpr -mllvm -tsan-instrument-func-entry-exit=0"
TGCC = {"cxx": "g++", "ld": "g++", "units": tsim("-std=c++14 -O0 --param tsan-instrument-func-entry-exit=0"), "about": "g++ C++14 -O0, every memory access instrumented (clang build failed)"}
SIMS["tsim-O0"] = {"cxx": "clang++", "flags": "", "ld": "clang++", "libs": "-lpthread", "units": tsim("-std=c++14 -O0" + TCLANG),
                   "about": "clang++ C++14 -O0, every memory access of the source instrumented (own run-time behind -fsanitize=thread)", "fallback": [TGCC]}
SIMS["tsim-O2"] = {"cxx": "clang++", "flags": "", "ld": "clang++", "libs": "-lpthread", "units": tsim("-std=c++17 -O2" + TCLANG),
                   "about": "clang++ C++17 -O2, every memory access left after optimisation instrumented",
                   "fallback": [{"units": tsim("-std=c++14 -O2" + TCLANG), "about": "clang++ C++14 -O2, every memory access left after optimisation instrumented (C++17 build failed)"}, TGCC]}
T_REAL = ["every hasher header in src/ (47 classes), compiled unmodified from the current tree with memory-access instrumentation", "real threads with their own stacks, released one at a time"]
T_STUBS = ["scheduler: a baton that only the simulator hands on, at any memory access or synchronisation of the library",
           "mutexes, read-write locks, once flags, function-local static guards and atomics: simulated (and sources of happens-before)",
           "operator new: patterned memory"]
T_ASSUME = ["atomics are executed with sequentially consistent values (their ordering edges follow the memory order given)",
            "the reference models in ref/ implement the published algorithms", "seeded search: a clean batch is evidence, not proof", "x86-64 Linux"]
T_RULE = ("one case = one seeded program of up to 4 threads (or of operations interrupting one another) plus a schedule of preemption points given in memory accesses; "
          "non-trivial = at least one preemption struck inside a library operation; distinct = different sequence of (interrupted operation, access number in it, resumed operation and its access number)")
T_STATES = "hashed (algorithm, operation and access number interrupted; algorithm, operation and log2 access number resumed)"


def threads(profile, q, t=16):
    return {"parts": [{"sim": "tsim-O0", "profile": profile, "quick": q, "thorough": q * t}, {"sim": "tsim-O2", "profile": profile, "quick": q // 2, "thorough": q // 2 * t}], "rule": T_RULE, "states": T_STATES, "real": T_REAL, "stubs": T_STUBS, "assumptions": T_ASSUME,
            "time": "the library has no clock; simulated time is counted in scheduled memory accesses: see counters.memory_accesses_simulated"}


PROPS.update({"C03": threads("C03", 150000), "C04": threads("C04", 150000)})

PROPS.update({
    "C11": cli("C11", 60000),
    "C12": cli("C12", 60000, level="fault_enumeration"),
    "C13": cli("C13", 60000, level="fault_enumeration"),
    "C14": cli("C14", 60000, level="fault_enumeration"),
})
PROPS["C18"] = cli("C18", 60000)
PROPS["C18"]["rule"] = ("one case = one seeded argument list (a valid one with up to three changes: dropped, added, exchanged, mangled or odd arguments) plus a content, its delivery and faults (failing allocations, writes and reads, closed descriptors); "
                        "non-trivial = at least one fault or irregular delivery actually reached the program; distinct = different plan")
PROPS["C11"]["parts"].append({"sim": "cli-gcc", "profile": "C11big", "quick": 8, "thorough": 120, "queue": True, "selfcheck": 1, "selfcheck_at": 6, "seconds": {"quick": 300, "thorough": 7200}})

SIMS["big"] = {"cxx": "g++", "flags": "-O3", "units": [[u[0], "-std=c++14 -DNDEBUG -faligned-new -w"] + u[1:] for u in ADAPT] + [[f, "-std=c++17"] for f in ("sim/opsreg.cpp", "sim/bigsim.cpp", "ref/ref.cpp")],
               "about": "g++ C++14 -O3, assertions off"}
BIG_JOBS = 93     # one round: every algorithm across 2^32 bytes and with one piece above 2^32 bytes
PROPS["C02"] = {
    "parts": [{"sim": "big", "profile": "C02mirage", "quick": 2350, "thorough": 47000},
              {"sim": "big", "profile": "C02", "quick": BIG_JOBS, "thorough": 6 * BIG_JOBS, "queue": True, "selfcheck": 1, "selfcheck_at": BIG_JOBS - 1, "seconds": {"quick": 560, "thorough": 7200}}],
    "rule": ("one case = one stream of at least 2^29 bytes through one hasher: giant pieces (one of them above 2^32 bytes, or several up to just below a border), seed-chosen small pieces across the borders 2^29, 2^31, 2^32, "
             "copies, assignments and moves mid-stream, each copy continued with its own pieces and compared; or up to 40 pieces of up to 128 GiB through any overload, of which only the first 192 KiB exist, so that a hasher which goes through the piece meets the missing page (a length cut short returns before it); distinct = different plan"),
    "states": "hashed (algorithm, border crossed, distance of the crossing piece's start and end from the border, capped at 3 blocks)",
    "real": LIB_REAL, "stubs": ["caller memory: a read-only window over 4 GiB that maps a few megabytes of content again and again"],
    "assumptions": ["the reference models in ref/ implement the published algorithms; their frozen checkpoints at 2^29, 2^31 and 2^32 bytes (sim/bigstates.inc) were cross-checked with hashlib where it has the algorithm",
                    "MD2 (9 MB/s) gets pieces above 2 GiB only in the thorough tier", "seeded search: a clean batch is evidence, not proof", "64-bit size_t"],
    "time": "the library has no clock; simulated time is counted in bytes of stream: see counters.gigabytes_hashed",
}
PROPS["C10"]["parts"].append({"sim": "big", "profile": "C10big", "quick": 8, "thorough": 80, "queue": True, "selfcheck": 1, "selfcheck_at": 4, "seconds": {"quick": 300, "thorough": 7200}})
PROPS["C10"]["rule"] += "; plus runs with digests of up to 2^29 bytes (2^30 in the thorough tier), where the encoded digest length outgrows 32 bits"
PROPS = dict(sorted(PROPS.items()))
