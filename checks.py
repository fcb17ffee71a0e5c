"""The checks: which programs decide which property."""
import glob, os, re, subprocess, sys
import __main__ as R  # run.py

THOROUGH = 12.0

def simple(stage, variant, sources, leaks=False, thorough=THOROUGH, quick=1.0, budget=(200, 700), **kw):
    """One program, sharded over the processors."""
    def run(r, replay):
        exe = R.build(variant, sources, **kw)
        th = r.tier == "thorough"
        r.shards(stage, exe, leaks=leaks, scale=thorough * quick if th else quick, budget=budget[1] if th else budget[0], replay=replay["case"] if replay else None, timeout=3000 if th else 800)
    return run

TEXTRULE = ("Texts are enumerated (all token, number and character sequences up to a length; all bytes, byte pairs, \\u escapes, surrogate pairs, lengths 0-399, depths 1-520; sizes around 32768, 65536 and 131072 in twenty dimensions) "
            "and drawn at random (documents, damaged documents, truncations, byte soup); ")

CHECKS = {}

CHECKS["C03"] = dict(level="exploration", run=simple("text", "asan", ["text.cpp", "typed_ops.cpp"]),
    rule=TEXTRULE + "each is decided by an independent RFC 8259 reader. Non-trivial: accepted, or refused with at least one byte of valid prefix.",
    technique="differential runtime monitor against an independent RFC 8259 recogniser, under ASan/UBSan",
    note="Every enumerated and random text is decided by a second reader written from the RFC; texts longer than the enumerations are sampled. Trusts that reader and the compilers' sanitizers.")
CHECKS["C04"] = dict(level="exploration", run=simple("text", "asan", ["text.cpp", "typed_ops.cpp"]),
    rule=TEXTRULE + "each accepted one is compared value by value with the tree of an independent reader. Non-trivial: more than one value, or an escape.",
    technique="runtime comparison of the parsed tree with an independent reader, under ASan/UBSan",
    note="All escapes, code point classes, name orders up to 7 names and lengths up to 399 are covered, larger documents are sampled. Trusts the reference reader and from_chars.")
CHECKS["C07"] = dict(level="exploration", run=simple("text", "asan", ["text.cpp", "typed_ops.cpp"]),
    rule=TEXTRULE + "for each refused one the place and status are compared with the fault found by an independent reader; the message table and its rendering are checked for all statuses and extreme places. Non-trivial: refused for its syntax.",
    technique="runtime monitor of statuses, places and messages against an independent reader",
    note="Accepts any place between the start of the offending token and the first impossible byte, as the property says. Trusts the reference reader.")
CHECKS["C19"] = dict(level="exploration", run=simple("text", "asan", ["text.cpp", "typed_ops.cpp"], quick=3),
    rule="Objects with names of all lengths, alphabets and orders; every name and its neighbours (prefix, extension, case, changed byte) queried through all seven lookups and compared with an independent reader. Non-trivial: the text has names.",
    technique="runtime monitor of all lookups against an association list, under ASan/UBSan",
    note="Sampled objects and names; single-byte name pairs are enumerated. Trusts the reference reader.")

def c01(r, replay):
    th = r.tier == "thorough"
    exe = R.build("asan", ["text.cpp", "typed_ops.cpp"])
    if replay and replay["stage"] in ("uninit", "memcheck", "source"):
        uninit(r, th, replay)
        return
    if r.shards("text", exe, scale=THOROUGH if th else 1.0, budget=900 if th else 240, replay=replay["case"] if replay else None, timeout=3000 if th else 800) and not replay:
        uninit(r, th, None)

MEMCHECK = ("valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "--track-origins=no")

def uninit(r, th, replay):
    """Uninitialised data: MemorySanitizer over a part of the texts, confirmed by Memcheck, which sees all code."""
    D = ["JSON4C4_DISABLE_STD_SUPPORT"]
    msan = R.build("msan", ["msan.cpp"], defines=D)
    plain = R.build("plain", ["msan.cpp"], defines=D, extra=["-O1"])
    source = R.build("asan0", ["msan.cpp"], defines=D)
    if replay:
        if replay["stage"] == "source":
            r.shards("source", source, replay=replay["case"])
            return
        r.shards("memcheck", plain, replay=replay["case"], wrap=MEMCHECK)
        return
    before = len(r.violations)
    for stage in ("source", "uninit", "memcheck"):
        os.makedirs(os.path.join(r.dir, stage), exist_ok=True)
        for f in glob.glob(os.path.join(r.dir, "text", "pack.*")):
            os.link(f, os.path.join(r.dir, stage, os.path.basename(f)))
    if not r.shards("source", source, timeout=1500 if th else 400):
        return
    r.shards("uninit", msan, timeout=1500 if th else 400)
    found, r.violations = r.violations[before:], r.violations[:before]
    for v in found[:3]:
        # uninstrumented code (a library function without interceptor) can mislead MemorySanitizer, not Memcheck
        if not r.shards("memcheck", plain, replay=v["case"], wrap=MEMCHECK):
            r.violations[-1]["what"] = "use of uninitialised data: " + r.violations[-1]["what"] + "; " + v["what"]
            return
        r.notes.append("MemorySanitizer report not confirmed by Memcheck: " + v["what"])
    r.shards("memcheck", plain, mode="9" if th else "149", wrap=MEMCHECK, timeout=2400 if th else 400)

CHECKS["C01"] = dict(level="exploration", run=c01,
    rule=TEXTRULE + "nesting up to 5000000 levels and tokens up to 1.5 MB are added. Each text is parsed from a buffer with no readable byte behind it and from a file, walked, queried, validated, deserialized into user types, written and parsed again under ASan and UBSan; a part of them again unoptimised under ASan and UBSan, and under MemorySanitizer and Memcheck. Non-trivial: every distinct text.",
    technique="AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and Valgrind Memcheck over hostile texts, with a CPU-time watchdog",
    note="Sanitizers see every access made on the texts run; texts outside the enumerations are sampled. Buffers end exactly behind the terminator (slack is poisoned), so overreads of one byte show. Stack limit is the default 8 MB under ASan's larger frames.")

TYPED = ["typed.cpp", "ops_a.cpp", "ops_b.cpp", "ops_c.cpp", "ops_d.cpp", "ops_e.cpp", "ops_f.cpp"]
def c06(r, replay):
    th = r.tier == "thorough"
    exes = R.build_all([dict(variant="asan", sources=["text.cpp", "typed_ops.cpp"]), dict(variant="asan", sources=TYPED)])
    for stage, exe, scale in (("text", exes[0], 4.0), ("typed", exes[1], 4.0)):
        if replay and replay["stage"] != stage:
            continue
        if not r.shards(stage, exe, scale=scale * (THOROUGH if th else 1.0), budget=700 if th else 200, replay=replay["case"] if replay else None, timeout=3000 if th else 400):
            return

CHECKS["C06"] = dict(level="exploration", run=c06,
    rule=TEXTRULE + "each accepted one is written with varied indentation over varied earlier file contents, the bytes are read by an independent reader and by the library; the same with objects of 66 types, named values and appended values. Non-trivial: more than one value.",
    technique="runtime round-trip monitor: written bytes judged by an independent RFC 8259 reader",
    note="Documents come from parsing and from serialization; indentation characters are the four JSON whitespace characters. Trusts the reference reader.")
CHECKS["C02"] = dict(level="exploration", run=simple("typed", "asan", TYPED, leaks=True),
    rule="Histories of 1-14 parses (good, damaged, cut off, with repeated names), serializations over earlier content, deserializations, writes and named insertions on two documents and kept objects of 66 types; documents cut at every byte. Every block taken while the library works is recorded through the allocator hooks and must be given back when all is destroyed. Non-trivial: each distinct history.",
    technique="allocation-hook accounting of every block, with AddressSanitizer for double frees and LeakSanitizer at exit",
    note="Exact accounting on the histories run; histories are sampled. Trusts the sanitizer's allocator hooks.")
CHECKS["C08"] = dict(level="exploration", run=simple("typed", "asan", TYPED, quick=5),
    rule="Random objects of 66 types (each supported field type, nested) serialized over dirty documents, compared with a model node by node, deserialized, written, read by an independent reader and by the library. Types that refuse some values check that failures reach the caller. Non-trivial: more than one value.",
    technique="runtime round-trip monitor against a model of every type, under ASan/UBSan",
    note="All supported field types and two levels of nesting are instantiated; values are sampled with edge values. Trusts the models in harness/types.h.")
CHECKS["C09"] = dict(level="exploration", run=simple("typed", "asan", TYPED, quick=3),
    rule="For each of 66 types: the smallest documents of every kind, its own documents with every place changed to every other kind and every name removed, random damage, documents of other types. Status of Validate and DeserializeTo compared with each other and with a model; objects and documents compared before and after. Non-trivial: each distinct (type, document).",
    technique="runtime monitor of verdicts against a model of every type; one-fault enumeration, under ASan/UBSan",
    note="When a document has several faults any of their statuses is accepted, but both functions must give the same one. Trusts the models in harness/types.h.")
CHECKS["C10"] = dict(level="exploration", run=simple("typed", "asan", TYPED, quick=8),
    rule="Histories of 3-40 operations on two documents; after each operation both documents are compared with a model. Non-trivial: each distinct history.",
    technique="online checker of a document model over random operation histories, under ASan/UBSan",
    note="Histories are sampled. After a failed serialization the content is unspecified and is only required to be usable.")

CHECKS["C14"] = dict(level="exploration", run=simple("map", "asan", ["map.cpp"], leaks=True, quick=2),
    rule="Every AVL tree shape up to 7 elements under all 3-step sequences of removal, insertion and replacement, up to 12 under all 2-step sequences, up to 16 under every single step with random follow-up (thorough: 9, 14, 22), and random histories over two maps with number and string keys, and maps of up to 73000 elements. After each step the whole tree is walked and compared with an ideal map. Non-trivial: each distinct pair of tree shapes seen.",
    technique="online checker of an ideal ordered map over enumerated tree shapes and random histories, under ASan/UBSan",
    note="Tree shapes up to the bounds are complete for the stated steps; longer histories are sampled. Elements count their destructions.")

CHECKS["C15"] = dict(level="exploration", run=simple("strings", "asanlib0", ["strings.cpp"], leaks=True),
    rule="All pairs of text lengths 0-150 through every assigning and appending operation from five kinds of storage, all bytes through escaping, and random histories of 40 operations on four dynamic strings and two guarded fixed strings of ten capacities, with lengths up to 5000 and (fewer) to 150000; all strings are compared with std::string after each operation. Non-trivial: each distinct history.",
    technique="online checker of an ideal string over enumerated lengths and random histories, under ASan/UBSan with guard bytes",
    note="Lengths up to 150 are complete for single operations; histories are sampled. NUL is not a character of a text; the part a longer SetStringLength adds is unspecified.")

CHECKS["C16"] = dict(level="exploration", run=simple("arrays", "asan", ["arrays.cpp"], leaks=True),
    rule="Every sequence of three out of 30 operations on arrays of every size 0-18 and four built-in capacities with elements that record their construction, moving and destruction (two operations for strings, nested arrays and numbers; thorough: three), and random histories of 60 operations, and histories on up to 150000 elements; the sequence is compared with a model after each. Non-trivial: each distinct history.",
    technique="online checker of an ideal sequence with lifetime-recording elements, under ASan/UBSan and LeakSanitizer",
    note="Short histories are complete up to the bounds, longer ones sampled. Elements that lie in the array itself are not passed to it; over-aligned elements are outside.")

CHECKS["C17"] = dict(level="exploration", run=simple("textfn", "asanlib0", ["textfn.cpp"], leaks=True, quick=2),
    rule="All code points; all pairs of leading bytes with edge bytes behind them; all pairs of strings of up to 3 characters of a 7-letter alphabet through all comparisons with all maxima; random well-formed and ill-formed texts, words, numbers and paths through every function, and texts of up to 150000 characters. Sources end exactly behind their terminator (or have none where a maximum is given) and destinations have exactly the stated room. Non-trivial: each distinct text or number.",
    technique="differential runtime monitor of every function against its definition, under ASan/UBSan with exact buffers",
    note="Code points and short strings are complete; longer inputs are sampled. Encoded surrogates, empty search texts and quotes as search characters are left open. Float formatting is approximate by design and is held to half a percent (20 millionths between 0.0001 and 0.02).")

CHECKS["C11"] = dict(level="exploration", run=simple("io", "iowrap", ["io.cpp"]),
    rule="The system calls the library makes are intercepted. For each small document every call is made to fail in nine ways (error, interruption, no space, end of file, partial transfers, loss at close), alone, from that call on, and among short transfers; the device fails behind each byte, and a file size limit stands at each byte. Larger documents get random combinations. Files change, shrink, grow, vanish at each step of the reading; sizes 0-199, around 65534, multiples of 2^16 to 2^40; targets that are directories, links, full, protected, unreachable. Non-trivial: each distinct document.",
    technique="fault injection at every intercepted system call, with monitors of document, file bytes and descriptors, under ASan/UBSan",
    note="Each single fault at each call is covered for the documents run, combinations are sampled. Faults are injected at the POSIX calls open/read/write/stat/seek/close and their variants; limits, full device, rights and file kinds are the kernel's own.")

LOCALES = ("de_DE.UTF-8", "ps_AF.UTF-8")

def make_locales(r):
    """Locales with other decimal separators, compiled into the run's own directory."""
    where = os.path.join(r.dir, "locales")
    os.makedirs(where, exist_ok=True)
    have = []
    for name in LOCALES:
        lang, charmap = name.split(".")
        try:
            subprocess.run(["localedef", "-c", "--no-archive", "-i", lang, "-f", charmap, os.path.join(where, name)], capture_output=True, timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            pass
        if os.path.exists(os.path.join(where, name, "LC_NUMERIC")):
            have.append(name)
        else:
            r.notes.append("locale %s could not be made here and was not used" % name)
    return where, have

def nearest_bits(literal):
    """The double nearest to a literal, ties to even, from exact integers only."""
    m = re.fullmatch(r"(-?)(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?", literal)
    neg, whole, frac, exp = m.group(1) == "-", m.group(2), m.group(3) or "", int(m.group(4) or 0)
    sign = 1 << 63 if neg else 0
    digits = int(whole + frac)
    exp -= len(frac)
    if digits == 0:
        return sign
    size = len(str(digits)) + exp
    if size > 400: return sign | 0x7FF0000000000000
    if size < -400: return sign
    n, d = (digits * 10 ** exp, 1) if exp >= 0 else (digits, 10 ** -exp)
    # 2^e <= n/d < 2^(e+1)
    e = n.bit_length() - d.bit_length()
    if (n << max(0, -e)) < (d << max(0, e)): e -= 1
    e = max(e, -1022)
    shift = 52 - e
    a, b = (n << shift, d) if shift >= 0 else (n, d << -shift)
    q, rest = divmod(a, b)
    if 2 * rest > b or (2 * rest == b and q & 1): q += 1
    # q in units of 2^(e-52); a subnormal has q < 2^52
    out = q if e == -1022 else ((e + 1022) << 52) + q
    return sign | min(out, 0x7FF0000000000000)

def offline_numbers(r, stage):
    """Judges what was recorded with exact fractions."""
    sys.set_int_max_str_digits(0)
    n = 0
    for f in sorted(glob.glob(os.path.join(r.dir, stage, "log.*"))):
        for line in open(f):
            kind, bits, literal = line.split()
            n += 1
            want = nearest_bits(literal)
            if want != int(bits, 16):
                r.violation("recorded number: literal %s and double %s do not belong together, the nearest is %016x" % (literal[:300], bits, want), stage, "log", line)
                return
    r.count("recorded numbers judged with exact integers", n)
    r.evaluations += n

def c05(r, replay):
    exe = R.build("asan", ["numbers.cpp"])
    th = r.tier == "thorough"
    where, names = make_locales(r)
    for mode in ["C"] + names:
        stage = "numbers-" + mode
        if replay and replay["stage"] != stage:
            continue
        ok = r.shards(stage, exe, mode=mode, scale=THOROUGH if th else 1.0, budget=500 if th else 150, replay=replay["case"] if replay and replay["case"] != "log" else None, timeout=2000 if th else 500, extra_env=dict(LOCPATH=where))
        if not ok:
            return
        if not replay or replay["case"] == "log":
            offline_numbers(r, stage)

CHECKS["C05"] = dict(level="exploration", run=c05,
    rule="All literals of up to three digits at every exponent from -345 to 312; the exact middle of neighbouring doubles and its neighbours, in plain and shifted notation; literals of up to 60000 digits and exponents of up to 40; doubles of every exponent with edge mantissas and random ones, written and read back; repeated under locales with a comma and with a two-byte decimal separator, set for the process or the thread and changed between calls. Non-trivial: each distinct literal or double.",
    technique="differential runtime monitor against correctly rounded conversion, with an offline checker in exact integers over recorded conversions, under ASan/UBSan",
    note="Literals and doubles are sampled beyond the enumerations. Trusts from_chars, cross-checked with exact integer arithmetic on a recorded part. The rounding mode of the process is the default one.")

CHECKS["C12"] = dict(level="exploration", run=simple("oom", "asan", ["oom.cpp"] + TYPED[1:], leaks=True),
    rule="Texts (valid, damaged, cut off) parsed from buffers and files over empty and filled documents, objects of 66 types (also such whose own functions and copies allocate and throw) serialized, deserialized and validated directly and under names, documents written: each call is counted once for its allocations and then repeated with each of them failing, alone and with all later ones. Non-trivial: each distinct call.",
    technique="enumeration of allocation failures in a replaced operator new, with block accounting and AddressSanitizer",
    note="Every allocation of every call run is failed (of calls with more than 160 the first and last 80 and a part of the others); calls are sampled. Blocks are accounted through the sanitizer's allocation hooks. Looking a name up by Find* during exhaustion is outside (those functions return no status).")

def c13(r, replay):
    th = r.tier == "thorough"
    srcs = ["threads.cpp"] + TYPED[1:]
    exes = R.build_all([dict(variant="tsan", sources=srcs), dict(variant="plain", sources=srcs, extra=["-pthread"])])
    for stage, exe, scale in (("race", exes[0], 1.0), ("fast", exes[1], 3.0)):
        if replay and replay["stage"] != stage:
            continue
        if not r.shards(stage, exe, n=4, scale=scale * (THOROUGH if th else 1.0), budget=700 if th else 120, replay=replay["case"] if replay else None, timeout=2000 if th else 600):
            return

CHECKS["C13"] = dict(level="exploration", run=c13,
    rule="Rounds of 2-8 threads, each doing the same 40 jobs in its own order: parsing, writing, typed conversion, strings, arrays and text functions on own data, calls that fail, edits of own trees; walking, querying, validating, deserializing and writing shared documents. Each result is compared with that of the job done alone; the first uses of the library in the process are made by threads. ThreadSanitizer watches one part, another runs at full speed. Non-trivial: each distinct result.",
    technique="ThreadSanitizer over threads with own and shared documents, with comparison of every result with the single-threaded one",
    note="ThreadSanitizer reports a race whenever both accesses occur unordered, whatever the interleaving; jobs and interleavings are sampled. The threads share no lock or ordering atomic of the harness.")

CHECKS["C18"] = dict(level="exploration", run=simple("cost", "count", ["cost.cpp"]),
    rule="Families of texts that grow in one dimension (80 fixed ones: elements, names in many orders and repeated, strings, escapes, digits, blanks, depth, faults at the end; and random units repeated in random surroundings), each at three or four sizes; typed containers of 2000-32000 elements. Basic blocks executed, bytes touched by memory functions, system calls, bytes allocated and held are counted for parsing, looking up, writing, destroying and converting; none may grow three times faster than the length. Each call runs on a painted stack, of which it may use 256 KB and 1.5 KB for each level of nesting. Non-trivial: each distinct text.",
    technique="instrumented counting of executed basic blocks, touched bytes, allocations and painted stack over growing families of texts",
    note="Counts are deterministic, not times. A growth of n log n stays below the limit at the sizes used, n squared exceeds it at least fivefold unless its constant is very small. Families are sampled.")

# name, compiler, flags, definitions, shared; the first is the reference (a plain CMake build)
CONFIGS = [
    ("gcc -O0", "g++", ["-O0"], [], False),
    ("gcc -O2", "g++", ["-O2"], [], False),
    ("gcc -O3 NDEBUG", "g++", ["-O3"], ["NDEBUG"], False),
    ("clang -O0", "clang++", ["-O0"], [], False),
    ("clang -O2", "clang++", ["-O2"], [], False),
    ("clang -O3 NDEBUG", "clang++", ["-O3"], ["NDEBUG"], False),
    ("gcc without std support", "g++", ["-O2"], ["JSON4C4_DISABLE_STD_SUPPORT"], False),
    ("gcc without exceptions", "g++", ["-O2", "-fno-exceptions"], [], False),
    ("clang without exceptions and std support", "clang++", ["-O1", "-fno-exceptions"], ["JSON4C4_DISABLE_STD_SUPPORT"], False),
    ("gcc shared library", "g++", ["-O2"], [], True),
    ("clang shared library", "clang++", ["-O1"], [], True),
    # the same code with other leftovers in memory
    ("gcc with unsigned char", "g++", ["-O2", "-funsigned-char"], [], False),
    ("clang with unsigned char", "clang++", ["-O1", "-funsigned-char"], [], False),
    ("gcc C++20 without SIMD", "g++", ["-O2", "-std=c++20"], ["TERATHON_NO_SIMD"], False),
    ("clang C++20 -O3 -march=haswell", "clang++", ["-O3", "-march=haswell", "-ffp-contract=off", "-std=c++20"], [], False),
    ("clang -O1, stack filled", "clang++", ["-O1", "-ftrivial-auto-var-init=pattern"], [], False),
]

def c20(r, replay):
    th = r.tier == "thorough"
    D = R.build("plain", ["pack.cpp"] + TYPED[1:])
    specs = [dict(variant="plain", sources=["configs.cpp"], compiler=cc, extra=flags, defines=defs, shared=shared) for _, cc, flags, defs, shared in CONFIGS]
    exes = R.build_all(specs)
    if not r.shards("pack", D, scale=THOROUGH if th else 1.0, budget=300 if th else 60):
        raise R.HarnessError("no texts")
    r.evaluations = 0
    distinct = set(r.hashes)
    logs = []
    for i, ((name, _, _, defs, _), exe) in enumerate(zip(CONFIGS, exes)):
        stage = "config%d" % i
        os.makedirs(os.path.join(r.dir, stage), exist_ok=True)
        for f in glob.glob(os.path.join(r.dir, "pack", "pack.*")):
            os.link(f, os.path.join(r.dir, stage, os.path.basename(f)))
        # freed and new memory is filled differently in each configuration
        if not r.shards(stage, exe, timeout=2000 if th else 400, extra_env=dict(MALLOC_PERTURB_=str(17 * i % 256))):
            for v in r.violations:
                v["what"] = "configuration " + name + ": " + v["what"]
            return
        logs.append({})
        for f in sorted(glob.glob(os.path.join(r.dir, stage, "log.*"))):
            logs[i][os.path.basename(f)] = open(f).read().splitlines()
        r.count("transcripts of " + name, sum(map(len, logs[i].values())))
        if i == 0:
            continue
        nostd = "JSON4C4_DISABLE_STD_SUPPORT" in defs
        for f, mine in logs[i].items():
            ref = logs[0][f]
            for a, b in zip(ref, mine):
                if (a != b) if not nostd else (a.split()[:2] != b.split()[:2]):
                    k = a.split()[0]
                    shown = []
                    for j in (0, i):
                        p = subprocess.run([exes[j], "--prop=C20", "--dir=" + os.path.join(r.dir, "config%d" % j), "--shard=" + f.split(".")[1], "--mode=" + k], capture_output=True, text=True, errors="replace", env=r.env(False), cwd=r.dir)
                        shown.append(p.stderr)
                    at = next((n for n, (x, y) in enumerate(zip(*shown)) if x != y), 0)
                    r.violation("configuration %s gives another result than %s: ...%s instead of ...%s" % (name, CONFIGS[0][0], shown[1][max(0, at - 60):at + 80], shown[0][max(0, at - 60):at + 80]), stage, "%s %s" % (f, k), "\n\n".join(shown))
                    return
            if len(ref) != len(mine):
                raise R.HarnessError("transcripts of different lengths")
    r.hashes = distinct

CHECKS["C20"] = dict(level="exploration", run=c20,
    rule="The same texts (enumerated, random, damaged, and documents of 66 types) are given to sixteen builds: two compilers, optimisation levels, C++17 and C++20, unsigned char, without vector instructions, without std support, without exceptions, as shared library, with filled stack and heap. Status, place, message, tree, lookups, typed results, written bytes and string functions are recorded for each text and compared with the default build. Non-trivial: each distinct text.",
    technique="offline comparison of recorded transcripts of sixteen build configurations on the same inputs",
    note="Texts are sampled. The builds use the compilers present here; other platforms and TERATHON_NO_SYSTEM cannot be built here.")

def c21(r, replay):
    th = r.tier == "thorough"
    simd = ["TERATHON_NO_SIMD"]
    specs = [dict(variant="asan", sources=["math.cpp"]), dict(variant="plain", sources=["math.cpp"]), dict(variant="plain", sources=["math.cpp"], defines=simd), dict(variant="asan", sources=["math.cpp"], defines=simd)]
    exes = R.build_all(specs)
    for stage, exe, mode in (("checked", exes[0], "few"), ("checked-noSimd", exes[3], "few"), ("fast", exes[1], "full" if th else ""), ("fast-noSimd", exes[2], "full" if th else "")):
        if replay and replay["stage"] != stage:
            continue
        if not r.shards(stage, exe, mode=mode, scale=THOROUGH if th else 1.0, budget=1500 if th else 150, replay=replay["case"] if replay else None, timeout=2500 if th else 400):
            return

CHECKS["C21"] = dict(level="exploration", run=c21,
    rule="Every upper half of a float with many lower halves (thorough: all 2^32 floats) through every function of one argument; angles at and around each multiple of an eighth turn and of a table step; pairs over edge values; integers at and around all powers of two. Each result is compared with the C library's in double precision, exactly or within the stated error. With and without vector instructions, a part under ASan and UBSan. Non-trivial: each distinct block of arguments.",
    technique="differential runtime monitor of every function against its definition in double precision, with UBSan on a part",
    note="Functions of one float are complete in the thorough tier, pairs are sampled. Trusts the C library's double functions. The limits are a few times the errors measured over all floats. Excluded: Abs of the least integer, powers of two outside the type, Positive*/Negative* outside their domain, angles above 10000.")

def c22(r, replay):
    th = r.tier == "thorough"
    stages = (("sse", "asan", []), ("avx", "asan", ["-mavx2"]), ("sse-fast", "plain", ["-O1"]), ("avx-fast", "plain", ["-mavx2", "-O1"]))
    exes = R.build_all([dict(variant=v, sources=["simd.cpp"], extra=f) for _, v, f in stages])
    for (stage, _, _), exe in zip(stages, exes):
        if replay and replay["stage"] != stage:
            continue
        if not r.shards(stage, exe, scale=(THOROUGH if th else 1.0) * (4 if "fast" in stage else 1), budget=500 if th else 100, replay=replay["case"] if replay else None, timeout=1500 if th else 300):
            return

CHECKS["C22"] = dict(level="exploration", run=c22,
    rule="Random registers of finite, special and arbitrary bit patterns, with equal and neighbouring lanes, through all 140 vector operations, all 256 shuffles and every load and store between guard bytes; built for 128-bit and for 256-bit registers. Each lane is compared with the scalar definition. Non-trivial: each distinct pair of registers.",
    technique="differential runtime monitor of each lane against the scalar definition, under ASan/UBSan with guard bytes",
    note="Register contents are sampled, shuffles are complete. Only what the processor here has is run: not NEON; the SSE4 branch does not compile with these compilers. 256-bit operations are run only if the processor has AVX2.")

CHECKS["C23"] = dict(level="exploration", run=simple("edit", "asan", ["edit.cpp"] + TYPED[1:], leaks=True),
    rule="Random documents and serialized objects under random histories of up to 120 edits (leaves, arrays, objects, values moved between documents, user objects serialized into values of every kind and under names); after every edit the tree, its text and what it deserializes to are compared with the same edits made to a model. Non-trivial: every history.",
    technique="model-based runtime monitor of edit histories, under ASan/UBSan/LeakSanitizer",
    note="Histories are sampled. Trusts the reference reader and the edit model.")

CHECKS["C24"] = dict(level="exploration", run=simple("typed", "asan", TYPED, leaks=True, quick=3),
    rule="Objects of 66 user types that already hold values take up to five documents one after another: documents of their own type, crossings of these with what the object holds, with optional names left out, and damaged ones; after each the object is compared with a model updated in the same way, and finally its serialization with the model. Map elements must stay at their address. Non-trivial: each distinct object and history with a fitting document.",
    technique="model-based runtime monitor of repeated deserialization into the same object, under ASan/UBSan/LeakSanitizer",
    note="Objects and documents are sampled. Trusts the update model. What an object holds after a document that does not fit is not judged, only that it can be used on.")
