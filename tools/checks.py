"""what each check builds and runs"""
# undefined-behaviour checks that flag constructs which are harmless on every supported compiler
# (forming null+0, memcpy(x,null,0), documented wrap-around) are off: they would report correct code.
_NOUB = "-fno-sanitize=signed-integer-overflow,shift-base,pointer-overflow,nonnull-attribute,returns-nonnull-attribute,float-cast-overflow"
_SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
CONFIGS = {
    # assertions on
    "dbg": dict(cxx="g++", flags=["-std=c++17", "-O1"] + _SAN + [_NOUB]),
    # assertions off, optimised, other compiler
    "rel": dict(cxx="clang++", flags=["-std=c++17", "-O2", "-DNDEBUG"] + _SAN + [_NOUB]),
    # oldest supported language level: other code paths (no std::to_chars / from_chars)
    "cpp11": dict(cxx="g++", flags=["-std=c++11", "-O1"] + _SAN + [_NOUB]),
    # without the bundled real parser: std::from_chars (C++17), sscanf (C++11)
    "nff": dict(cxx="g++", flags=["-std=c++17", "-O1", "-DC4CORE_NO_FAST_FLOAT"] + _SAN + [_NOUB]),
    "nff11": dict(cxx="g++", flags=["-std=c++11", "-O1", "-DC4CORE_NO_FAST_FLOAT"] + _SAN + [_NOUB]),
    # newest language level: rewritten comparisons, other library overloads
    "cpp20": dict(cxx="clang++", flags=["-std=c++20", "-O1"] + _SAN + [_NOUB]),
    # compiler builtins not announced: the portable bit scans
    "nobi": dict(cxx="g++", flags=["-std=c++17", "-O1", "-include", "nobi.hpp"] + _SAN + [_NOUB]),
    # errors thrown as exceptions
    "thr": dict(cxx="g++", flags=["-std=c++17", "-O1", "-DC4_EXCEPTIONS_ENABLED", "-DC4_ERROR_THROWS_EXCEPTION"] + _SAN + [_NOUB]),
    # uninitialised values
    "vg": dict(cxx="g++", flags=["-std=c++17", "-O1", "-g1"], scale=0.02, noshard=True,
               wrap=["valgrind", "-q", "--error-exitcode=94", "--exit-on-first-error=yes", "--leak-check=no"]),
    # data races; both language levels, because conversions differ
    "tsan11": dict(cxx="clang++", flags=["-std=c++11", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
    "tsan": dict(cxx="clang++", flags=["-std=c++17", "-O0", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]),
}
COMMON_ASSUMPTIONS = [
    "the reference oracles in harness/*.cpp are correct",
    "the sanitizers and libc of this sandbox are correct; x86-64 little-endian only",
    "only executions produced by the generators are decided; nothing is claimed about inputs not generated",
]
STD = ["dbg", "rel", "vg"]
CHECKS = {
    "C01": dict(sources=["c01.cpp"], configs=["dbg", "rel", "cpp11", "vg"]),
    "C02": dict(sources=["c02.cpp"], quick_scale=6, configs=STD),
    "C03": dict(sources=["c03.cpp"], quick_scale=10, configs=STD),
    "C05": dict(sources=["c05.cpp"], quick_scale=4, configs=["dbg", "rel", "cpp11", "nff", "nff11"]),
    "C06": dict(sources=["c06.cpp"], quick_scale=6, configs=["dbg", "rel", "cpp11", "nff", "nff11", "vg"]),
    "C07": dict(sources=["c07.cpp"], quick_scale=10, configs=["dbg", "rel", "cpp20", "vg"]),
    "C08": dict(sources=["c08.cpp"], quick_scale=10, configs=STD),
    "C09": dict(sources=["c09.cpp"], quick_scale=10, configs=STD),
    "C10": dict(sources=["c10.cpp"], quick_scale=20, configs=STD),
    "C04": dict(sources=["c04.cpp"], quick_scale=4, configs=STD),
    "C11": dict(sources=["c11.cpp"], quick_scale=6, configs=STD),
    "C12": dict(sources=["c12.cpp"], quick_scale=10, configs=STD),
    "C13": dict(sources=["c13.cpp"], quick_scale=6, configs=STD),
    "C14": dict(sources=["c14.cpp"], quick_scale=5, configs=STD),
    "C15": dict(sources=["c15.cpp"], configs=STD),
    "C16": dict(sources=["c16.cpp"], quick_scale=5, configs=STD, expect=["exhaustions", "reallocations_moved", "releases"]),
    "C17": dict(sources=["c17.cpp"], quick_scale=5, configs=STD, expect=["faults", "scopes", "unwound"]),
    "C18": dict(sources=["c18.cpp"], configs=STD, expect=["blocks_from_resource", "move_assignments", "swaps"]),
    "C19": dict(sources=["c19.cpp"], quick_scale=5, configs=["dbg", "rel", "cpp11", "cpp20", "vg"]),
    "C20": dict(sources=["c20.cpp"], quick_scale=4, configs=["dbg", "rel", "cpp11", "vg"], expect=["masks_written", "masks_refused", "texts_read", "malformed_texts"]),
    "C21": dict(sources=["c21.cpp"], quick_scale=3, configs=["dbg", "rel", "cpp11", "vg"], expect=["lifetime_events", "gap0_overlap", "gap4_overlap"]),
    "C22": dict(sources=["c22.cpp"], configs=["dbg", "rel", "cpp11", "nobi", "vg"], expect=["conversions", "refusals"]),
    "C23": dict(sources=["c23.cpp"], quick_scale=3, configs=["dbg", "rel", "cpp11", "thr", "vg"], expect=["misuses", "scopes_left_by_error", "scopes_left_by_exception", "processes", "truncated_messages"],
                technique="error-path workloads on the real code under ASan/UBSan/Valgrind; a monitor in the error callback and in forked children records every report, a stack model judges scoped settings"),
    "C24": dict(sources=["c24.cpp"], shards=1, shards_thorough=2, configs=["tsan", "tsan11", "dbg"], expect=["operations", "thread_switches_between_operations", "focused_operations", "live_blocks", "dump", "text", "convert", "callables", "odd_texts", "containers"],
                technique="multi-threaded programs of library operations with injected delays under ThreadSanitizer (and ASan/UBSan); each thread's results are compared with the same program run alone; live blocks of all threads are checked for overlap"),
    "C25": dict(sources=["c25.cpp"], quick_scale=10, configs=["dbg", "rel", "cpp20", "vg"]),
    "C26": dict(sources=["c26.cpp"], quick_scale=6, configs=["dbg", "rel", "vg"], expect=["calls", "empty_calls", "empty_conversions", "moving_conversions", "copying_conversions", "swaps", "throwing_copies", "lifetime_events"],
                technique="random histories with injected throwing copies on the real code under ASan/UBSan/Valgrind; a lifetime monitor inside the stored callables and a model of who holds what"),
}
