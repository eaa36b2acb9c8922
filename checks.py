"""Which harnesses decide which property, and how they are built."""
import copy
ASAN_FLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w", "-fno-sanitize-recover=all"]

class U:
    def __init__(self, name, src, std="c++17", defs=(), cxx="g++", flags=ASAN_FLAGS, extra=(), ldflags=(), thorough_only=False, sched=False):
        self.sched = sched
        self.name, self.src, self.std, self.defs, self.cxx = name, src, std, list(defs), cxx
        self.flags, self.ldflags, self.thorough_only = list(flags) + list(extra), list(ldflags), thorough_only

SCHED_FLAGS = ["-O1", "-g1", "-w", "-fsanitize=thread", "-femulated-tls"]
def S(name, src, std, defs=(), **kw):
    """a harness run under the controlled scheduler"""
    return U(name, src, std=std, defs=defs, cxx="clang++", flags=SCHED_FLAGS, sched=True, **kw)

CHECKS = {}
def release(units):
    """the same harnesses as in a release build: assertions off, optimised, histories one step shorter"""
    out = []
    for u in units:
        v = copy.copy(u); v.name += "_release"; v.defs = u.defs + ["NDEBUG", "MC_SHALLOW=1"]; v.flags = ["-O2" if f == "-O1" else f for f in u.flags]
        if u.src in ("small_vector.cpp", "static_vector.cpp") and u.defs[-1] in ("PART=2", "PART=3"):      # documented to be the same in a release build
            k = "ITLIB_" + u.src[:-4].upper(); v.defs += [k + "_ERROR_HANDLING=3", k + "_NO_DEBUG_BOUNDS_CHECK"]
        out.append(v)
    return out
def check(pid, units, release_of=None, **kw):
    rel = [u for u in units if u.src not in ("scale.cpp", "pod_recast.cpp") and "NDEBUG" not in u.defs] if release_of is None else [u for u in units if u.name in release_of]
    if rel and "bound" in kw: kw["bound"] += "; again as a release build (-O2, NDEBUG) with histories one step shorter"
    CHECKS[pid] = dict(units=units + release(rel), **kw)

def parts(name, src, n, defs=(), **kw):
    """the same source compiled n times, each with a part of its configurations"""
    return [U("%s_%d" % (name, i), src, defs=list(defs) + ["PART=%d" % i], **kw) for i in range(n)]

def scale(what, *defs): return [U("scale", "scale.cpp", defs=["WHAT=%d" % what] + list(defs))]      # sizes around 2^8, 2^16, 2^31, 2^32

SCALE = "; every operation at every boundary position with sizes around 2^8 and 2^16 (streams, views, pod_vector and bit indices: also 2^31 and 2^32)"
SEQ = "all operation histories up to the depth listed per configuration in the evidence, over every position, count 0..3 and allocation failure, element types int/string/instrumented/move-only/throwing-move/over-aligned"
check("V01", parts("small_vector", "small_vector.cpp", 4, defs=["PROP=1"]) + scale(3), bound=SEQ + SCALE)
check("V02", parts("small_vector", "small_vector.cpp", 4, defs=["PROP=2"]), bound=SEQ)
check("V03", parts("small_vector", "small_vector.cpp", 4, defs=["PROP=3"]), bound=SEQ)
check("V04", parts("static_vector", "static_vector.cpp", 4, defs=["PROP=4"]) + scale(5), bound=SEQ + SCALE)
check("V05", parts("static_vector", "static_vector.cpp", 4, defs=["PROP=5"]), bound=SEQ)
check("V08", parts("small_vector", "small_vector.cpp", 4, defs=["PROP=8"]), bound=SEQ)
check("V09", parts("static_vector", "static_vector.cpp", 4, defs=["PROP=9"]), bound=SEQ)
check("V06", parts("pod_vector", "pod_vector.cpp", 4, defs=["PROP=6"]) + scale(6), bound=SEQ + SCALE)
check("V07", parts("pod_vector", "pod_vector.cpp", 4, defs=["PROP=7"]) + parts("pod_recast", "pod_recast.cpp", 3), bound=SEQ + "; recasts between 8 type pairs, lengths 0..4, four spare capacities, all pairs of follow-up operations")

SCHED = "all schedules (dynamic partial order reduction, no preemption bound) of all programs of the configurations in the evidence"
check("C01", [S("asps17", "asps.cpp", "c++17", ["RACES=0"]), S("asps20", "asps.cpp", "c++20", ["RACES=0"])], tech="sched", bound=SCHED, release_of=['asps17'])
check("C02", [S("asps17", "asps.cpp", "c++17", ["RACES=1"]), S("asps20", "asps.cpp", "c++20", ["RACES=1"])], tech="sched", bound=SCHED, release_of=['asps17'])
check("C03", [S("rec_mutex", "rec_mutex.cpp", "c++17"), S("rec_mutex_ndebug", "rec_mutex.cpp", "c++17", ["NDEBUG"])], tech="sched", bound=SCHED, release_of=[])
check("C05", [S("counter", "counter.cpp", "c++17")], tech="sched", bound=SCHED)
check("C04", [U("data_mutex", "data_mutex.cpp", cxx="clang++"), U("data_mutex_no_elide", "data_mutex.cpp", std="c++17", extra=["-fno-elide-constructors"]),
    S("data_mutex_mt", "data_mutex_mt.cpp", "c++17")], tech="sched", bound=SCHED + "; all histories of up to 5 accessor operations in one thread with a throwing mutex", release_of=['data_mutex', 'data_mutex_mt'])
FLAT = "all histories up to the depth in the evidence over 2-4 keys with distinguishable equivalents, one or two containers, four comparators, five underlying containers; all ranges up to length 7 over 3 keys; long ranges (15..40) of 8 patterns with an extra equivalent pair at every two positions"
check("M01", parts("flat_map", "flat.cpp", 4, defs=["MAP=1"]) + scale(8, "MAP=1"), bound=FLAT + SCALE)
check("M02", parts("flat_set", "flat.cpp", 4, defs=["MAP=0"]) + scale(8, "MAP=0"), bound=FLAT + SCALE)
check("M04", [U("flat_map_ex", "flat_ex.cpp", defs=["MAP=1"]), U("flat_set_ex", "flat_ex.cpp", defs=["MAP=0"])], bound="all operation histories up to the depth in the evidence over 4 keys (5 in the thorough tier) where each comparison (up to the 5th), each element constructor (up to the 4th) and each allocation of an operation in turn throws; vector, small_vector and static_vector as containers")
check("M03", [U("umap", "umap.cpp", std="c++20"), U("flat_map_het", "flat.cpp", defs=["MAP=1", "PART=9"]), U("flat_set_het", "flat.cpp", defs=["MAP=0", "PART=9"])],
    bound="all histories up to the depth in the evidence over 2-3 keys, every operation with plain and foreign keys in every value category, colliding and non-colliding hashes, transparent and non-transparent hash and comparison")
check("B01", [U("bitset", "bitset.cpp")] + scale(7), bound="every copy of a range with every offset, length and alignment for 8 bit words (all boundary offsets for 16/32/64 bit words), every append and resize around word boundaries, all histories up to the depth in the evidence" + SCALE)
ANY = "all histories up to the depth in the evidence over two anys and nine value types, including values assigned from themselves and anys inside anys, with equal and unequal allocators"
check("A01", [U("any", "any.cpp", defs=["PROP=1"])] + scale(1), bound=ANY + SCALE)
check("A02", [U("any_faults", "any.cpp", defs=["PROP=2"]), U("nomem", "nomem.cpp", flags=["-O1", "-g1", "-w"])] + scale(2), bound=ANY + ", with a failing allocation or constructor in every operation; the default allocator in a process without memory, all histories of three operations" + SCALE)
check("L01", [U("pmr17", "pmr.cpp", std="c++17"), U("pmr20", "pmr.cpp", std="c++20")], bound="all histories up to the depth in the evidence of allocator, object and container operations over three resources (two equal), with failing allocations and constructors and sizes around every overflow", release_of=['pmr17'])
check("E01", [U("expected", "expected.cpp"), U("expected_ndebug", "expected.cpp", defs=["NDEBUG"], thorough_only=True)], bound="all histories up to the depth in the evidence over two objects of 24 instantiations of expected, with a throwing constructor in every operation that can construct", release_of=['expected'])
check("F01", [U("ufunction", "ufunction.cpp"), U("ufunction_clang", "ufunction.cpp", std="c++20", cxx="clang++")], bound="all histories up to the depth in the evidence over two ufunctions and nine kinds of callables; all listed signatures", release_of=['ufunction'])
check("G01", [U("generator", "generator.cpp", std="c++20"), U("generator_clang", "generator.cpp", std="c++20", cxx="clang++")], bound="all histories up to the depth in the evidence over two generators and an iterator, coroutines yielding 0..3 values and then returning or throwing, six element kinds; all trees of up to 6 nodes walked by nested generators, with an exception and an early stop at every place", release_of=['generator'])
check("S01", [U("ostreambuf", "streambuf.cpp", defs=["PROP=1"])] + scale(9), bound="all histories up to the depth in the evidence of single and block writes, formatted output, seeks in and out of range, clear and get_container, over vector, string, small_vector and static_vector, with failing allocations" + SCALE)
check("S02", [U("istreambuf", "streambuf.cpp", defs=["PROP=2"])] + scale(10), bound="all histories up to the depth in the evidence (thorough: all reachable states) of every read, peek, unget, putback, block, line and seek operation with offsets in and out of range, in lockstep with std::stringbuf" + SCALE)
check("S03", [U("rstream", "rstream.cpp")], bound="all histories up to the depth in the evidence (thorough: all reachable states) of reads, extractions, nested redirects and operations on the wrapped stream, data of length 0..4, streams which throw and which do not, in lockstep with std::istream")
check("P01", [U("span", "views.cpp", defs=["PROP=1"])] + scale(11), bound="all reachable ranges of views of 0..6 elements under every chain of slicing operations with every offset and count up to beyond the end and around every overflow; all pairs of iterator positions; all constructions" + SCALE)
check("P02", [U("stride_span", "views.cpp", defs=["PROP=2"])] + scale(12), bound="all reachable ranges of views of 0..6 elements under every chain of slicing operations with every offset and count up to beyond the end and around every overflow; all pairs of iterator positions; all constructions" + SCALE)
check("P03", [U("poly_span", "views.cpp", defs=["PROP=3"])] + scale(13), bound="all reachable ranges of views of 0..6 elements under every chain of slicing operations with every offset and count up to beyond the end and around every overflow; all pairs of iterator positions; all constructions" + SCALE)
check("P04", [U("memory_view", "views.cpp", defs=["PROP=4"])] + scale(14), bound="all reachable ranges of views of 0..6 elements under every chain of slicing operations with every offset and count up to beyond the end and around every overflow; all pairs of iterator positions; all constructions" + SCALE)
check("Q01", [U("qalgorithm", "qalgorithm.cpp")], bound="all sequences of up to 6 (thorough 8) elements of 3 values with every predicate and value, eight container types and spans")
check("Q02", [U("strutil", "strutil.cpp")], bound="all pairs of a string of up to 7 letters out of 3 and an affix of up to 4, of up to 10 out of 2 and up to 5, of up to 5 out of 4 and up to 3 (thorough: strings two letters and affixes one letter longer); all parts of a string as affix; all sub-ranges of six iterator kinds")
check("T01", [U("time_t", "time_t.cpp")], bound="every second in windows around calendar boundaries and daylight saving changes in 7 zones; all combinations of out of range fields listed; 14 duration types with all counts listed; all formats of up to 2 (thorough 4) of 42 conversions; all result lengths up to 1200 (thorough 5000)")
check("K01", [U("make_ptr", "make_ptr.cpp")], bound="all value categories and eight element types with and without a throwing constructor; all histories up to the depth in the evidence over two owners, four aliases and a weak pointer, with owners of null and owners which point but own nothing")
check("K02", [U("shared_from17", "shared_from.cpp"), U("shared_from11", "shared_from.cpp", std="c++14")], bound="all histories up to the depth in the evidence over two objects, an owner, two pointers and two weak pointers, every way to obtain and to own, four class layouts, both language variants", release_of=['shared_from17'])
check("K03", [U("scope17", "scope.cpp"), U("scope11", "scope.cpp", std="c++14", extra=["-fno-elide-constructors"]), U("scope11_elide", "scope.cpp", std="c++14", cxx="g++")], bound="all scope programs of up to 3 (thorough 4) nested scopes, every exit and every kind of function; all sequences of up to 3 (thorough 5) of 25 streamed items, in and out of unwinding, both language variants", release_of=['scope17'])
check("X01", [U("utility", "utility.cpp"), U("utility_clang", "utility.cpp", cxx="clang++", std="c++20")], bound="all 8 and 16 bit patterns and the listed patterns of wider types through every ordered pair of types of a size; every member of nine layouts in arrays of up to 4; all ordered pairs of the 18 arithmetic types against every 8/16 bit or boundary value", release_of=['utility'])
