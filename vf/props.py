"""What each check runs: build configurations and case profiles."""

G14 = "-DGGGGC_POOL_SIZE=14 -DGGGGC_CARD_SIZE=9"
G12 = "-DGGGGC_POOL_SIZE=12 -DGGGGC_CARD_SIZE=8"
G12C6 = "-DGGGGC_POOL_SIZE=12 -DGGGGC_CARD_SIZE=6"
G13 = "-DGGGGC_POOL_SIZE=13 -DGGGGC_CARD_SIZE=12"
G16 = "-DGGGGC_POOL_SIZE=16 -DGGGGC_CARD_SIZE=7"
G24 = ""   # the library's defaults
PMS = " -DGGGGC_COLLECTOR=portablems"
FIN, TAG, EXT, JIT = (" -DGGGGC_FEATURE_" + f for f in ("FINALIZERS", "TAGGING", "EXTTAG", "JITPSTACK"))
DBG = " -DGGGGC_DEBUG_MEMORY_CORRUPTION"
NT = " -DGGGGC_NO_THREADS"
NOGNU = " -DGGGGC_NO_GNUC_FEATURES"
NOCLEAN = " -DGGGGC_NO_GNUC_CLEANUP"
NOCTOR = " -DGGGGC_NO_GNUC_CONSTRUCTOR"
MALLOC = " -DGGGGC_USE_MALLOC"
SBRK = " -DGGGGC_USE_SBRK -DGGGGC_NO_THREADS"
# no advisory-information option: the next allocator in line (anonymous mappings)
MMAP = " -include @H@/nomemalign.h"
# other systems' backends, on a model of those systems' calls (osmodel.c, osmem.c)
WIN = " -U__unix__ -U__unix -Uunix -D_WIN32 -I@H@/win"
MAC = " -D__APPLE__ -D__MACH__ -I@H@/mac -include @H@/nomemalign.h"
GEN = lambda n: " -DGGGGC_GENERATIONS=%d" % n
ASAN = "ASAN"


class Cfg:
    def __init__(self, name, flags, cc="gcc", asan=False, engine="heap", hflags="", std="gnu++17", pre=None):
        self.pre = pre # target to make first
        self.std = std
        # the library's memory accesses are points at which the scheduler may switch
        self.lflags = " -fsanitize=thread" if engine == "thr" else ""
        self.name, self.flags, self.cc, self.asan, self.engine, self.hflags = name, flags.strip(), cc, asan, engine, hflags


def cfgs(**kw):
    return kw


def heap(name, flags, **k):
    return Cfg(name, flags, **k)


C = {}
def add(name, flags, **k):
    C[name] = Cfg(name, flags, **k)

add("base", G14)
add("base12", G12)
add("pushgen", G14, pre="push")
add("pushgen-nognu", G14 + NOGNU, pre="push")
add("base12c6", G12C6)
add("base13", G13)
add("base16", G16)
add("stock", G24)
add("default-gen3", GEN(3))
add("default-pms", PMS)
add("default-ext", EXT)
add("base20", G14.replace("SIZE=14", "SIZE=20"))
add("bigcard", "-DGGGGC_POOL_SIZE=16 -DGGGGC_CARD_SIZE=13")
add("bigcard-gen3", "-DGGGGC_POOL_SIZE=17 -DGGGGC_CARD_SIZE=12" + GEN(3))
add("onecard", "-DGGGGC_POOL_SIZE=13 -DGGGGC_CARD_SIZE=13")
add("gen1", G14 + GEN(1))
add("gen1-12", G12 + GEN(1))
add("gen3", G14 + GEN(3))
add("gen3-12", G12C6 + GEN(3))
add("gen5", G12 + GEN(5))
add("gen5-14", G14 + GEN(5))
add("nothreads", G14 + NT)
add("nognu", G14 + NOGNU)
add("noclean", G14 + NOCLEAN)
add("noctor", G14 + NOCTOR)
add("cxx", G14, cc="g++")
add("cxx-nognu", G14 + NOGNU, cc="g++")
add("clang", G14, cc="clang")
add("clangxx", G14, cc="clang++")
add("O3", G14, hflags="-O3")
add("debug", G14 + DBG)
add("debug-report", G12 + DBG + " -DGGGGC_DEBUG_REPORT_COLLECTIONS")
add("debug-gen1", G14 + DBG + GEN(1))
add("debug-gen4", G12 + DBG + GEN(4))
add("debug-tag", G14 + DBG + TAG)
add("debug-ext", G14 + DBG + EXT)
add("debug-fin", G14 + DBG + FIN)
add("debug-jit", G14 + DBG + JIT)
add("debug-pms", G14 + DBG + PMS)
add("debug-pms-fin", G12 + DBG + PMS + FIN)
add("debug-cxx", G14 + DBG, cc="g++")
add("debug-nognu", G14 + DBG + NOGNU)
add("fin", G14 + FIN)
add("fin12", G12 + FIN)
add("fin-gen1", G14 + FIN + GEN(1))
add("fin-gen3", G12 + FIN + GEN(3))
add("fin-gen5", G12 + FIN + GEN(5))
add("fin-tag", G14 + FIN + TAG)
add("fin-ext", G14 + FIN + EXT)
add("fin-jit", G14 + FIN + JIT)
add("fin-pms", G14 + FIN + PMS)
add("fin-pms12", G12 + FIN + PMS)
add("fin-cxx", G14 + FIN, cc="g++")
add("fin-nognu", G14 + FIN + NOGNU)
add("fin-nothreads", G14 + FIN + NT)
add("fin-malloc", G12 + FIN + MALLOC)
add("tag", G14 + TAG)
add("tag12", G12 + TAG)
add("tag-gen1", G14 + TAG + GEN(1))
add("tag-gen3", G12 + TAG + GEN(3))
add("tag-pms", G14 + TAG + PMS)
add("tag-jit", G14 + TAG + JIT)
add("tag-jit-pms", G14 + TAG + JIT + PMS)
add("tag-jit-gen3", G12 + TAG + JIT + GEN(3))
add("tag-cxx", G14 + TAG, cc="g++")
add("tag-fin", G14 + TAG + FIN)
add("ext", G14 + EXT)
add("ext12", G12 + EXT)
add("ext-gen1", G14 + EXT + GEN(1))
add("ext-gen3", G12 + EXT + GEN(3))
add("ext-pms", G14 + EXT + PMS)
add("ext-jit", G14 + EXT + JIT)
add("ext-jit-pms", G14 + EXT + JIT + PMS)
add("ext-jit-gen3", G12 + EXT + JIT + GEN(3))
add("ext-cxx", G14 + EXT, cc="g++")
add("ext-nognu", G14 + EXT + NOGNU)
add("ext-fin", G14 + EXT + FIN)
add("jit", G14 + JIT)
add("jit12", G12 + JIT)
add("jit-gen1", G14 + JIT + GEN(1))
add("jit-gen3", G12 + JIT + GEN(3))
add("jit-pms", G14 + JIT + PMS)
add("jit-cxx", G14 + JIT, cc="g++")
add("jit-fin", G14 + JIT + FIN)
add("pms", G14 + PMS)
add("pms12", G12 + PMS)
add("pms16", G16 + PMS)
add("pms-stock", G24 + PMS)
add("pms-cxx", G14 + PMS, cc="g++")
add("pms-nognu", G14 + PMS + NOGNU)
add("pms-nothreads", G14 + PMS + NT)
add("pms-asan", G14 + PMS, asan=True)
add("pms-clang", G14 + PMS, cc="clang")
add("asan", G14, asan=True)
add("fin-asan", G14 + FIN, asan=True)
add("malloc", G14 + MALLOC)
add("malloc12", G12 + MALLOC)
add("malloc-pms", G14 + MALLOC + PMS)
add("malloc-gen3", G12 + MALLOC + GEN(3))
add("sbrk", G14 + SBRK)
add("sbrk12", G12 + SBRK)
add("sbrk16", G16 + SBRK)
add("sbrk-pms", G14 + SBRK + PMS)
add("mmap", G14 + MMAP)
add("mmap12", G12 + MMAP)
add("mmap16", G16 + MMAP + GEN(3))
add("valloc", G14 + NT + WIN)
add("valloc12", G12 + NT + WIN)
add("valloc-gen3", G16 + NT + WIN + GEN(3))
add("mac12", G12 + NT + MAC)
add("all-ext", G14 + FIN + EXT + JIT + DBG)
add("all-tag", G14 + FIN + TAG + JIT + DBG)
add("all-pms", G14 + FIN + EXT + JIT + DBG + PMS)
add("all-tag-pms", G12 + FIN + TAG + JIT + DBG + PMS)
add("all-cxx", G14 + FIN + EXT + JIT + DBG, cc="g++")

# the collections
COLL_CFGS = ""
for n, f, k in (("base", G14, {}), ("base12", G12, {}), ("base16", G16, {}), ("base22", G14.replace("SIZE=14", "SIZE=22"), {}), ("pms18", G14.replace("SIZE=14", "SIZE=18") + PMS, {}), ("gen1", G12 + GEN(1), {}), ("gen3", G12C6 + GEN(3), {}), ("gen5", G12 + GEN(5), {}),
                ("pms", G12 + PMS, {}), ("pms14", G14 + PMS, {}), ("debug", G12 + DBG, {}), ("nognu", G12 + NOGNU, {}), ("tag", G12 + TAG, {}),
                ("ext", G12 + EXT, {}), ("fin", G12 + FIN, {}), ("jit", G12 + JIT, {}), ("clang", G14, dict(cc="clang")), ("O3", G12, dict(hflags="-O3")), ("cxx", G12, dict(cc="g++")), ("noctor", G12 + NOCTOR, {}), ("asan", G14, dict(asan=True))):
    add("coll-" + n, f, engine="coll", **k)
    COLL_CFGS += " coll-" + n

CXX_CFGS = ""
for n, f, k in (("base", G14, {}), ("base12", G12, {}), ("gen3", G12C6 + GEN(3), {}), ("gen5", G12 + GEN(5), {}), ("gen1", G12 + GEN(1), {}), ("pms", G12 + PMS, {}), ("debug", G12 + DBG, {}),
                ("nognu", G12 + NOGNU, {}), ("noctor", G12 + NOCTOR, {}), ("tag", G12 + TAG, {}), ("ext", G12 + EXT, {}), ("fin", G12 + FIN, {}), ("jit", G12 + JIT, {}),
                ("clang", G12, dict(cc="clang++")), ("clang11-gen3", G14 + GEN(3), dict(cc="clang++", std="c++11")), ("std11", G12, dict(std="c++11")), ("std14-O2", G14, dict(std="gnu++14", hflags="-O2")),
                ("O3", G12, dict(hflags="-O3")), ("clang-O2-tag", G14 + TAG, dict(cc="clang++", hflags="-O2")), ("asan", G14, dict(asan=True))):
    k.setdefault("cc", "g++")
    add("cxx-" + n, f, engine="cxx", **k)
    CXX_CFGS += " cxx-" + n

# threads under the deterministic scheduler
NOBAR = " -include @H@/nobarriers.h"
THR = {}
for n, f, k in (("base", G14, {}), ("base12", G12, {}), ("base12c6", G12C6, {}), ("gen1", G12 + GEN(1), {}), ("gen3", G12C6 + GEN(3), {}), ("gen5", G12 + GEN(5), {}),
                ("pms", G12 + PMS, {}), ("pms14", G14 + PMS, {}), ("noctor", G12 + NOCTOR, {}), ("noctor-pms", G12 + NOCTOR + PMS, {}), ("fin", G12 + FIN, {}), ("fin-pms", G12 + FIN + PMS, {}),
                ("jit", G12 + JIT, {}), ("jit-pms", G12 + JIT + PMS, {}), ("tag", G12 + TAG, {}), ("ext", G12 + EXT, {}), ("ext-jit", G12 + EXT + JIT, {}), ("debug", G12 + DBG, {}), ("debug-pms", G12 + DBG + PMS, {}),
                ("nobar", G12 + NOBAR, {}), ("nobar-pms", G12 + NOBAR + PMS, {}), ("nobar-cxx", G14 + NOBAR, dict(cc="g++")), ("nobar-clang", G14 + NOBAR, dict(cc="clang")), ("nobar-O2", G14 + NOBAR + " -O2", {}),
                ("cxx", G12, dict(cc="g++")), ("clang", G12, dict(cc="clang")), ("malloc", G12 + MALLOC, {}), ("O2", G12 + " -O2", dict(hflags="-O2")),
                ("win", G12 + WIN, {}), ("win-gen3", G12C6 + GEN(3) + WIN, {}), ("win-pms", G12 + PMS + WIN, {}), ("win-fin", G12 + FIN + WIN, {}),
                ("mac", G12 + MAC, {}), ("mac-gen3", G12C6 + GEN(3) + MAC, {}), ("mac-pms", G12 + PMS + MAC, {}), ("mac-fin", G12 + FIN + MAC, {}),
                ("all-ext", G12 + FIN + EXT + JIT + DBG, {}), ("all-tag-pms", G12 + FIN + TAG + JIT + PMS, {})):
    add("thr-" + n, f, engine="thr", **k)

# ---- C03: the project's own test matrix, and more
TINY = " -DGGGGC_DEBUG_TINY_HEAP"
COLL = " -DGGGGC_DEBUG_MEMORY_CORRUPTION -DGGGGC_DEBUG_REPORT_COLLECTIONS"
C03 = []
def m03(name, flags, **k):
    add("m-" + name, flags, **k)
    C03.append("m-" + name)

m03("default", "")
for fn, ff in (("", ""), ("fin", FIN), ("tag", TAG), ("ext", EXT), ("jit", JIT)):
    for cn, cfl, cc in (("c", "", "gcc"), ("debug", DBG, "gcc"), ("cxx", "", "g++"), ("cxx-nognuc", NOGNU, "g++"), ("gen1", GEN(1), "gcc"), ("gen5", GEN(5), "gcc"),
                        ("pms", PMS, "gcc"), ("malloc", MALLOC, "gcc"), ("sbrk", SBRK, "gcc")):
        m03("%s-%s" % (cn, fn) if fn else cn, G12 + cfl + ff, cc=cc)
m03("tiny", TINY)
m03("tiny-debug", TINY + DBG)
for i, (a, b) in enumerate(((12, 6), (13, 9), (14, 12), (15, 7), (16, 9), (16, 16), (17, 10), (18, 12), (20, 8), (21, 12))):
    m03("p%dc%d" % (a, b), "-DGGGGC_POOL_SIZE=%d -DGGGGC_CARD_SIZE=%d" % (a, b) + (GEN(3) if i % 3 == 1 else PMS if i % 3 == 2 else ""))
m03("nothreads", G12 + NT)
m03("pms-nothreads", G12 + NT + PMS)
m03("noctor", G12 + NOCTOR)
m03("noclean", G12 + NOCLEAN)
m03("nognu", G14 + NOGNU)
m03("pms-nognu", G12 + NOGNU + PMS)
m03("pms-cxx", G12 + PMS, cc="g++")
m03("pms-malloc", G12 + PMS + MALLOC)
m03("pms-sbrk", G12 + PMS + SBRK)
m03("malloc-nothreads-gen3", G12 + MALLOC + NT + GEN(3))
m03("sbrk-gen3-debug", G12 + SBRK + GEN(3) + DBG)
m03("mmap", G12 + MMAP)
m03("clang", G12, cc="clang")
m03("clangxx", G13 + GEN(3), cc="clang++")
m03("O0", G12 + " -O0")
m03("O3", G12 + " -O3", hflags="-O3")
m03("O3-pms", G12 + PMS + " -O3", hflags="-O3")
m03("fin-ext-jit", G12 + FIN + EXT + JIT)
m03("fin-tag-jit", G12 + FIN + TAG + JIT)
m03("fin-ext-jit-debug", G12 + FIN + EXT + JIT + DBG)
m03("fin-tag-jit-cxx-gen3", G12 + FIN + TAG + JIT + GEN(3), cc="g++")
m03("fin-ext-jit-pms", G12 + FIN + EXT + JIT + PMS)
m03("fin-tag-jit-pms-debug", G12 + FIN + TAG + JIT + PMS + DBG)
m03("fin-ext-gen5", G12 + FIN + EXT + GEN(5))
m03("gen8", G12 + GEN(8))
m03("report", G12 + COLL)
m03("nogcc", G12, cc="clang -fgnuc-version=0")
m03("nogcc-pms", G12 + FIN + PMS, cc="clang -fgnuc-version=0")
m03("valloc", G12 + NT + WIN)
m03("mac", G12 + NT + MAC)

def random_configs(seed, n):
    """combinations of the documented switches, chosen by the run's seed"""
    import random
    r = random.Random(seed * 7919 + 5)
    res = []
    for i in range(n):
        pool = r.choice((12, 12, 13, 14, 15, 16, 18, 20))
        f = "-DGGGGC_POOL_SIZE=%d -DGGGGC_CARD_SIZE=%d" % (pool, r.randint(6, min(pool, 13)))
        if r.random() < .5: f += GEN(r.randint(1, 6))
        if r.random() < .3: f += PMS
        f += r.choice(("", "", "", MALLOC, SBRK, MMAP))
        f += r.choice(("", "", "", TAG, EXT))
        for x, q in ((FIN, .4), (JIT, .4), (DBG, .3), (NT, .2), (COLL if DBG not in f else "", .1)):
            if x and x not in f and r.random() < q and not (x == NT and "NO_THREADS" in f): f += x
        if f.count("DEBUG_MEMORY_CORRUPTION") > 1: f = f.replace(DBG, "", 1)
        f += r.choice(("", "", "", NOGNU, NOCLEAN, NOCTOR))
        f += r.choice(("", "", " -O0", " -O2", " -O3"))
        name = "m-random%d" % i
        add(name, f, cc=r.choice(("gcc", "gcc", "g++", "clang", "clang++")), hflags=r.choice(("", "", "-O2", "-O3")))
        res.append(name)
    return res


def compile_matrix(seed, rounds):
    """every combination of the feature switches, collectors, languages and debug
    checks, each with one more switch drawn by the run's seed: these are only built"""
    import random
    r = random.Random(seed * 104729 + 11)
    res = []
    for k in range(rounds):
        for fin in ("", FIN):
            for tag in ("", TAG, EXT):
                for jit in ("", JIT):
                    for pms in ("", PMS):
                        for cc in (("gcc", "clang"), ("g++", "clang++")):
                            for dbg in ("", DBG):
                                more = r.choice(("", "", NT, MALLOC, SBRK, MMAP, NOGNU, NOCLEAN, NOCTOR, GEN(1), GEN(3), TINY, NOBAR,
                                                 " -DGGGGC_DEBUG_REPORT_COLLECTIONS", " -DGGGGC_POOL_SIZE=16 -DGGGGC_CARD_SIZE=10"))
                                name = "c-%d" % len(res)
                                add(name, fin + tag + jit + pms + dbg + more + " -O0", cc=r.choice(cc), hflags="-O0")
                                res.append(name)
    return res


RULE_HEAP = ("Cases are sequences of 5-260 weighted heap operations with random arguments (the profile fixes the weights), "
             "interpreted side by side against the library's public macros and a plain graph model; every sub-sequence is a valid case. ")

T = .12 # a multi-threaded case costs several single-threaded ones
P = {}
def prop(pid, jobs, cases, rule, technique="stateful model-based property testing (generated operation histories against a graph model, delta-debugged)", **k):
    P[pid] = dict(jobs=jobs, cases=cases, rule=rule, technique=technique, **k)

def J(profile, names, w=1):
    return [(n, profile, w) for n in names.split()]

def TJ(profile, names, w=1):
    return [("thr-" + n, profile, w) for n in names.split()]

BASE = "non-trivial: at least 20 objects were compared with the model after at least one moved or had its former address reused"

prop("C01", J("graph", "base base12 base12c6 base13 base16 gen1 gen1-12 gen3 gen3-12 gen5 nothreads nognu cxx clang debug fin tag ext jit asan") + J("graph", "stock default-gen3", .3) + J("graph", "onecard") + J("arrays", "base12 gen3-12 bigcard") + J("layout", "base12 gen3-12") + TJ("mt", "base12 gen3 gen5 tag", T),
     96000, RULE_HEAP + "graph: everything evenly; " + BASE + ". Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C02", J("barrier", "base base12 base12c6 base13 base16 gen3 gen3-12 gen5 cxx tag ext fin debug nognu", 2) + J("user", "base12 gen3-12 gen5") + J("arrays", "base12 gen3-12 bigcard bigcard-gen3 default-gen3") + J("barrier", "default-gen3") + J("barrier", "onecard") + J("barrier", "bigcard bigcard-gen3") + J("graph", "gen3-12") + TJ("mt", "base12c6 gen3 gen5", T) + TJ("life", "gen3", T),
     96000, RULE_HEAP + "barrier: old holders of every kind are given references to young objects whose roots are dropped at once, with churn forcing minor and promoting collections between; non-trivial: additionally more than three stores. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C04", J("graph", "pms pms12 pms16 pms-cxx pms-nognu pms-nothreads pms-clang debug-pms fin-pms12 tag-pms ext-pms jit-pms pms-asan") + J("fresh", "pms pms12 debug-pms pms-asan") + J("layout", "pms pms12 ext-pms") + J("arrays", "pms12 pms16") + J("user", "pms12") + J("barrier", "pms12") + J("graph", "default-pms", .5) + J("plateau", "pms12", .1) + TJ("mt", "pms pms14 debug-pms", T) + TJ("life", "pms", T),
     88000, RULE_HEAP + "The model also records each object's address at allocation: any later change of a live object's address and any overlap of live objects is a failure; " + BASE + ". Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C05", J("plateau", "base base12 base12c6 gen1-12 gen3-12 gen5-14 pms pms12 fin12 tag12 ext12 debug-gen4 malloc12 cxx nognu") + J("finplateau", "fin12 fin-gen3 fin-pms12") + TJ("threadloop", "base12 gen1 gen3 pms noctor fin malloc", .3),
     18000, RULE_HEAP + "A generated history is followed by a garbage phase: one of nine shapes of garbage (sliding windows, cycles, long chains dropped late, arrays of all sizes, run-time descriptors, old holder with young contents, address-like data, finalizable, mixtures) with live data bounded by at most 16 roots. The areas granted by the system are noted at half-time; the second half must not grow the heap by more than a sixteenth of what its garbage would fill. When all of it has been collected, no more small blocks may be in use than before, but for one in 2000 rounds and 100. Non-trivial: the phase ran. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C06", J("fresh", "base base12 base12c6 base16 gen1 gen1-12 gen3-12 gen5 pms pms12 pms16 debug debug-pms ext ext-pms tag fin malloc12 nognu cxx mmap12") + TJ("mt", "base12 pms gen3", T),
     88000, RULE_HEAP + "fresh: every object, array and descriptor is scanned word by word when handed out (areas arrive dirty), checked for alignment and, against every live object, for overlap; " + BASE + ". Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C07", J("layout", "base base12 base12c6 gen1 gen3-12 gen5 pms pms12 ext ext12 ext-gen3 tag debug cxx nognu fin O3") + J("layout", "stock default-pms default-ext", .3),
     88000, RULE_HEAP + "layout: static types with pointers at many offsets (up to word 62), run-time descriptors of up to 1500 (in some builds also around 65500) words with random pointer layouts, and data words that hold addresses of live and dead objects; all data words must stay bit-identical; non-trivial: additionally an address-like data word was stored.")
prop("C08", J("arrays", "base base20 stock default-gen3 default-pms default-ext base12 base12c6 base13 base16 gen1-12 gen3-12 gen5 pms pms12 ext ext-gen3 ext-pms tag debug cxx fin nognu"),
     80000, RULE_HEAP + "arrays: pointer arrays and data arrays of eleven element types, of lengths 0 up to what fits an area (two million words with the default area size), every element written and compared; " + BASE + ".")
prop("C09", J("roots", "base base12 pushgen pushgen-nognu nognu noclean cxx cxx-nognu clang clangxx gen1 gen3-12 pms pms-nognu debug-nognu fin-nognu noctor nothreads") + J("graph", "nognu cxx-nognu") + TJ("mt", "base12 noctor", T) + TJ("block", "pms14 gen3", T),
     88000, RULE_HEAP + "roots: frames of every push arity (automatic, manual, counted), nested up to 40 deep, left at their end, by early return or by popping; globals registered from any depth, before or within other scopes; with the header of push forms as it is and as its generator writes it anew; non-trivial: additionally at least two frames were entered. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C11", J("fin", "fin fin12 fin-gen1 fin-gen3 fin-gen5 fin-tag fin-ext fin-jit fin-pms fin-pms12 fin-cxx fin-nognu fin-nothreads fin-malloc debug-fin fin-asan") + TJ("mt", "fin fin-pms", T) + TJ("life", "fin all-ext", T) + TJ("block", "fin", T),
     88000, RULE_HEAP + "fin: finalizers of five kinds (plain, allocating, collecting, resurrecting, re-registering) on objects of any age; the finalizer itself checks that its registration is pending, that the model holds the object unreachable, and that everything reachable from the object is intact; non-trivial: a registration was made and a collection happened after. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C12", J("finc", "fin fin12 fin-gen1 fin-gen3 fin-gen5 fin-tag fin-ext fin-jit fin-pms fin-pms12 fin-cxx fin-nognu fin-nothreads fin-malloc debug-fin") + J("finplateau", "fin12 fin-gen3 fin-pms12", .05) + TJ("mt", "fin fin-pms", T) + TJ("life", "fin fin-pms all-ext", T) + TJ("block", "fin", T),
     80000, RULE_HEAP + "finc: as fin, with completeness checks at random points and at the end: every registration whose object the model says is unreachable must have fired once full collections run no further finalizer; non-trivial: a finalizer ran. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C13", J("tag", "tag tag12 tag-gen1 tag-gen3 tag-pms tag-jit tag-jit-pms tag-jit-gen3 tag-cxx tag-fin debug-tag all-tag all-tag-pms") + TJ("mt", "tag all-tag-pms", T) + TJ("block", "tag all-tag-pms", T),
     88000, RULE_HEAP + "tag: unaligned values, half of them tagged heap addresses, come and go in pointer members, pointer arrays, roots and JIT stack words; non-trivial: additionally a tagged word was stored. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C14", J("ext", "ext ext12 ext-gen1 ext-gen3 ext-pms ext-jit ext-jit-pms ext-jit-gen3 ext-cxx ext-nognu ext-fin debug-ext all-ext all-pms") + J("arrays", "ext12 ext-pms") + TJ("mt", "ext ext-jit", T) + TJ("block", "ext-jit", T) + TJ("life", "ext", T),
     88000, RULE_HEAP + "ext: descriptors with random tag strings (0..251, both parities) next to pointer-layout descriptors; odd-tagged words hold addresses of objects; the tags are read back through every object at every verification; non-trivial: additionally a run-time descriptor was made. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C15", J("jit", "jit jit12 jit-gen1 jit-gen3 jit-pms jit-cxx jit-fin tag-jit tag-jit-pms tag-jit-gen3 ext-jit ext-jit-pms ext-jit-gen3 debug-jit all-ext all-tag all-pms") + TJ("mt", "jit ext-jit jit-pms all-ext", T) + TJ("block", "jit ext-jit jit-pms all-tag-pms", T) + TJ("life", "jit", T),
     88000, RULE_HEAP + "jit: the JIT stack grows and shrinks with objects (and, with external tags, tag words of every group length and parity) while everything else goes on; non-trivial: additionally a JIT word was pushed. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C22", J("user", "base base12 gen1 gen3-12 gen5 pms pms12 tag ext ext-pms debug cxx nognu fin noctor") + TJ("mt", "base12 gen3 noctor", T) + TJ("life", "pms noctor", T),
     88000, RULE_HEAP + "user: user pointers of static, array and run-time descriptors are written through one object and read through others, descriptors lose every root but their objects; non-trivial: additionally a user pointer was stored. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.")
prop("C23", J("oom", "base base12 gen1 gen1-12 gen3-12 gen5 pms pms12 fin12 fin-pms12 ext12 tag12 malloc12 malloc-gen3 malloc-pms sbrk sbrk12 mmap12 mmap16 valloc12 debug debug-pms nognu") + TJ("toom", "base12 gen1 gen3 pms pms14 fin malloc debug", 2 * T),
     80000, RULE_HEAP + "oom: areas are refused by a link-level stand-in for the system allocator after a random budget, for random stretches of the history; an abort is accepted only while the live data is more than an eighth of one area (or before the heap was warmed up), everything else must go on correctly; operations that ask for nothing, and collections of programs without finalizers, may not abort at all once the heap is warm; in some cases the very first areas are refused; small requests the library makes for itself are refused now and then, and a third of the cases end with a request no area can hold (also by overflow of its size), both of which must end in an orderly abort or be served; non-trivial: an area or a small request was refused or an oversize request made, and objects moved or were reused. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.",
     technique="stateful model-based property testing with injected allocation refusals")
prop("C24", J("pools", "base base12 malloc malloc12 malloc-pms malloc-gen3 sbrk sbrk12 sbrk16 sbrk-pms mmap mmap12 mmap16 valloc valloc12 valloc-gen3 mac12 pms pms12 fin-malloc stock") + J("oom", "malloc12 sbrk12 mmap12", .5) + J("graph", "malloc12 sbrk12 mmap12", .5) + TJ("mt", "malloc", T) + TJ("life", "malloc", T),
     68000, RULE_HEAP + "pools: the program's own malloc blocks and break moves are interleaved with heap growth, filled with patterns and compared; spans of live objects are compared with them; areas are refused at random; non-trivial: the program owned a block and at least 20 objects were compared. Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.",
     technique="stateful model-based property testing with a link-level stand-in for the system allocator")
prop("C25", J("debug", "debug debug-report debug-gen1 debug-gen4 debug-tag debug-ext debug-fin debug-jit debug-pms debug-pms-fin debug-cxx debug-nognu all-ext all-tag all-pms") + TJ("mt", "debug debug-pms", T) + TJ("life", "debug", T),
     80000, RULE_HEAP + "debug: half of the cases end by overwriting the check word of a random reachable object and must then be stopped with a corruption report by the next full collection; the others must not be reported; " + BASE + ". Some of the cases are multi-threaded programs, generated and judged as for C16 to C18 (and C23 with few areas); they count as non-trivial by the rules stated there.",
     technique="stateful model-based property testing with injected corruption")

P["C03"] = dict(jobs=[(n, "digest", 1) for n in C03], cases=36000, special="c03", thorough_x=30, random=16,
    technique="differential property-based testing (same generated program under every build configuration, digests compared)",
    rule="One generated history of 5-260 heap operations is run under every configuration; each run compares the heap with the model and folds what a program can print (shape, data, lengths) into a digest, which must agree across configurations. An evaluation is one (configuration, history) pair; distinct ones are counted; non-trivial: at least 20 objects were compared after at least one moved or had its former address reused. The configurations are a fixed list of 84 (the project's own test matrix and more) plus random combinations of the documented switches. Every combination of features, collectors, languages and debug checks, each with one more random switch, is built as well. A configuration that does not build is a failure.")

prop("C10", J("cxx", CXX_CFGS), 68000, "Programs of 5-240 operations written with smart pointers, array wrappers and member syntax (assignments from smart pointers, references and the same member of other objects; macros in between), in scopes nested up to 25 deep of eight kinds (locals, arrays of smart pointers, by-value and const parameters, loops with break and continue, early returns, exceptions, mixed with the push macros). Non-trivial: 20 objects compared, more than three member or element stores and a nested scope.")
COLLR = "Any allocation made inside the library may churn or collect first, as the case decides (link-level stand-in for the allocation entry points). "
COLLT = "stateful model-based property testing (operation sequences against a reference model) with collections injected at allocations"
prop("C19", J("list", COLL_CFGS), 80000, "Sequences of 3-200 operations over five lists, generic and typed functions alike, with fresh, shared and NULL elements, at either end, on empty lists, after nodes held across other operations; after every fourth operation every list is compared with a sequence model (elements, identity, length, head, tail). " + COLLR + "Non-trivial: at least five element operations, one join and a list of three elements.", technique=COLLT)
prop("C20", J("map", COLL_CFGS), 44000, "Sequences of 3-200 puts, gets and clones over four maps, seven hash functions (good, identity, three buckets, constant, high bits only, coarser equality, wrapping) and five comparisons, up to 70000 keys, NULL values included; every key of the key space is looked up in every map at the end, before and after a full collection. " + COLLR + "Non-trivial: more than four puts and a successful get.", technique=COLLT)
prop("C21", J("unit", COLL_CFGS), 52000, "Arrays of boxes of ten element types (1 to 12 bytes, integral, floating, structures), 0 to 6000 and around 65536 long, with boxes shared between elements, unboxed under churn and collections; boxes, source array and result are compared with the values stored. " + COLLR + "Non-trivial: more than ten elements unboxed.", technique=COLLT)

THRR = ("Each case is a multi-threaded program planned from 10-220 generated operations so that it cannot deadlock by itself, and a schedule: threads are real but run one at a time, every pthread and semaphore call is a stand-in, "
        "and the next thread is chosen (at random, in long stretches, or by priorities with change points, from the case's seed) at every such call and at memory accesses of the library. One graph model covers all threads; whenever a thread runs, every thread's roots, JIT stacks and the shared objects can be compared with it. ")
THRT = "model-based testing of generated multi-threaded programs under a generated deterministic schedule (controlled scheduling at library memory accesses and synchronisation calls)"
prop("C16", TJ("mt", "base base12 base12c6 gen1 gen3 gen5 pms pms14 noctor fin fin-pms jit jit-pms tag ext ext-jit debug debug-pms nobar cxx clang malloc O2 all-ext all-tag-pms win win-pms mac mac-gen3"),
     18000, THRR + "mt: allocation, linking, publishing, churn, explicit collections, yields, and windows in which a thread is preempted outside of any safe point and nothing of it may move. Non-trivial: a second thread ran, at least 20 switches, 20 objects compared with objects moved or addresses reused, and objects of other threads used.", technique=THRT, chunk=25)
prop("C17", TJ("life", "base base12 gen1 gen3 gen5 pms pms14 noctor noctor-pms fin fin-pms jit ext debug nobar cxx malloc all-ext win win-fin mac mac-fin") + TJ("threadloop", "base12 gen1 gen3 pms noctor fin malloc win mac", .12),
     18000, THRR + "life: threads are started (some refused by the system), handed objects, use types nobody used before, publish objects, finish, and are joined; threadloop: 36 rounds of threads that come and go, with the areas granted, the small blocks and the system objects in use in the second half bounded. Non-trivial: two joins, objects of finished threads compared, objects moved or addresses reused.", technique=THRT, chunk=25)
prop("C18", TJ("block", "base base12 gen1 gen3 gen5 pms pms14 fin jit jit-pms tag ext-jit debug nobar nobar-pms nobar-cxx cxx malloc O2 all-ext all-tag-pms win win-gen3 win-pms mac mac-pms"),
     18000, THRR + "block: semaphores, mutexes, barriers and joins between collections. Mutual exclusion, the count of semaphores, rendezvous and join-after-finish are checked by the program itself. Non-trivial: more than three blocking operations, a collection finished during one, objects moved or addresses reused.", technique=THRT, chunk=25)
prop("C26", TJ("barrier", "nobar nobar-pms nobar-cxx nobar-clang nobar-O2 win mac"),
     40000, "The library is built as for a platform without barriers. One to six plain threads pass through four barriers over random subsets of the threads for a random number of rounds, under schedules generated as for C16, with barriers destroyed and set up again between phases; arrivals are counted before, and checked after, each wait. Non-trivial: more than four passages and four switches.", technique=THRT)

ASSUME = ["GCC/Clang on x86-64 Linux; no 16- or 32-bit targets", "the harness's graph model and link-level allocator stand-in are right",
          "programs follow the documented rules (roots pushed, writes through the macros, no variable pushed twice at once)"]
