"""property -> what decides it"""
import core
import lints
from witness import functions, lists, misc


def wit(gen, **kw):
    def step(ctx):
        units = [(name, i, text, n) for name, o in gen(ctx.tier, ctx.seed) for i, (text, n) in enumerate(o.parts())]
        core.run_witnesses(ctx, [(name if i == 0 else "%s-%d" % (name, i), text, n) for name, i, text, n in units], **kw)
    return step


def rejections(ctx):
    core.run_rejections(ctx, "p07", misc.p07_cases(ctx.tier))


def ir(file, variants=("debug", "release"), thorough_variants=None, quick=None, thorough=None, **kw):
    """abstract interpretation of every p<nn>* function of a harness, or of the
    entries named for the tier"""
    def step(ctx):
        v = variants if ctx.tier == "quick" or thorough_variants is None else thorough_variants
        core.ir_jobs(ctx, [dict(file=file, variants=v, entries=quick if ctx.tier == "quick" else (thorough or quick), **kw)])
    return step


def p25(prop):
    quick = ["p25_1", "p25_2", "p25_3", "p25_3s", "p25_4", "p25_4a", "p25_4b", "p25_5", "p25_255", "p25_256", "p25_257",
             "p25_wide_blocks", "p25_wide_larger", "p25_wide_excess", "p25_wide_index", "p25_wide_index16"]
    if prop != 27:  # nothing can abort there
        quick.append("p25_constructors")
    cost = {"p25_5a": 146, "p25_5": 43, "p25_4a": 40, "p25_256": 37, "p25_257": 35, "p25_255": 20, "p25_wide_blocks": 15, "p25_wide_excess": 12}
    return ir("p25.cpp", variants=("debug", "release"), quick=quick, thorough=quick + ["p25_5a"],
              flags=["-DPROP=%d" % prop], tag="-P%d" % prop, cost=cost, time=500)


P24Q = ["p24_history_1", "p24_history_2", "p24_history_7", "p24_history_12", "p24_history_40", "p24_constructors", "p24_wide"]
P24T = P24Q + ["p24_history_16", "p24_history_24", "p24_history_64"]



def p35(ctx):
    quick = ctx.tier == "quick"
    core.ir_jobs(ctx, [
        dict(file="p35.cpp", variants=("debug", "release"), irai=["--memory-only"], min=4),
        dict(file="p24.cpp", variants=("debug", "release"), entries=["p24_history_7", "p24_history_12"] + ([] if quick else ["p24_history_2", "p24_history_24", "p24_history_40"]),
             flags=["-DPROP=35"], tag="-P35", irai=["--memory-only"], time=500),
        dict(file="p25.cpp", variants=("debug", "release"), entries=["p25_1", "p25_2", "p25_3", "p25_4b"] + ([] if quick else ["p25_3s", "p25_4", "p25_4a", "p25_5", "p25_255"]),
             flags=["-DPROP=35"], tag="-P35", irai=["--memory-only"], time=500)])


class Long32:
    """the models with a long of 32 bits"""
    def __enter__(self):
        self.was = dict(lists.TYPES), misc.INTS
        lists.TYPES["long"] = (4, 0, 0)
        misc.INTS = tuple((t, 32 if t in ("long", "unsigned long") else n, s) for t, n, s in misc.INTS)

    def __exit__(self, *a):
        lists.TYPES.update(self.was[0])
        misc.INTS = self.was[1]


def cross_witnesses(ctx, platform, gens, flags=()):
    units = []
    for gen in gens:
        for name, o in gen(ctx.tier, ctx.seed):
            if name.endswith("-long"):
                continue
            for i, (text, n) in enumerate(o.parts()):
                units.append(("%s-%s-%d" % (platform, name, i), text, n))
    core.run_witnesses(ctx, units, compilers=("clang",), flags=core.CROSS[platform] + list(flags), cross=True)


def p32(ctx):
    cross_witnesses(ctx, "s390x", [lists.p01, lists.p02, lists.p03, lists.p04, functions.p05, functions.p06, misc.p08, misc.p09, misc.p16, misc.p19, misc.p28, misc.p31, misc.p33, misc.p36],
                    ["-fsigned-char"])  # whether plain char is signed is the platform's own
    with Long32():
        cross_witnesses(ctx, "win", [lists.p01, lists.p02, lists.p03, functions.p05, functions.p06, misc.p16, misc.p19, misc.p28, misc.p31, misc.p33, misc.p36])
    jobs = []
    for f, n in (("p10", 5), ("p11", 12), ("p12", 12), ("p13", 20), ("p14", 11), ("p15", 7), ("p16", 4), ("p17", 6), ("p19", 3), ("p20", 3), ("p21", 1), ("p21b", 1), ("p23", 4), ("p28", 6), ("p29", 3), ("p31", 2), ("p36", 2)):
        jobs.append(dict(file=f + ".cpp", min=n, variants=("s390x", "win"), flags=["-fno-sanitize=shift-base"], time=150))
    jobs.append(dict(file="p10.cpp", min=5, variants=("win-release",), time=100))
    jobs.append(dict(file="p10.cpp", min=5, variants=("win",), flags=["-DPORTABLE"], tag="-portable", time=100))
    jobs.append(dict(file="p17.cpp", min=6, variants=("annexk",), time=100))
    jobs.append(dict(file="p18.cpp", variants=("annexk", "s390x"), base=core.OPTFLAGS, flags=["-O2"], min=9, time=150))
    jobs.append(dict(file="p24.cpp", variants=("s390x", "win"), entries=["p24_history_7"], flags=["-DPROP=24"], time=300))
    jobs.append(dict(file="p25.cpp", variants=("s390x", "win"), entries=["p25_2", "p25_3"], flags=["-DPROP=25"], time=300))
    core.ir_jobs(ctx, jobs)


LEVEL = "other"
WIT = ("Type-level witnesses: static_asserts about every public trait of the property, generated from an independent model of the property and "
       "instantiated against the current headers by the type checkers of clang 18 and gcc 13 (nothing is run). A witness that no longer type "
       "checks is the violation; the number of witnesses that held is in witnesses_held. ")
AI = ("Abstract interpretation of the LLVM IR of the current headers (clang 18, -O0): the harness calls the public operation with abstract "
      "operands (intervals x known bits, pointers as region+offset, memory as abstract bytes) and states the property as abstract checks; a cell "
      "whose check the domain can not decide is split until every cell is decided or reported undecided. No machine code is run and no solver is "
      "used. checks_evaluated counts abstract checks decided; functions_analysed lists the functions of the library entered. Histories "
      "are followed to a fixpoint: the abstract states reached (abstract_states) are compared and each is continued once. ")
LINT = "Queries over the LLVM IR that clang 18 makes of the current headers; every construct inspected is counted in units. "
COUNTERS = ("A query over the loops of the IR of an instantiation of every operation reports each loop whose counter is narrower than "
            "the loop-invariant bound it is compared with. ")
ASSUME_AI = ["clang's IR of the headers is what the compiler is given (x86-64 Linux, LP64, C++17)",
             "the transfer functions of tools/irai*.{cpp,inc} over-approximate LLVM's semantics"]
ASSUME_WIT = ["the type checkers of clang 18 and gcc 13 implement C++17", "the model in witness/*.py states the property"]


def W(*steps, extra=""):
    return dict(level=LEVEL, explanation=WIT + extra, assumptions=ASSUME_WIT, steps=list(steps))


def A(*steps, extra=""):
    return dict(level=LEVEL, explanation=AI + extra, assumptions=ASSUME_AI, steps=list(steps))


def AW(*steps, extra=""):
    return dict(level=LEVEL, explanation=AI + WIT + extra, assumptions=ASSUME_AI + ASSUME_WIT, steps=list(steps))


REGISTRY = {
    "P01": W(wit(lists.p01)),
    "P02": W(wit(lists.p02)),
    "P03": W(wit(lists.p03)),
    "P04": W(wit(lists.p04)),
    "P05": W(wit(functions.p05)),
    "P06": W(wit(functions.p06)),
    "P07": dict(level=LEVEL, explanation="Compile-fail witnesses: for each documented precondition a translation unit that violates it and a twin that "
                "differs in that construct only. The violating one must be rejected and the twin accepted by clang 18 and gcc 13.",
                assumptions=ASSUME_WIT[:1], steps=[rejections]),
    "P08": W(wit(misc.p08)),
    "P09": W(wit(misc.p09)),
    "P10": A(ir("p10.cpp", min=5), ir("p10.cpp", min=5, variants=("debug",), flags=["-DPORTABLE"], tag="-portable", internal=True)),
    "P11": A(ir("p11.cpp", min=12)),
    "P12": A(ir("p12.cpp", min=12)),
    "P13": A(ir("p13.cpp", min=20, variants=("debug", "release", "consteval"))),
    "P14": A(ir("p14.cpp", min=11, flags=["-fno-sanitize=shift-base"])),
    "P15": A(ir("p15.cpp", min=8), lints.counters, extra=COUNTERS),
    "P16": AW(wit(misc.p16), ir("p16.cpp", min=4)),
    "P17": A(ir("p17.cpp", min=13, skip=["p17_run_wide_memmove"], variants=("debug", "release", "consteval")), ir("p17.cpp", quick=["p17_run_wide_memmove"], min=1, tag="-run"), lints.counters, extra=COUNTERS),
    "P18": A(lints.p18),
    "P19": AW(wit(misc.p19), ir("p19.cpp", min=3)),
    "P20": A(ir("p20.cpp", min=3), ir("p20.cpp", min=3, flags=["-DCUSTOM"], tag="-custom", internal=True)),
    "P21": A(ir("p21.cpp", min=1), ir("p21b.cpp", min=1)),
    "P22": dict(level=LEVEL, explanation=LINT, assumptions=ASSUME_AI[:1], steps=[lints.p22]),
    "P23": A(ir("p23.cpp", min=4)),
    "P24": A(ir("p24.cpp", variants=("debug", "release"), quick=P24Q, thorough=P24T, time=500)),
    "P25": A(p25(25)),
    "P26": A(p25(26)),
    "P27": A(p25(27)),
    "P28": AW(wit(misc.p28), ir("p28.cpp", min=6)),
    "P29": dict(level=LEVEL, explanation=AI + LINT, assumptions=ASSUME_AI, steps=[ir("p29.cpp", min=3), lints.p29]),
    "P31": AW(wit(misc.p31), ir("p31.cpp", min=2)),
    "P32": AW(p32, extra="The code is compiled for the other platforms with clang: s390x-linux-gnu (big-endian) and x86_64-w64-windows-gnu with the macros and keywords "
              "of the Microsoft compiler (LLP64; its branches of clz, ctz and the memory functions). "),
    "P33": W(wit(misc.p33), wit(misc.p33r, flags=["-DNDEBUG"])),
    "P34": dict(level=LEVEL, explanation=LINT + "Pointers to every object of static storage duration that the library defines, and to *this in const member functions, are "
                "followed through casts, calls and returns; stores outside initialization are violations.", assumptions=ASSUME_AI[:1], steps=[lints.p34]),
    "P36": AW(wit(misc.p36), ir("p36.cpp", min=2)),
    "P35": A(p35, extra="Only accesses to memory are judged: every load, store and block operation of the code entered is resolved to the object it reaches. "),
    "P37": A(ir("p37.cpp", min=1), ir("p37.cpp", min=1, tag="-then-other", link=["p37.cpp", "p37_other.cpp"]),
             ir("p37.cpp", min=1, tag="-after-other", link=["p37_other.cpp", "p37.cpp"]),
             extra="The program is followed from its first dynamic initializer (llvm.global_ctors of the linked units, in both link orders) over main to its last "
                   "destructor (what was registered with __cxa_atexit, in reverse). "),
    "P30": dict(level=LEVEL, explanation="Type checking of generated translation units with clang 18 and gcc 13, and " + LINT, assumptions=ASSUME_AI[:1], steps=[lints.p30]),
}
