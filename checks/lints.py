"""Queries over IR and generated translation units: P18, P22, P29, P30."""
import itertools
import json
import os
import random
import re

import core

IRLINT = core.VERIF + "/build/irlint"


def tool():
    if not os.path.exists(IRLINT):
        r = core.sh(["sh", core.VERIF + "/tools/build_irai.sh"], timeout=900)
        if r.returncode:
            raise core.Broken("irlint does not build: " + r.stderr[:500])


def lint(*args):
    tool()
    r = core.sh([IRLINT, *args])
    if r.returncode:
        raise core.Broken("irlint %s: %s" % (args[0], r.stderr[:300]))
    return json.loads(r.stdout)


def emit(ctx, name, text, flags):
    src = os.path.join(ctx.dir, name + ".cpp")
    bc = os.path.join(ctx.dir, name + ".bc")
    with open(src, "w") as f:
        f.write(text)
    r = core.sh(["clang++", "-std=c++17", "-w", "-g", "-fno-discard-value-names", "-I" + core.INC, "-I" + core.STUB, *flags, "-emit-llvm", "-c", src, "-o", bc])
    return bc, r


def need(ctx, name, r, text, flags=()):
    """report a translation unit that does not compile; True when it did"""
    if r.returncode == 0:
        return True
    ok, err = core.headers_compile(ctx, core.includes_of(text), [f for f in flags if f.startswith("-D")])
    if not ok:
        ctx.errors.append("%s: the headers do not compile: %s" % (name, core.first_error(err)))
    else:
        ctx.violation("compile:" + name, "%s: valid use no longer compiles: %s" % (name, core.first_error(r.stderr)), log=r.stderr[:3000])
    return False


# ---------------------------------------------------------------------- P18
def p18(ctx):
    v = ["O1", "O2"] if ctx.tier == "quick" else ["O1", "O2", "O3", "Os"]
    core.ir_jobs(ctx, [dict(file="p18.cpp", variants=v, base=core.OPTFLAGS, min=9),
                       dict(file="p18.cpp", variants=["O2"], base=core.OPTFLAGS, flags=["-DNDEBUG"], tag="-release", min=9)])


# ---------------------------------------------------------------------- P22
P22_TU = """#include <utils/memory/memory.h>
using namespace utils::memory;
extern "C" memory_resource* p22_get() { return get_default_resource(); }
extern "C" memory_resource* p22_set(memory_resource* r) { return set_default_resource(r); }
extern "C" memory_resource* p22_system() { return system_memory_resource(); }
extern "C" memory_resource* p22_null() { return null_memory_resource(); }
"""


def p22(ctx):
    configs = [("O1", ["-O1"]), ("O2", ["-O2"]), ("O1-release", ["-O1", "-DNDEBUG"])]
    if ctx.tier == "thorough":
        configs += [("Os", ["-Os"]), ("O3", ["-O3"]), ("O2-release", ["-O2", "-DNDEBUG"]), ("O1-libc++abi", ["-O1", "-fno-exceptions"])]
    for cfg, flags in configs:
        bc, r = emit(ctx, "p22-" + cfg, P22_TU, flags)
        if not need(ctx, "p22-" + cfg, r, P22_TU, flags):
            return
        d = lint("atomics", bc, "p22_get", "p22_set")
        ctx.count("accesses_inspected", len(d["accesses"]))
        ctx.functions.update(d["functions"])
        ctx.jobs.append(dict(kind="accesses to the default resource", unit=cfg, accesses=d["accesses"], unknown=d["unknown"]))
        for x in d["violations"]:
            ctx.violation("atomic:" + re.sub(r" at .*", "", x), "%s: %s" % (cfg, x))
        for x in d["unknown"]:
            ctx.undecided.append("%s: %s" % (cfg, x))
        if not d["accesses"]:
            ctx.undecided.append(cfg + ": no access to the default resource found")
        elif not d["violations"] and not d["unknown"]:
            ctx.decided += 1
        # one object each in the whole program
        for w in lint("returned", bc, "p22_system", "p22_null"):
            ctx.jobs.append(dict(kind="object returned", unit=cfg + ":" + w["wrapper"], globals=w["globals"]))
            good = bool(w["globals"])
            for g in w["globals"]:
                ctx.count("objects_inspected")
                if g["linkage"] in ("internal", "private"):
                    good = False
                    ctx.violation("object:" + w["wrapper"], "%s: %s returns %s, which every translation unit has its own of" % (cfg, w["wrapper"], g["name"]))
                elif g["thread_local"]:
                    good = False
                    ctx.violation("object:" + w["wrapper"], "%s: %s returns %s, which every thread has its own of" % (cfg, w["wrapper"], g["name"]))
                elif g["name"] == "?":
                    good = False
            if not good and not ctx.violations:
                ctx.undecided.append("%s: what %s returns" % (cfg, w["wrapper"]))
            elif good:
                ctx.decided += 1
    # nobody else touches it
    shared(ctx, "p22")


# ------------------------------------------------------- P30 / shared state
def headers():
    """public headers, relative to include/utils"""
    out = []
    for d, _, fs in os.walk(core.INC + "/utils"):
        for f in fs:
            if f.endswith((".h", ".hpp")):
                out.append(os.path.relpath(os.path.join(d, f), core.INC + "/utils"))
    return sorted(out)


def shared(ctx, name):
    """no mutable state with internal linkage, no strong definitions"""
    inst = open(core.HARNESS + "/instances.cpp").read()
    text = "".join("#include <utils/%s>\n" % h for h in headers()) + inst
    root = os.path.realpath(core.REPO) + "/"
    for cfg, flags in (("debug", ["-O0"]), ("release", ["-O0", "-DNDEBUG"])):
        flags = flags + ["-femit-all-decls"]
        bc, r = emit(ctx, "%s-all-%s" % (name, cfg), text, flags)
        if not need(ctx, "%s-all-%s" % (name, cfg), r, text, flags):
            return
        d = lint("globals", bc)
        nv = nf = 0
        bad = False
        for g in d["variables"]:
            f = os.path.realpath(re.sub(r":\d+$", "", g["file"]) or "/")
            if not f.startswith(root):
                continue
            nv += 1
            if g["linkage"] in ("internal", "private") and not g["constant"] and not g["const_type"]:
                bad = True
                ctx.violation("state:" + g["name"], "%s: mutable %s (%s) has internal linkage: every translation unit has its own" % (cfg, g["name"], g["file"]))
            elif g["linkage"] in ("external", "common"):
                bad = True
                ctx.violation("definition:" + g["name"], "%s: %s (%s) is defined in every translation unit: the program does not link" % (cfg, g["name"], g["file"]))
        for g in d["functions"]:
            f = os.path.realpath(g["file"] or "/")
            if not f.startswith(root):
                continue
            nf += 1
            if g["linkage"] == "external":
                bad = True
                ctx.violation("definition:" + g["name"], "%s: function %s (%s) is defined in every translation unit: the program does not link" % (cfg, g["name"], g["file"]))
        ctx.count("variables_inspected", nv)
        ctx.count("functions_inspected", nf)
        ctx.jobs.append(dict(kind="linkage of every definition", unit="all headers, " + cfg, variables=nv, functions=nf))
        if nf == 0:
            ctx.errors.append("no definition of the library found in the IR")
        elif not bad:
            ctx.decided += 1


def p30(ctx):
    hs = headers()
    public = [h for h in hs if not h.startswith("details/")]
    if len(public) < 10:
        ctx.errors.append("only %d public headers found" % len(public))
        return
    rnd = random.Random(ctx.seed)
    work = []

    def tu(label, incs):
        return label, "".join("#include <utils/%s>\n" % h for h in incs)

    every = [("clang", []), ("clang", ["-DNDEBUG"]), ("gcc", []), ("gcc", ["-DNDEBUG"])]
    for h in public:
        for c in every:
            work.append((c, *tu("alone %s" % h, [h])))
            work.append((c, *tu("twice %s" % h, [h, h])))
    pairs = list(itertools.permutations(public, 2))
    for a, b in pairs:
        for c in (every[:1] if ctx.tier == "quick" else every):
            work.append((c, *tu("%s then %s" % (a, b), [a, b])))
    orders = [public, public[::-1]]
    for _ in range(6 if ctx.tier == "quick" else 60):
        o = public[:]
        rnd.shuffle(o)
        orders.append(o)
    for o in orders:
        for c in every:
            work.append((c, *tu("all: " + " ".join(o), o)))
    if ctx.tier == "thorough":
        for std in ("-std=c++20",):
            for h in public:
                for c in ("clang", "gcc"):
                    work.append(((c, [std]), *tu("alone %s" % h, [h])))

    def one(i):
        (c, flags), label, text = work[i]
        p = os.path.join(ctx.dir, "p30-%d.cpp" % i)
        with open(p, "w") as f:
            f.write(text)
        cmd = [x for x in core.COMPILERS[c]]
        return core.sh([*cmd, "-I" + core.INC, "-I" + core.STUB, *flags, p])

    alone_bad = set()
    res = ctx.map(one, range(len(work)))
    for ((c, flags), label, text), r in zip(work, res):
        ctx.count("translation_units_checked")
        if r.returncode == 124:
            ctx.undecided.append("%s %s: the compiler gave up" % (c, label))
        elif r.returncode:
            inc = core.includes_of(text)
            if flags == ["-std=c++20"]:
                ctx.undecided.append("C++20: " + label)
                continue
            if label.startswith("alone"):
                alone_bad.add(inc[0])
            elif any(h in alone_bad for h in inc):
                continue
            ctx.violation("include:" + (label if len(label) < 80 else "all"), "%s %s: %s does not compile: %s" % (c, " ".join(flags), label, core.first_error(r.stderr)), log=r.stderr[:2000])
        else:
            ctx.decided += 1
    ctx.jobs.append(dict(kind="include orders", unit="headers", headers=public, pairs=len(pairs), orders=len(orders)))
    if len(alone_bad) == len(public):
        ctx.violations.clear()
        ctx.errors.append("no header compiles")
        return
    if alone_bad:
        return
    shared(ctx, "p30")
    # two translation units with the same instantiations, one with assertions
    # on would be a different program: both the same configuration
    inst = open(core.HARNESS + "/instances.cpp").read()
    text = "".join("#include <utils/%s>\n" % h for h in hs)
    for cfg, flags in (("debug", []), ("release", ["-DNDEBUG"])):
        bcs = []
        for k in (1, 2):
            t = text + inst.replace("namespace instances", "namespace instances%d" % k)
            bc, r = emit(ctx, "p30-link%d-%s" % (k, cfg), t, ["-O0", "-femit-all-decls", *flags])
            if not need(ctx, "p30-link%d-%s" % (k, cfg), r, t, flags):
                return
            bcs.append(bc)
        out = os.path.join(ctx.dir, "linked-%s.bc" % cfg)
        r = core.sh(["llvm-link-18", *bcs, "-o", out])
        ctx.jobs.append(dict(kind="two translation units linked", unit=cfg, linked=r.returncode == 0))
        if r.returncode:
            ctx.violation("link:" + cfg, "two translation units do not link: " + core.first_error(r.stderr), log=r.stderr[:2000])
        else:
            ctx.decided += 1


# ---------------------------------------------------------------------- P29
def p29(ctx):
    text = open(core.HARNESS + "/instances.cpp").read()
    root = os.path.realpath(core.REPO) + "/"
    for cfg, flags in (("debug", []), ("release", ["-DNDEBUG"])):
        fl = ["-O0", "-Xclang", "-disable-O0-optnone", *flags]
        bc, r = emit(ctx, "p29-" + cfg, text, fl)
        if not need(ctx, "p29-" + cfg, r, text, flags):
            return
        r = core.sh(["opt-18", "-passes=sroa,instsimplify,simplifycfg", bc, "-o", bc + ".opt"])
        if r.returncode:
            raise core.Broken("opt: " + r.stderr[:200])
        rows = lint("formats", bc + ".opt")
        n = 0
        for x in rows:
            f = os.path.realpath(x.get("inFile") or "/")
            if not f.startswith(root):
                continue
            n += 1
            ctx.count("calls_inspected")
            ctx.count("conversions_inspected", x.get("conversions", 0))
            ctx.functions.add(x["where"].split(" ")[0])
            if x.get("unknown"):
                # the forwarding call inside abort_if itself has no constant
                if x["callee"] not in ("vfprintf", "fprintf", "printf", "vprintf"):
                    ctx.undecided.append("format of the call of %s at %s is no constant" % (x["callee"], x["where"]))
                continue
            if x.get("bad"):
                ctx.violation("format:%s" % x["where"], "%s: %s: format %r: %s" % (cfg, x["where"], x["format"][-120:], x["bad"]))
            else:
                ctx.decided += 1
        ctx.jobs.append(dict(kind="calls with a format", unit=cfg, calls=n))
        if n == 0:
            ctx.undecided.append("no call with a format found in the library's code")


# ----------------------------------------------------------------- P15, P17
COUNTER_TU = {
    "P15": """#include <utils/common.h>
#include <array>
bool counters(const void* p, unsigned char v, std::size_t n, const std::array<char, (1ull << 33)>& a) {
    bool r = utils::memvcmp(p, v, n);
    r = utils::is_equal(a, a, n) && r;
    return utils::is_equal(a, a) && r;
}
""",
    "P17": """#include <utils/memory/memory.h>
void counters(std::byte* a, const std::byte* b, std::size_t n) {
    using namespace utils::memory;
    secure_zero_memory(a, n);
    (void)secure_zero_memory_safe(a, n);
    (void)utils::memory::memmove(a, b, n);
    utils::memory::memcpy(a, b, n);
    utils::memory::memcpy(reinterpret_cast<char*>(a), reinterpret_cast<const unsigned char*>(b), n);
    utils::memory::memcpy(static_cast<void*>(a), static_cast<const void*>(b), n);
}
"""}


def counters(ctx):
    """no loop whose counter can not reach its bound: the path of such a loop
    never leaves it when the caller's size is large"""
    text = COUNTER_TU[ctx.prop]
    root = os.path.realpath(core.REPO) + "/"
    for cfg, flags in (("unix", []), ("consteval", core.VARIANTS["consteval"])):
        if cfg == "consteval" and ctx.prop != "P17":
            continue
        bc, r = emit(ctx, "counters-" + cfg, text, ["-O0", "-Xclang", "-disable-O0-optnone", *flags])
        if not need(ctx, "counters-" + cfg, r, text, flags):
            return
        r = core.sh(["opt-18", "-passes=sroa,instsimplify,simplifycfg", bc, "-o", bc + ".opt"])
        if r.returncode:
            raise core.Broken("opt: " + r.stderr[:200])
        n = 0
        for x in lint("counters", bc + ".opt"):
            f = os.path.realpath(x.get("inFile") or "/")
            if not f.startswith(root):
                continue
            n += 1
            ctx.count("loops_inspected")
            if x.get("bad"):
                ctx.violation("counter:" + x["where"], "%s: %s: the loop never ends for a size the counter does not reach" % (x["where"], x["bad"]))
            else:
                ctx.decided += 1
        ctx.decided += n == 0
        ctx.jobs.append(dict(kind="loop counters", unit=cfg, loops=n))


# ---------------------------------------------------------------------- P34
def p34(ctx):
    """nobody writes to what outlives the call and the caller did not pass in"""
    text = "".join("#include <utils/%s>\n" % h for h in headers()) + '#include "state.cpp"\n'
    for cfg, flags in (("debug", []), ("release", ["-DNDEBUG"])):
        fl = ["-I" + core.HARNESS, "-O0", "-femit-all-decls", "-Xclang", "-disable-O0-optnone", *flags]
        bc, r = emit(ctx, "p34-" + cfg, text, fl)
        if not need(ctx, "p34-" + cfg, r, text, flags):
            return
        r = core.sh(["opt-18", "-passes=sroa,instsimplify,simplifycfg", bc, "-o", bc + ".opt"])
        if r.returncode:
            raise core.Broken("opt: " + r.stderr[:200])
        d = lint("state", bc + ".opt", os.path.realpath(core.REPO))
        ctx.count("static_objects", d["static_objects"])
        ctx.count("const_member_functions", d["const_methods"])
        ctx.count("uses_inspected", d["uses"])
        ctx.count("calls_inspected", d["external_calls"])
        ctx.functions.update(d["functions"])
        ctx.jobs.append(dict(kind="writes to objects of static storage duration and through const objects", unit=cfg, objects=d["objects"], const_member_functions=d["const_methods"]))
        before = len(ctx.violations) + len(ctx.undecided)
        for x in d["found"]:
            t = "%s: %s: %s" % (cfg, x["object"], x["what"])
            if x["sure"]:
                ctx.violation("state:%s" % x["object"], t)
            else:
                ctx.undecided.append(t)
        for x in d["non_reentrant"]:
            ctx.violation("call:%s" % x["where"], "%s: %s, which is not reentrant, is called at %s" % (cfg, x["name"], x["where"]))
        if not d["static_objects"] or d["const_methods"] < 20:
            ctx.undecided.append("%s: only %d static objects and %d const member functions found" % (cfg, d["static_objects"], d["const_methods"]))
        elif len(ctx.violations) + len(ctx.undecided) == before:
            ctx.decided += 1
