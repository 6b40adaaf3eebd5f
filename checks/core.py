"""Driver shared by all checks: jobs, evidence, verdict."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = REPO + "/sources/include"
HARNESS = VERIF + "/harness"
STUB = HARNESS + "/stub"
IRAI = VERIF + "/build/irai"
CORES = 8


class Broken(Exception):
    """the analysis itself can not give an answer"""


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode = 124
            stdout = (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            stderr = "timeout"
        return R()


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []   # {key, what, where, replay}
        self.undecided = []
        self.errors = []
        self.decided = 0
        self.jobs = []         # evidence rows
        self.functions = set()
        self.counters = {}
        self.assumptions = set()
        # a quick check has to answer within 900 s whatever the code looks like
        self.deadline = time.time() + (700 if tier == "quick" else 6 * 3600)
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.lock = threading.Lock()
        self.pool = cf.ThreadPoolExecutor(CORES)

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, key, what, **more):
        self.violations.append(dict(key=key, what=what, **more))

    def map(self, fn, items):
        return list(self.pool.map(fn, list(items)))


# ------------------------------------------------------------------ IR jobs
IRFLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
           "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return",
           "-fsanitize-trap=all", "-w"]
VARIANTS = {"debug": [], "release": ["-DNDEBUG"], "consteval": ["-D__builtin_is_constant_evaluated()=1"],
            "O1": ["-O1"], "O2": ["-O2"], "O3": ["-O3"], "Os": ["-Os"]}
# other platforms: the library headers of this machine, their ABI and macros
SYSDIRS = ["-nostdinc++", "-nostdlibinc"] + [x for d in ("/usr/include/c++/13", "/usr/include/x86_64-linux-gnu/c++/13", "/usr/include/x86_64-linux-gnu", "/usr/include") for x in ("-isystem", d)]
CROSS = {"s390x": ["--target=s390x-linux-gnu", "-D__x86_64__", *SYSDIRS],
         "win": ["--target=x86_64-w64-windows-gnu", "-D_MSC_VER=1934", "-fms-extensions", "-D__STRICT_ANSI__=1", "-D_GNU_SOURCE", "-DBOOST_PFR_ENABLED=1",
                 "-DBOOST_PFR_USE_LOOPHOLE=0", "-DBOOST_PFR_USE_CPP17=1", "-isystem", HARNESS + "/platform/win", *SYSDIRS],
         "annexk": ["-D__STDC_LIB_EXT1__=1"]}
VARIANTS.update(CROSS)
VARIANTS.update({k + "-release": v + ["-DNDEBUG"] for k, v in CROSS.items()})


def cross_failure(stderr):
    """Is a compile error under another platform the library's fault?  What
    this machine's headers or the stand-ins of that platform lack is not."""
    for l in stderr.splitlines():
        m = re.match(r"([^:]+):\d+:\d+: (?:fatal )?error: (.*)", l)
        if not m:
            continue
        if "WITNESS" in m.group(2):
            return m.group(2)
        if not m.group(1).startswith(INC):
            return None
        if re.search(r"undeclared identifier|no member named|unknown type name|not found|no type named|is not a member|no template named|redefinition|conflicting", m.group(2)):
            return None
        return m.group(2)
    return None


# what the optimizer leaves of the code
OPTFLAGS = ["-std=c++17", "-fno-vectorize", "-fno-slp-vectorize", "-g", "-fno-discard-value-names", "-w"]


def first_error(text):
    for l in text.splitlines():
        if "error:" in l:
            return l.strip()
    return text.strip()[:300]


def headers_compile(ctx, headers, flags=()):
    """is there something to analyse at all: do the headers themselves compile"""
    src = "".join("#include <utils/%s>\n" % h for h in headers)
    p = os.path.join(ctx.dir, "hdr-%s.cpp" % hashlib.md5(src.encode()).hexdigest()[:8])
    with open(p, "w") as f:
        f.write(src)
    r = sh(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + INC, "-I" + STUB, *flags, p])
    return r.returncode == 0, r.stderr


def ir_jobs(ctx, specs):
    """specs: list of dict(file, entries, variants, flags, time)"""
    if not os.path.exists(IRAI):
        r = sh(["sh", VERIF + "/tools/build_irai.sh"], timeout=900)
        if r.returncode:
            raise Broken("irai does not build: " + r.stderr[:500])
    units = []
    for s in specs:
        for v in s.get("variants", ["debug"]):
            units.append((s, v))

    def comp(u):
        s, v = u
        src = s["file"] if s["file"].startswith("/") else os.path.join(HARNESS, s["file"])
        tag = os.path.basename(src).replace(".cpp", "") + "-" + v + s.get("tag", "")
        bc = os.path.join(ctx.dir, tag + ".bc")
        r = sh(["clang++", *s.get("base", IRFLAGS), "-I" + INC, "-I" + HARNESS, "-I" + STUB, *VARIANTS[v], *s.get("flags", []), "-emit-llvm", "-c", src, "-o", bc])
        if s.get("link") and not r.returncode:
            # other translation units of the same program, in the linker's order
            parts = []
            for k, f in enumerate(s["link"]):
                o = bc if f == s["file"] else "%s.%d" % (bc, k)
                parts.append(o)
                if o != bc:
                    r = sh(["clang++", *s.get("base", IRFLAGS), "-I" + INC, "-I" + HARNESS, "-I" + STUB, *VARIANTS[v], *s.get("flags", []), "-emit-llvm", "-c", os.path.join(HARNESS, f), "-o", o])
                    if r.returncode:
                        return tag, bc, r
            r = sh(["llvm-link-18", *parts, "-o", bc + ".all"])
            if r.returncode == 0:
                os.replace(bc + ".all", bc)
        return tag, bc, r

    todo = []
    for (s, v), (tag, bc, r) in zip(units, ctx.map(comp, units)):
        if r.returncode:
            if v.split("-")[0] in CROSS:
                f = cross_failure(r.stderr)
                if f:
                    ctx.violation("compile:" + tag, "not valid on the platform: " + f, log=r.stderr[:4000])
                else:
                    ctx.undecided.append("%s: does not compile with the stand-ins of the platform: %s" % (tag, first_error(r.stderr)))
                continue
            uses = re.findall(r"#include <utils/([^>]+)>", open(s["file"] if s["file"].startswith("/") else os.path.join(HARNESS, s["file"])).read())
            ok, err = headers_compile(ctx, uses, VARIANTS[v])
            if not ok:
                ctx.errors.append("%s: the headers do not compile: %s" % (tag, first_error(err)))
            elif s.get("internal"):
                # names of namespace details are nobody's promise
                ctx.undecided.append("%s: internal names changed: %s" % (tag, first_error(r.stderr)))
            else:
                # a use the property promises is rejected
                ctx.violation("compile:" + tag, "valid use no longer compiles: " + first_error(r.stderr), log=r.stderr[:4000])
            continue
        r = sh(["llvm-nm-18", "--defined-only", bc])
        names = sorted(l.split()[-1] for l in r.stdout.splitlines() if len(l.split()) >= 2 and l.split()[-2] in "TW" and re.match(r"p\d+\w*$", l.split()[-1]))
        want = s.get("entries")
        ents = names if want is None else [e for e in want]
        ents = [e for e in ents if e not in s.get("skip", [])]
        if want is None and len(ents) < s.get("min", 1):
            ctx.errors.append("%s: %d entries, %d expected" % (tag, len(ents), s.get("min", 1)))
        for e in ents:
            todo.append((s, v, tag, bc, e))

    known = {k[1] for k in known_findings() if k[0] == ctx.prop}
    found = []  # time at which a violation was found: the verdict is known

    class Skipped:
        stderr = "stopped: another entry already shows a violation"

    def run(t):
        s, v, tag, bc, e = t
        out = os.path.join(ctx.dir, "%s-%s.json" % (tag, e))
        tm = s.get("time", 300)
        if found:
            return None, Skipped
        left = ctx.deadline - time.time()
        if left < 5:
            r = Skipped()
            r.stderr = "time budget of the tier used up"
            return None, r
        tm = int(min(tm, left))
        p = subprocess.Popen([IRAI, bc, "--entry", e, "--time", str(tm), "--out", out, *s.get("irai", [])], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        end = time.time() + min(tm + 120, left + 60)
        while True:
            try:
                r = Skipped()
                r.stderr = p.communicate(timeout=1)[1]
                break
            except subprocess.TimeoutExpired:
                if time.time() > end or (found and time.time() > found[0] + 20):
                    p.kill()
                    r.stderr = p.communicate()[1] or "stopped"
                    return None, r
        try:
            d = json.load(open(out))
        except Exception as x:
            return None, r
        if any("ir:%s:%s" % (e, x["label"]) not in known for x in d["violations"]):
            found.append(time.time())
        return d, r

    # long entries first
    todo.sort(key=lambda t: -t[0].get("cost", {}).get(t[4], 0))
    for (s, v, tag, bc, e), (d, r) in zip(todo, ctx.map(run, todo)):
        name = tag + ":" + e
        if d is None:
            ctx.undecided.append("%s: no answer from the interpreter (%s)" % (name, (r.stderr or "")[-200:].strip()))
            continue
        ctx.functions.update(d["functions"])
        nchecks = sum(d["checks"].values())
        ctx.jobs.append(dict(kind="abstract interpretation", unit=name, abstract_cells=d["cells"], paths=d["leaves"], case_splits=d["splits"],
                             states=d["states"], abstract_steps=d["steps"], checks=d["checks"], undecided=d["undecided"], error=d["error"], wall_s=d.get("wall_s")))
        for k in ("cells", "states", "steps"):
            ctx.count("abstract_" + k, d[k])
        ctx.count("checks_evaluated", nchecks)
        for w in d["undecided_why"][:5]:
            ctx.undecided.append("%s: %s" % (name, w))
        if d["error"]:
            ctx.undecided.append("%s: %s" % (name, d["error"]))
        if not d["violations"] and not d["error"] and nchecks + sum(d["notes"].values()) == 0:
            ctx.undecided.append(name + ": nothing was reached")
        for x in d["violations"]:
            ctx.violation("ir:%s:%s" % (e, x["label"]), "%s: %s %s" % (name, x["label"], x["detail"]), inputs=x["inputs"], trace=x["trace"])
        if not d["violations"] and not d["error"] and not d["undecided"]:
            ctx.decided += 1
            ctx.count("entries_decided")


# ------------------------------------------------------------ witness files
COMPILERS = {"clang": ["clang++", "-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-ftemplate-depth=2000", "-fconstexpr-steps=100000000"],
             "gcc": ["g++", "-std=c++17", "-fsyntax-only", "-w", "-fmax-errors=0", "-ftemplate-backtrace-limit=0", "-ftemplate-depth=2000"]}


def includes_of(text):
    return re.findall(r"#include <utils/([^>]+)>", text)


def run_witnesses(ctx, units, **kw):
    """units: (name, text, witnesses)"""
    with cf.ThreadPoolExecutor(4) as pool:
        for f in [pool.submit(run_witness, ctx, name, text, count=n, **kw) for name, text, n in units]:
            f.result()


def run_witness(ctx, name, text, compilers=("clang", "gcc"), flags=(), count=None, cross=False):
    """every static_assert of text must hold, and the text must compile"""
    p = os.path.join(ctx.dir, name + ".cpp")
    with open(p, "w") as f:
        f.write(text)
    lines = text.splitlines()
    n = text.count("static_assert(") if count is None else count
    if n == 0:
        ctx.errors.append(name + ": no witness generated")
        return

    long = name.endswith("-long")  # more elements than the compilers' default limits are made for
    limits = {"clang": ["-ftemplate-depth=4096", "-fbracket-depth=8192", "-fconstexpr-steps=100000000"],
              "gcc": ["-ftemplate-depth=4096", "-fconstexpr-loop-limit=10000000", "-fconstexpr-ops-limit=1000000000"]} if long else {}

    def one(c):
        return c, sh([*COMPILERS[c], "-I" + INC, "-I" + STUB, *limits.get(c, ()), *flags, p], timeout=600)

    for c, r in ctx.map(one, compilers):
        ctx.count("witness_compilations")
        unit = "%s:%s" % (name, c)
        ctx.jobs.append(dict(kind="type-level witnesses", unit=unit, witnesses=n, accepted=r.returncode == 0))
        if r.returncode == 0:
            ctx.decided += 1
            ctx.count("witnesses_held", n)
            continue
        if r.returncode == 124 or r.returncode < 0 or not r.stderr.strip() or "Killed signal" in r.stderr or "virtual memory exhausted" in r.stderr or "out of memory" in r.stderr or "internal compiler error" in r.stderr or "PLEASE submit a bug report" in r.stderr:
            ctx.undecided.append(unit + ": the compiler gave up")
            continue
        if cross and not cross_failure(r.stderr):
            ctx.undecided.append("%s: does not compile with the stand-ins of the platform: %s" % (unit, first_error(r.stderr)))
            continue
        ok, err = headers_compile(ctx, includes_of(text), flags)
        if not ok:
            ctx.errors.append("%s: the headers do not compile: %s" % (unit, first_error(err)))
            continue
        seen = set()
        for m in re.finditer(re.escape(p) + r":(\d+)", r.stderr):
            ln = int(m.group(1))
            if ln in seen or ln > len(lines):
                continue
            seen.add(ln)
        errs = [l for l in r.stderr.splitlines() if "error:" in l]
        if long and not any("WITNESS" in l for l in errs) and any(re.search(r"exceed|depth|limit|memory|too (many|deep)", l) for l in errs):
            ctx.undecided.append(unit + ": a limit of the compiler: " + first_error(r.stderr))
            continue
        bad = []
        for l in errs:
            m = re.search(r"WITNESS ([^\"']*)", l)
            if m:
                bad.append(m.group(1).strip())
        if bad:
            for b in bad[:5]:
                ctx.violation("witness:%s:%s" % (name, b.split(":")[0]), "%s: %s does not hold" % (unit, b), failed=len(bad))
        else:
            where = [lines[l - 1].strip()[:200] for l in sorted(seen)][:3]
            ctx.violation("witness:%s:rejected" % name, "%s: valid use does not compile: %s" % (unit, first_error(r.stderr)), lines=where, log=r.stderr[:3000])


def run_rejections(ctx, name, cases, compilers=("clang", "gcc")):
    """cases: (id, headers, good, bad): good must compile, bad must not; the
    pair differs in one construct only"""
    work = []
    for cid, headers, good, bad in cases:
        inc = "".join("#include <utils/%s>\n" % h for h in headers)
        for c in compilers:
            for kind, body in (("good", good), ("bad", bad)):
                work.append((cid, headers, c, kind, inc + body))

    def one(w):
        cid, headers, c, kind, text = w
        p = os.path.join(ctx.dir, "%s-%s-%s-%s.cpp" % (name, cid, c, kind))
        with open(p, "w") as f:
            f.write(text)
        return sh([*COMPILERS[c], "-I" + INC, "-I" + STUB, p], timeout=300)

    got = {}
    for w, r in zip(work, ctx.map(one, work)):
        got[(w[0], w[2], w[3])] = (r, w)
    for cid, headers, good, bad in cases:
        for c in compilers:
            g, gw = got[(cid, c, "good")]
            b, bw = got[(cid, c, "bad")]
            ctx.count("rejection_pairs")
            if g.returncode != 0:
                ok, err = headers_compile(ctx, headers)
                if not ok:
                    ctx.errors.append("%s: the headers do not compile: %s" % (cid, first_error(err)))
                else:
                    ctx.violation("reject:%s:good" % cid, "%s (%s): the valid twin does not compile: %s" % (cid, c, first_error(g.stderr)), source=good)
                continue
            if b.returncode == 0:
                ctx.violation("reject:%s:bad" % cid, "%s (%s): the invalid use compiles" % (cid, c), source=bad)
                continue
            ctx.decided += 1
    ctx.jobs.append(dict(kind="compile-fail witnesses with valid twins", unit=name, pairs=len(cases), compilers=list(compilers)))


# ------------------------------------------------------------------ verdict
def known_findings():
    out = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main(registry):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    spec = registry[prop]
    try:
        for step in spec["steps"]:
            step(ctx)
    except Broken as e:
        ctx.errors.append(str(e))
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
    known = [k for k in known_findings() if k[0] == prop]
    shown, new = set(), []
    for v in ctx.violations:
        k = next((k for k in known if k[1] == v["key"]), None)
        if k:
            shown.add(k)
        else:
            new.append(v)
    for k in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replay", exist_ok=True)
    cov = dict(explanation=spec["explanation"],
               decided_units=ctx.decided, undecided_units=len(ctx.undecided), undecided=ctx.undecided[:20], errors=ctx.errors[:20],
               functions_analysed=sorted(ctx.functions), units=ctx.jobs, **ctx.counters)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []) + sorted(ctx.assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    for u in ctx.undecided[:20]:
        print("UNDECIDED %s" % u)
    for e in ctx.errors[:20]:
        print("ERROR %s" % e)
    print("%s %s: %d units decided, %d undecided, %d errors, %d violations, %.1f s" % (prop, tier, ctx.decided, len(ctx.undecided), len(ctx.errors), len(new), time.time() - t0))
    if new:
        byk = {}
        for v in new:
            byk.setdefault(v["key"], v)
        for i, v in enumerate(list(byk.values())[:10]):
            rp = "%s/replay/%s-%d.json" % (VERIF, prop, i)
            with open(rp, "w") as f:
                json.dump(dict(property=prop, rerun="cd %s && python3 checks/run.py %s --tier %s" % (VERIF, prop, tier), **v), f, indent=1)
            print("  %s" % v["what"])
            if v.get("inputs"):
                print("    inputs: %s" % v["inputs"][:300])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if ctx.errors:
        return 2
    if not ctx.decided:
        return 2
    return 0
