#!/usr/bin/env python3
"""Mutation runs, a development aid (not part of any check): small edits of the
headers of a scratch copy, the checks of the properties of that header run on
each; survivors are listed for triage.
usage: mutate.py LOG [-n PER_FILE] [-s SEED] [FILE...]"""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"type_list.h": "P01 P02", "cartesian_product.h": "P03", "value_list.h": "P04",
         "common.h": "P11 P14 P13 P15 P29 P12 P08 P16 P33 P36 P28 P34 P04 P09", "clz.h": "P10 P33 P32", "ctz.h": "P10 P33 P32", "details/cxz.h": "P10 P32",
         "fast_pimpl.h": "P19 P36 P07", "function_traits.h": "P05 P06", "detector.h": "P06", "padding_checker.h": "P09", "timer.h": "P20 P31 P36 P34 P07",
         "memory/allocator.h": "P28 P36 P34 P07", "memory/memory.h": "P17 P21 P22 P23 P11 P18 P28 P33 P34 P32 P07",
         "memory/monotonic_buffer_resource.h": "P24 P35 P36 P34 P07", "memory/simple_resource.h": "P35 P25 P26 P27 P36 P34 P07"}
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
       (r" << ", " >> "), (r" >> ", " << "), (r" && ", " || "), (r" \|\| ", " && "), (r" & ", " | "), (r" \| ", " & "), (r"\+\+", "--"), (r"--", "++"), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<![\w.])(\d+)\b(?!\.)", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])([1-9]\d*)\b(?!\.)", lambda m: str(int(m.group(1)) - 1)), (r"std::forward<[^<>]*>\((\w+)\)", r"\1"), (r"std::move\((\w+)\)", r"\1"), (r"static_cast<[^<>]*>\(", "("), (r"!(?=[\w(])", ""), (r" noexcept\b(?!\()", ""),
       (r"\btrue_type", "false_type"), (r"\bfalse_type", "true_type"), (r"conjunction", "disjunction"), (r"disjunction", "conjunction"), (r"\bstd::size_t\b", "unsigned"), (r"std::size_t", "std::uint8_t"), (r"\binline ", ""), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"),
       (r"\balignof\(", "sizeof("), (r"\bsizeof\(", "alignof("), (r"nullptr", "this"), (r"\bconst ", ""), (r"return (?!\*this)([^;{]+);", r"return {};"), (r"\baLeft\b", "aRight"), (r"\baFirst\b", "aSecond"), (r"std::remove_reference_t", "std::decay_t"), (r"&&", "&"), (r"\bif \((.*)\)$", "if (true)"), (r"\bif \((.*)\)$", "if (false)"),
       (r"^(\s+)[\w:.>\[\]*()<&-]+ ?[-+*]?= [^;]*;$", r"\1;"), (r"^(\s+)[\w:.>*-]+\([^;]*\);$", r"\1;"), (r"\bbreak;", ";"), (r"std::is_same_v<", "std::is_convertible_v<"), (r"uint64_t", "uint32_t"), (r"memory_order_\w+", "memory_order_relaxed")]


def candidates(text):
    out = []
    incom = False
    for i, l in enumerate(text.split("\n")):
        s = l.strip()
        if s.startswith("//") or s.startswith("#") and not s.startswith("#define") or not s or s.startswith("*") or "static_assert" in l:
            continue
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():] if isinstance(b, str) else l[:m.start()] + b(m) + l[m.end():]
                if n != l:
                    out.append((i, l, n))
    return out


def main():
    a = sys.argv[1:]
    log = open(a.pop(0), "a", buffering=1)
    per, seed = 25, 1
    if "-n" in a:
        per = int(a.pop(a.index("-n") + 1)); a.remove("-n")
    if "-s" in a:
        seed = int(a.pop(a.index("-s") + 1)); a.remove("-s")
    rng = random.Random(seed)
    for f in a or list(PROPS):
        src = open("/repo/sources/include/utils/" + f).read()
        c = sorted(set(candidates(src)))
        pick = rng.sample(c, min(per, len(c)))
        print("=== %s: %d candidates, %d run" % (f, len(c), len(pick)), file=log)
        for i, old, new in pick:
            R = tempfile.mkdtemp(prefix="mutant-")
            try:
                subprocess.run(["cp", "-a", "/repo/sources", R], check=True)
                L = src.split("\n")
                L[i] = new
                open(R + "/sources/include/utils/" + f, "w").write("\n".join(L))
                t = R + "/t.cpp"
                open(t, "w").write("#include <utils/%s>\n" % f)
                if subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + R + "/sources/include", "-I" + V + "/harness/stub", t], stderr=subprocess.DEVNULL).returncode:
                    print("nocompile %d" % (i + 1), file=log)
                    continue
                by = None
                for p in PROPS[f].split():
                    r = subprocess.run(["python3", V + "/checks/run.py", p], env=dict(os.environ, VERIF_REPO=R, VERIF_EVIDENCE=R), stdout=subprocess.PIPE, text=True)
                    if r.returncode:
                        by = p + (" rc%d" % r.returncode if r.returncode != 1 else "") + " " + (r.stdout.split("\n")[1][:110] if "\n" in r.stdout else "")
                        break
                print("%s %s:%d\n   -%s\n   +%s" % ("killed by " + by if by else "SURVIVED", f, i + 1, old.strip(), new.strip()), file=log)
            finally:
                shutil.rmtree(R)


main()
