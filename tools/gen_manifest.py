#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "type-level witnesses (generated static_asserts, clang and gcc type checkers)"
RJ = "compile-fail witnesses with compiling twins"
AI = "abstract interpretation of LLVM IR (bits x intervals x affine, cell splitting)"
AF = "abstract interpretation of LLVM IR to a fixpoint of object states under a most general client"
WN = ("Every witness of the generated family is decided by both type checkers for the current headers; the family covers the shapes described in "
      "DESIGN.md, not every list or signature that could be written. Trusts the two compilers and the model in witness/*.py.")
AN = ("All run-time operand values of the analysed instantiations are covered by abstract cells, each decided or reported undecided; instantiations "
      "(types, array lengths, buffer sizes) are the finite set in the harness. Trusts clang's IR generation and the transfer functions of tools/irai*.")
FN = ("All operation sequences of any length over the analysed configurations are covered (fixpoint over abstract object states); buffer and block counts are "
      "the finite set in the harness. Trusts clang's IR generation and the transfer functions of tools/irai*.")
C = [
    ("P01", WT, WN), ("P02", WT, WN), ("P03", WT, WN), ("P04", WT, WN), ("P05", WT, WN + " All 24 qualifier combinations are enumerated."), ("P06", WT, WN),
    ("P07", RJ, "Each documented precondition has at least one violating unit that must be rejected and a twin that must compile, with two compilers."),
    ("P08", WT, WN + " All 64 widths and 8 byte sizes are enumerated."), ("P09", WT, WN),
    ("P10", AI, AN + " Complete for every unsigned type."), ("P11", AI, AN), ("P12", AI, AN), ("P13", AI, AN), ("P14", AI, AN), ("P15", AI, AN),
    ("P16", WT + "; " + AI, AN + " " + WN), ("P17", AI, AN + " Debug, Release and the constant-evaluation branch."),
    ("P18", "abstract interpretation of optimized LLVM IR (-O1..-O3, -Os)", AN + " What the code generator does after the IR optimizer is trusted."),
    ("P19", AI + "; " + WT, AN), ("P20", AI, AN), ("P21", AI, AN),
    ("P22", "lint over LLVM IR: atomicity, ordering, single step, linkage", "Every access of getter and setter to the shared variable is inspected; value semantics of a single thread are decided under P23. Trusts clang's IR generation."),
    ("P23", AI, AN), ("P24", AF, FN), ("P25", AF, FN), ("P26", AF, FN), ("P27", AF, FN),
    ("P28", AI + "; " + WT, AN), ("P29", AI + "; lint of every call with a format", AN),
    ("P30", "type checking of generated include orders; linkage lint over LLVM IR", "All headers alone, all ordered pairs, several orders of all; every definition's linkage is inspected. Trusts clang 18 and gcc 13."),
    ("P31", AI + "; " + WT, AN + " That the steady clock of the platform is steady is assumed."),
    ("P32", AI + " and " + WT + ", both for the other platforms", AN + " " + WN + " The platforms are clang's s390x-linux-gnu and x86_64-w64-windows-gnu targets with "
     "MSVC's macros, keywords and intrinsics modelled in harness/platform; MSVC itself and its standard library are not available. What a platform's C library does is modelled."),
    ("P33", WT, WN + " Values are a grid around every power of two and both ends of each type plus random ones; all run-time values are decided under P10-P17."),
    ("P34", "effect analysis over LLVM IR: interprocedural pointer flow from every static object and const receiver to stores", "Every use of every static object in the instantiated library code is inspected; pointers stored to memory are reported undecided, not followed. Trusts clang's IR generation."),
    ("P35", AF + "; only memory accesses are judged", FN), ("P36", WT + "; " + AI, AN + " " + WN),
    ("P37", "abstract interpretation of LLVM IR from the first dynamic initializer to the last destructor", "One program of one and of two units, both link orders; the user objects in it use every part of the library that has dynamic initialization. "
     "Trusts clang's IR generation, and that the linker keeps the order of units."),
]
NA = [
]
m = dict(version=1, setup_cmd="sh tools/build_irai.sh",
         checks=[dict(property=p, quick_cmd="python3 checks/run.py %s --tier quick" % p, thorough_cmd="python3 checks/run.py %s --tier thorough" % p,
                      technique=t, level="other", level_note=n) for p, t, n in C],
         not_applicable=[dict(property=p, reason=r) for p, r in NA],
         notes="Static analysis only: nothing of /repo is executed by a check. /repo carries no hooks.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
