"""P05: function signature traits, P06: generated checkers and the detector."""
import itertools
import random
from .lists import Out, b

PRE5 = """#include <utils/function_traits.h>
#include <type_traits>
#include <functional>
using namespace utils;
using namespace utils::function_traits;
struct S { int data; static int sdata; }; struct A3 { char c[3]; }; union U { int i; }; enum class E { a };
template <typename A, typename B> inline constexpr bool X = std::is_same_v<A, B>;
#define W static_assert
"""
RET = ["void", "int", "const int&", "S*", "A3", "int&&", "const S", "type_list<int>", "void (*)(int)"]
PAR = [[], ["int"], ["int&", "const char*"], ["S&&", "const A3&", "void*"], ["type_list<>", "int"], ["bool", "bool", "bool", "bool"], ["void (*)(int)", "int (S::*)() const", "int&"],
       ["S", "volatile int*", "E", "U&", "double", "float", "long long"], ["const int"], ["int* const", "std::function<int(char)>"]]
QUALS = list(itertools.product(("", "const"), ("", "volatile"), ("", "&", "&&"), ("", "noexcept")))


def fn(r, p, q):
    # a result that is a pointer to function can not be written in front
    if r == "void (*)(int)":
        r = "FP"
    return "%s(%s) %s" % (r, ", ".join(p).replace("void (*)(int)", "FP"), " ".join(x for x in q if x))


def p05(tier, seed):
    rng = random.Random(seed + 5)
    big = tier == "thorough"
    o = Out(PRE5 + "using FP = void (*)(int); template <typename F> using MP = F S::*;\n")
    combos = list(itertools.product(RET, PAR)) if big else [(r, p) for i, r in enumerate(RET) for j, p in enumerate(PAR) if (i + j) % 3 == 0 or i < 2]
    k = 0
    for (r, p) in combos:
        rr = "FP" if r == "void (*)(int)" else r
        pp = [x.replace("void (*)(int)", "FP") for x in p]
        # a parameter type loses its top-level cv in the function type
        adj = [x if not (x == "const int" or x.endswith("* const")) else ("int" if x == "const int" else x[:-6]) for x in pp]
        for q in QUALS:
            k += 1
            f = fn(r, p, q)
            d = f
            o.w("return_type", "X<return_type_t<%s>, %s> && X<typename return_type<%s>::type, %s>" % (f, rr, f, rr), d)
            o.w("params_list", "X<params_list_t<%s>, type_list<%s>>" % (f, ", ".join(adj)), d)
            c, v, ref, n = q
            o.w("has", "has_const_qualifier_v<{0}> == {1} && has_volatile_qualifier_v<{0}> == {2} && has_lvalue_reference_qualifier_v<{0}> == {3} && has_rvalue_reference_qualifier_v<{0}> == {4} && has_noexcept_qualifier_v<{0}> == {5}"
                .format(f, b(c), b(v), b(ref == "&"), b(ref == "&&"), b(n)), "qualifier queries of " + d)
            rm = lambda i: fn(r, p, q[:i] + ("",) + q[i + 1:])
            o.w("remove", " && ".join("X<typename remove_%s_qualifier<%s>::type, %s>" % (nm, f, rm(i)) for i, nm in enumerate(("const", "volatile", "reference", "noexcept"))), "remove-one of " + d)
            o.w("remove_all", "X<remove_all_qualifiers_t<%s>, %s>" % (f, fn(r, p, ("",) * 4)), "remove_all_qualifiers of " + d)
            o.w("signature", "X<signature_t<{0}>, {0}> && X<member_signature_t<MP<{0}>>, {0}> && is_invocable_v<{0}> && is_invocable_v<MP<{0}>>".format(f), "signature and is_invocable of " + d)
            # a functor with that call operator
            o.raw("struct F%d { %s operator()(%s) %s; };" % (k, rr, ", ".join(pp), " ".join(x for x in q if x)))
            o.w("functor", "X<functor_signature_t<F{0}>, {1}> && X<signature_t<F{0}>, {1}> && X<member_signature_t<decltype(&F{0}::operator())>, {1}> && is_invocable_v<F{0}> && is_simple_functor_v<F{0}>".format(k, f), "functor with " + d)
            if not (c or v or ref):
                o.w("pointer", "is_invocable_v<std::add_pointer_t<%s>>" % f, "pointer to " + d)
    o.raw("""
inline auto l0 = [](int, char) { return 1; }; inline auto l1 = [](S&) mutable noexcept {}; inline auto l2 = [](auto) {}; inline auto l3 = []() noexcept -> const int& { static int x; return x; };
struct Over { void operator()(int); void operator()(char); }; struct Tmpl { template <typename T> void operator()(T); }; class Priv { void operator()(int); }; struct Base { int operator()(long) const; };
struct Derived : Base { }; struct Conv { using P = void (*)(int); operator P() const; }; struct Empty {}; struct StaticData { static int call; int (*fp)(int); }; struct Deleted { void operator()(int) = delete; };""")
    o.w("lambda", "X<signature_t<decltype(l0)>, int(int, char) const> && X<functor_signature_t<decltype(l0)>, int(int, char) const>", "lambda")
    o.w("lambda", "X<signature_t<decltype(l1)>, void(S&) noexcept>", "mutable noexcept lambda")
    o.w("lambda", "X<signature_t<decltype(l3)>, const int&() const noexcept> && is_invocable_v<decltype(l0)> && is_invocable_v<decltype(l1)> && is_invocable_v<decltype(l3)>", "lambdas are invocable")
    o.w("functor", "X<signature_t<Base>, int(long) const> && is_invocable_v<Derived>", "inherited call operator")
    for t in ["int", "void", "E", "U", "S", "Empty", "Over", "Tmpl", "Priv", "Conv", "StaticData", "decltype(l2)", "int*", "void*", "int&", "int S::*", "A3 S::*", "const int S::*", "int (* S::*)(int)", "std::nullptr_t", "int[3]", "bool", "double", "S*"]:
        o.w("not_invocable", "!is_invocable_v<%s> && !is_invocable<%s>::value" % (t, t), "is_invocable of " + t)
    for t in ["int", "Over", "Tmpl", "Priv", "decltype(l2)", "Empty", "void()", "void (*)()"]:
        o.w("not_functor", "!is_simple_functor_v<%s>" % t, "is_simple_functor of " + t)
    for t in ["void()", "int(char) const &", "void (*)()", "int (*)(int, char)", "int (*)(int) noexcept", "void (S::*)()", "int (S::*)(int) const volatile && noexcept", "std::function<void()>"]:
        o.w("invocable", "is_invocable_v<%s> && is_invocable<%s>::value" % (t, t), "is_invocable of " + t)
    return [("p05", o)]


PRE6 = """#include <utils/function_traits.h>
#include <utils/detector.h>
#include <type_traits>
#include <utility>
#include <string>
template <typename A, typename B> inline constexpr bool X = std::is_same_v<A, B>;
#define W static_assert
"""
# class name -> (source, properties)
CLASSES = [
    # name, body, facts: type (exact type or None), data, sdata
    ("None_", "{ }", {}),
    ("Type_", "{ using foo = long; }", {"type": "long"}),
    ("TypeConst", "{ using foo = const int&; }", {"type": "const int&"}),
    ("TypeNested", "{ struct foo { operator int() const; }; }", {"type": "TypeNested::foo", "conv": ["int"]}),
    ("TypeEnum", "{ enum foo { a }; }", {"type": "TypeEnum::foo", "conv": ["int", "long"]}),
    ("TypeTemplate", "{ template <typename T> struct foo {}; }", {}),
    ("TypeFn", "{ using foo = void(int); }", {"type": "void(int)", "conv": ["void (*)(int)"]}),
    ("TypeVoid", "{ using foo = void; }", {"type": "void", "conv": ["void"]}),
    ("Data_", "{ int foo; }", {"data": 1}),
    ("DataConst", "{ const int foo = 1; }", {"data": 1}),
    ("DataMutable", "{ mutable double foo; }", {"data": 1}),
    ("DataArray", "{ int foo[3]; }", {"data": 1}),
    ("DataFnPtr", "{ void (*foo)(int); }", {"data": 1}),
    ("DataMemFnPtr", "{ int (DataFnPtr::*foo)(int); }", {"data": 1}),
    ("DataClass", "{ Type_ foo; }", {"data": 1}),
    ("SData", "{ static int foo; }", {"sdata": 1}),
    ("SDataConst", "{ static const long foo; }", {"sdata": 1}),
    ("SDataConstexpr", "{ static constexpr int foo = 3; }", {"sdata": 1}),
    ("SDataInline", "{ inline static int foo = 3; }", {"sdata": 1}),
    ("SDataFnPtr", "{ static void (*foo)(int); }", {"sdata": 1}),
    ("SDataMemPtr", "{ static int (DataFnPtr::*foo)(int); }", {"sdata": 1}),
    ("SDataArray", "{ static int foo[]; }", {"sdata": 1}),
    ("Method", "{ void foo(); }", {}),
    ("MethodConst", "{ int foo(int) const; }", {}),
    ("SMethod", "{ static void foo(); }", {}),
    ("SMethodInt", "{ static int foo(int) noexcept; }", {}),
    ("Overload", "{ void foo(); int foo(int); }", {}),
    ("Tmpl", "{ template <typename T> T foo(T); }", {}),
    ("EnumVal", "{ enum { foo }; }", {}),
    ("Inherits", ": Data_ { }", {"data": 1}),
    ("InheritsS", ": SData { }", {"sdata": 1}),
    ("InheritsT", ": Type_ { }", {"type": "long"}),
    ("Ambiguous", ": Data_, DataConst { }", {}),
    ("AmbiguousT", ": Type_, TypeConst { }", {}),
    ("Hides", ": Data_ { void foo(); }", {}),
    ("HidesT", ": Type_ { int foo; }", {"data": 1}),
    ("Other", "{ int bar; using baz = int; static int fooo; int fo; }", {}),
    ("Finals", "final { int foo; }", {"data": 1}),
    ("Virt", "{ virtual void foo(); virtual ~Virt(); }", {}),
    ("PrivUsing", ": private Data_ { }", {}),
    ("PubUsing", ": private Data_ { using Data_::foo; }", {"data": 1}),
]
PRIVATE = [("PrivType", "{ using foo = long; }"), ("PrivData", "{ int foo; }"), ("PrivSData", "{ static int foo; }"), ("PrivMethod", "{ void foo(); }"), ("PrivSMethod", "{ static void foo(); }"),
           ("ProtType", "{ protected: using foo = long; }"), ("ProtData", "{ protected: int foo; }"), ("ProtSData", "{ protected: static int foo; }"), ("ProtSMethod", "{ protected: static void foo(); }")]


def p06(tier, seed):
    big = tier == "thorough"
    res = []
    # ------------------------------------------ types, data, static data
    o = Out(PRE6)
    for n, body, f in CLASSES:
        o.raw("struct %s %s;" % (n, body))
    for n, body in PRIVATE:
        o.raw("class %s %s;" % (n, body))
    o.raw("union UData { int foo; char c; }; enum class Scoped { foo }; enum Unscoped { foo_ };")
    o.raw("namespace chk { CREATE_MEMBER_TYPE_CHECKERS(foo) CREATE_MEMBER_DATA_CHECKERS(foo) CREATE_STATIC_MEMBER_DATA_CHECKERS(foo) }")
    o.raw("struct Anything { Anything(long); Anything(int); }; struct FromNothing {};")
    every = [(n, f) for n, body, f in CLASSES] + [(n, {}) for n, body in PRIVATE] + [("UData", {"data": 1})]
    cv = lambda n: [n, "const " + n, "volatile " + n]
    for n, f in every:
        t = f.get("type")
        for q in cv(n):
            o.w("has_type", "chk::has_type_foo_v<%s> == %s && chk::has_type_foo<%s>::value == %s" % (q, b(t), q, b(t)), q)
            o.w("has_data", "chk::has_data_foo_v<%s> == %s && chk::has_data_foo<%s>::value == %s" % (q, b(f.get("data")), q, b(f.get("data"))), q)
            o.w("has_static_data", "chk::has_static_data_foo_v<%s> == %s && chk::has_static_data_foo<%s>::value == %s" % (q, b(f.get("sdata")), q, b(f.get("sdata"))), q)
        for e in ["long", "int", "const int&", "int&", "const int", "void(int)", "void", "TypeNested::foo", "TypeEnum::foo", "::utils::nonesuch*"]:
            o.w("has_exact_type", "chk::has_exact_type_foo_v<%s, %s> == %s && chk::has_exact_type_foo<%s, %s>::value == %s" % (n, e, b(t == e), n, e, b(t == e)), "%s as %s" % (n, e))
        for e in ["int", "long", "void (*)(int)", "int*", "void", "Anything"]:
            if t in ("long", "const int&"):
                ok = e in ("int", "long", "Anything")
            else:
                ok = e in f.get("conv", []) or (t in ("TypeNested::foo", "TypeEnum::foo") and e == "long") or (t == "TypeEnum::foo" and e == "Anything" and False)
                if t in ("TypeNested::foo", "TypeEnum::foo") and e == "Anything":
                    continue
            o.w("has_convertible_type", "chk::has_convertible_type_foo_v<%s, %s> == %s && chk::has_convertible_type_foo<%s, %s>::value == %s" % (n, e, b(ok), n, e, b(ok)), "%s to %s" % (n, e))
    for t in ["int", "void", "int&", "int*", "Scoped", "Unscoped", "void()", "int[3]", "Data_*", "Data_&", "Type_*", "SData&", "int Data_::*", "std::string"]:
        o.w("non_class", "!chk::has_type_foo_v<{0}> && !chk::has_data_foo_v<{0}> && !chk::has_static_data_foo_v<{0}> && !chk::has_exact_type_foo_v<{0}, int> && !chk::has_convertible_type_foo_v<{0}, int>".format(t), t)
    res.append(("p06-members", o))

    # ------------------------------------------------------------- methods
    o = Out(PRE6)
    quals = list(itertools.product(("", "const"), ("", "volatile"), ("", "&", "&&"), ("", "noexcept")))
    suf = lambda q: ("_const" if q[0] else "") + ("_volatile" if q[1] else "") + {"": "", "&": "_ref", "&&": "_rref"}[q[2]] + ("_noexcept" if q[3] else "")
    o.raw("namespace chk { CREATE_METHOD_CHECKERS(foo) CREATE_R_METHOD_CHECKERS(foo) CREATE_STATIC_METHOD_CHECKERS(foo) }")
    for k, q in enumerate(quals):
        o.raw("struct M%d { int foo(char&, long) %s; };" % (k, " ".join(x for x in q if x)))
    for i, q in enumerate(quals):
        for j, r in enumerate(quals):
            # the pointer type of r accepts &M::foo: same cv and ref, noexcept may be dropped
            ok = q[:3] == r[:3] and (q[3] == r[3] or q[3] == "noexcept")
            o.w("has_invocable_r", "chk::has_invocable_r_foo%s_v<int, M%d, char&, long> == %s && chk::has_invocable_r_foo%s<int, M%d, char&, long>::value == %s" % (suf(r), i, b(ok), suf(r), i, b(ok)), "method '%s' as '%s'" % (" ".join(q), " ".join(r)))
        o.w("has_invocable_r_other", "!chk::has_invocable_r_foo{0}_v<long, M{1}, char&, long> && !chk::has_invocable_r_foo{0}_v<int, M{1}, char, long> && !chk::has_invocable_r_foo{0}_v<int, M{1}> && !chk::has_invocable_r_foo{0}_v<void, M{1}, char&, long> && !chk::has_invocable_r_foo{0}_v<int, M{1}, char&, int> && !chk::has_invocable_r_foo{0}_v<int, M{1}, char&, long, int>".format(suf(q), i), "other signatures for '%s'" % " ".join(q))
        # calls through an object of each category
        for oc, ov, oref in itertools.product(("", "const "), ("", "volatile "), ("", "&", "&&")):
            t = "%s%sM%d%s" % (oc, ov, i, oref)
            ok = (not oc or q[0]) and (not ov or q[1]) and (q[2] == "" or (q[2] == "&&") == (oref != "&") or (q[2] == "&" and q[0] and not q[1] and oref != "&"))
            o.w("has_invocable", "chk::has_invocable_foo_v<%s, char&, long> == %s && chk::has_invocable_foo<%s, char&, int>::value == %s" % (t, b(ok), t, b(ok)), "call on %s (%s)" % (t.replace("M%d" % i, "T"), " ".join(q)))
            o.w("has_invocable_noexcept", "chk::has_invocable_foo_noexcept_v<%s, char&, long> == %s && chk::has_invocable_foo_noexcept<%s, char&, int>::value == %s" % (t, b(ok and q[3]), t, b(ok and q[3])), "noexcept call on %s (%s)" % (t.replace("M%d" % i, "T"), " ".join(q)))
        o.w("has_invocable_args", "!chk::has_invocable_foo_v<M{0}&, char, long> && !chk::has_invocable_foo_v<M{0}&> && !chk::has_invocable_foo_v<M{0}&, char&, void*> && !chk::has_invocable_foo_v<M{0}&, char&, long, long>".format(i), "wrong arguments (%s)" % " ".join(q))
        o.w("not_static", "!chk::has_static_invocable_foo_v<M{0}, char&, long> && !chk::has_static_invocable_foo_noexcept_v<M{0}, char&, long> && !chk::has_static_invocable_r_foo_v<int, M{0}, char&, long> && !chk::has_static_invocable_r_foo_noexcept_v<int, M{0}, char&, long>".format(i), "method is not static (%s)" % " ".join(q))
    o.raw("""struct None_ {}; struct Data_ { int foo; }; struct Over { void foo(); int foo(int) const; static char foo(char*); }; struct Tmpl { template <typename T> T foo(T) noexcept(sizeof(T) > 1); }; class Priv { void foo(); static int foo(int); };
struct DataF { void (*foo)(int); }; struct Functor { int operator()(int) noexcept; }; struct DataFunctor { Functor foo; }; struct Deflt { int foo(int = 1, char = 'a'); }; struct Vararg { int foo(...); }; struct Inh : Over {}; struct InhPriv : private Over {};
struct St { static int foo(char&, long); }; struct StN { static int foo(char&, long) noexcept; }; struct StO { static int foo(int) noexcept; static long foo(long*); int foo(); }; struct StI : StN {}; struct StT { template <typename T> static T foo(T); };
struct StD { static inline int (*foo)(int) = nullptr; }; struct StX { static inline Functor foo; }; class StP { static int foo(int); }; struct Del { void foo() = delete; static void foo(int) = delete; }; struct TypeFoo { using foo = int; };
struct Implicit { Implicit(int); }; struct ByImpl { void foo(Implicit); }; struct Expl { explicit Expl(int); }; struct ByExpl { void foo(Expl); }; struct ByRv { void foo(std::string&&); }; union UM { int i; int foo(); };""")
    T, F = True, False
    rows = [("has_invocable_foo", a, x) for a, x in [
        ("None_", F), ("int", F), ("void", F), ("int*", F), ("Data_", F), ("Over", T), ("Over, int", T), ("const Over, int", T), ("const Over", F), ("Over, char*", T), ("Over, void*", F), ("Over, int, int", F),
        ("Tmpl, int", T), ("Tmpl", F), ("Priv", F), ("Priv, int", F), ("DataF, int", T), ("DataF", F), ("DataFunctor, int", T), ("Deflt", T), ("Deflt, int", T), ("Deflt, int, char", T), ("Deflt, int, char, int", F),
        ("Vararg", T), ("Vararg, int, double", T), ("Inh", T), ("InhPriv", F), ("St, char&, long", T), ("Del", F), ("Del, int", F), ("TypeFoo", F), ("ByImpl, int", T), ("ByExpl, int", F), ("ByRv, std::string", T),
        ("ByRv, std::string&", F), ("ByRv, const char*", T), ("UM", T), ("Over*", F), ("Over&", T), ("const Over&, int", T), ("volatile Over", F)]]
    rows += [("has_invocable_foo_noexcept", a, x) for a, x in [("Over", F), ("Tmpl, int", T), ("Tmpl, char", F), ("DataFunctor, int", T), ("StN, char&, long", T), ("St, char&, long", F), ("None_", F), ("int", F), ("Priv", F)]]
    rows += [("has_static_invocable_foo", a, x) for a, x in [("St, char&, long", T), ("St, char&, int", T), ("St, char, long", F), ("St", F), ("StN, char&, long", T), ("StO, int", T), ("StO, long*", T), ("StO", F), ("StI, char&, long", T),
                                                             ("StT, int", T), ("StT", F), ("StD, int", T), ("StP, int", F), ("None_", F), ("Data_", F), ("int", F), ("Del, int", F), ("Over, char*", T), ("Over, int", F), ("TypeFoo, int, int", F), ("StX, int", T)]]
    rows += [("has_static_invocable_foo_noexcept", a, x) for a, x in [("St, char&, long", F), ("StN, char&, long", T), ("StO, int", T), ("StO, long*", F), ("StI, char&, long", T), ("StT, int", F), ("StP, int", F), ("None_", F), ("StX, int", T)]]
    rows += [("has_static_invocable_r_foo", a, x) for a, x in [("int, St, char&, long", T), ("long, St, char&, long", F), ("int, St, char&, int", F), ("int, St, char, long", F), ("int, StN, char&, long", T), ("int, StO, int", T), ("long, StO, long*", T),
                                                               ("int, StO, long*", F), ("int, StO", F), ("int, StI, char&, long", T), ("int, StT, int", T), ("long, StT, int", F), ("int, StP, int", F), ("int, None_", F), ("int, Data_", F), ("void, None_, int", F), ("char, Over, char*", T), ("int, Over, int", F), ("int, StD, int", F)]]
    rows += [("has_static_invocable_r_foo_noexcept", a, x) for a, x in [("int, St, char&, long", F), ("int, StN, char&, long", T), ("int, StO, int", T), ("long, StO, long*", F), ("int, StI, char&, long", T), ("int, StP, int", F), ("int, None_", F), ("long, StN, char&, long", F)]]
    rows += [("has_invocable_r_foo", a, x) for a, x in [("void, Over", T), ("int, Over", F), ("int, Over, int", F), ("void, None_", F), ("int, Data_", F), ("void, Priv", F), ("void, Inh", T), ("int, Tmpl, int", T), ("char, Tmpl, int", F), ("int, UM", T), ("void, int", F), ("char, Over, char*", F), ("int, Deflt", F), ("int, Deflt, int, char", T), ("void, InhPriv", F), ("void, Del", F)]]
    rows += [("has_invocable_r_foo_const", a, x) for a, x in [("int, Over, int", T), ("void, Over", F), ("int, Inh, int", T)]]
    for c, a, x in rows:
        if c.startswith("has_invocable_r_foo") and "Del" in a:
            continue
        o.w(c, "chk::%s_v<%s> == %s && chk::%s<%s>::value == %s" % (c, a, b(x), c, a, b(x)), a)
    res.append(("p06-methods", o))

    # ------------------------------------------------------ free functions
    o = Out(PRE6)
    o.raw("""namespace api { struct S {}; struct Conv { Conv(int); }; int bar(char&, long); void bar(S) noexcept; const int& bar(const S*, int) noexcept; template <typename T> T bar(T, T, T) noexcept(sizeof(T) == 1); long bar(Conv, Conv, Conv, Conv); void bar(int, int, int, int, ...) ; void bar(double) = delete; }
namespace adl { struct N {}; int bar(N) noexcept; }
namespace chk { using api::bar; CREATE_FREE_FUNCTION_CHECKERS(bar) }
namespace none { void qux(); CREATE_FREE_FUNCTION_CHECKERS(qux) }""")
    calls = [("char&, long", "int", F), ("char&, int", "int", F), ("char, long", None, F), ("api::S", "void", T), ("api::S&", "void", T), ("const api::S&", "void", T), ("api::S*", None, F), ("const api::S*, int", "const int&", T),
             ("api::S*, char", "const int&", T), ("int, int, int", "int", F), ("char, char, char", "char", T), ("int, char, int", None, F), ("int, int, int, int", "void", F), ("int, int, int, api::Conv", "long", F), ("int, int, int, int, int", "void", F), ("double", None, F), ("", None, F), ("void*", None, F), ("adl::N", "int", T), ("adl::N&&", "int", T)]
    for a, r, n in calls:
        o.w("is_invocable", "chk::is_bar_invocable_v<%s> == %s && chk::is_bar_invocable<%s>::value == %s" % (a, b(r), a, b(r)), a)
        o.w("is_noexcept_invocable", "chk::is_bar_noexcept_invocable_v<%s> == %s && chk::is_bar_noexcept_invocable<%s>::value == %s" % (a, b(r and n), a, b(r and n)), a)
        for x in ["int", "void", "const int&", "char", "long", "int&", "const int"]:
            aa = x + (", " + a if a else "")
            o.w("is_invocable_r", "chk::is_bar_invocable_r_v<%s> == %s && chk::is_bar_invocable_r<%s>::value == %s" % (aa, b(r == x), aa, b(r == x)), aa)
            o.w("is_noexcept_invocable_r", "chk::is_bar_noexcept_invocable_r_v<%s> == %s && chk::is_bar_noexcept_invocable_r<%s>::value == %s" % (aa, b(r == x and n), aa, b(r == x and n)), aa)
    o.w("qux", "none::is_qux_invocable_v<> && !none::is_qux_noexcept_invocable_v<> && none::is_qux_invocable_r_v<void> && !none::is_qux_invocable_v<int>", "qux")
    res.append(("p06-free", o))

    # ---------------------------------------------------------- the detector
    o = Out(PRE6)
    o.raw("""using namespace utils;
template <typename T> using type_of = typename T::type; template <typename T> using value_of = decltype(T::value); template <typename T> using plus_of = decltype(std::declval<T>() + std::declval<T>());
template <typename T, typename U> using assign_of = decltype(std::declval<T>() = std::declval<U>()); template <typename... Ts> using common_of = std::common_type_t<Ts...>; template <typename T> using ref_of = T&; template <typename T> using copy_of = decltype(T(std::declval<const T&>()));
struct Ty { using type = const long&; }; struct Va { static constexpr int value = 1; }; struct No {}; class Pr { using type = int; static int value; }; template <typename... T> using always_void = void;""")
    det = [("type_of", "Ty", "const long&"), ("type_of", "No", None), ("type_of", "int", None), ("type_of", "Pr", None), ("type_of", "std::enable_if<true, char>", "char"), ("type_of", "std::enable_if<false, char>", None),
           ("value_of", "Va", "const int"), ("value_of", "Pr", None), ("value_of", "No", None), ("plus_of", "char", "int"), ("plus_of", "float", "float"), ("plus_of", "No", None), ("plus_of", "std::string", "std::string"), ("plus_of", "int*", None),
           ("assign_of", "int&, char", "int&"), ("assign_of", "int, char", None), ("assign_of", "const int&, int", None), ("assign_of", "std::string&, const char*", "std::string&"), ("assign_of", "No&, No", "No&"), ("common_of", "int, long", "long"),
           ("common_of", "int, No", None), ("common_of", "", None), ("ref_of", "int", "int&"), ("ref_of", "void", None), ("ref_of", "int&&", "int&"), ("copy_of", "No", "No"), ("copy_of", "nonesuch", None), ("always_void", "", "void"), ("always_void", "int, No", "void")]
    for op, a, r in det:
        args = op + (", " + a if a else "")
        d = args
        o.w("is_detected", "is_detected_v<%s> == %s && is_detected<%s>::value == %s && std::is_base_of_v<std::bool_constant<%s>, is_detected<%s>>" % (args, b(r), args, b(r), b(r), args), d)
        o.w("detected_t", "X<detected_t<%s>, %s>" % (args, r or "nonesuch"), d)
        for df in ("int", "void", "No&"):
            o.w("detected_or", "X<detected_or_t<%s, %s>, %s> && X<typename detected_or<%s, %s>::type, %s> && detected_or<%s, %s>::value_t::value == %s" % (df, args, r or df, df, args, r or df, df, args, b(r)), d)
        for e in ("const long&", "int", "int&", "void", "long", "char", "nonesuch", "No", "const int"):
            if e == "nonesuch":
                continue
            o.w("is_detected_exact", "is_detected_exact_v<%s, %s> == %s && is_detected_exact<%s, %s>::value == %s" % (e, args, b(r == e), e, args, b(r == e)), d + " as " + e)
            arith = ("const long&", "int", "int&", "long", "char", "const int", "float")
            conv = r is not None and ((e in ("int", "long", "char", "const int", "const long&") and r in arith) or (e == "void" and r == "void") or (e == "No" and r in ("No", "No&")) or (e == "int&" and r == "int&"))
            o.w("is_detected_convertible", "is_detected_convertible_v<%s, %s> == %s && is_detected_convertible<%s, %s>::value == %s" % (e, args, b(conv), e, args, b(conv)), d + " to " + e)
    res.append(("p06-detector", o))
    return res
