"""Witnesses for P07 (rejections), P08, P09, P16, P19, P28."""
import itertools
import random
from .lists import Out, b, vl

# --------------------------------------------------------------------- P07
FP, TM, CM, TL, VL = ["fast_pimpl.h"], ["timer.h"], ["common.h"], ["type_list.h"], ["value_list.h"]
MEM, ALC = ["memory/memory.h"], ["memory/allocator.h"]


def p07_cases(tier):
    c = []

    def add(cid, headers, text, good, bad, pre=""):
        """text holds @ where good and bad differ"""
        c.append((cid, headers, pre + text.replace("@", good), pre + text.replace("@", bad)))

    imp = "struct I { long a; int b; I() {} I(const I&) {} I(I&&) {} I& operator=(const I&) { return *this; } };\n"
    use = "void f() { @ }\n"
    for bad, why in (("8, 8", "size-small"), ("24, 8", "size-large"), ("15, 8", "size-15"), ("17, 8", "size-17"), ("16, 4", "align-small"), ("16, 16", "align-large"), ("32, 8", "size-double"), ("16, 1", "align-1")):
        add("pimpl-" + why, FP, use, "utils::fast_pimpl<I, 16, 8> p;", "utils::fast_pimpl<I, %s> p;" % bad, imp)
        add("pimpl-arg-" + why, FP, use, "utils::fast_pimpl<I, 16, 8> p(I{});", "utils::fast_pimpl<I, %s> p(I{});" % bad, imp)
        add("pimpl-fwd-" + why, FP, use, "utils::fast_pimpl<I, 16, 8> p(utils::forwarding_constructor{});", "utils::fast_pimpl<I, %s> p(utils::forwarding_constructor{});" % bad, imp)
    al = "struct alignas(32) I { char c[32]; };\n"
    add("pimpl-overaligned", FP, use, "utils::fast_pimpl<I, 32, 32> p;", "utils::fast_pimpl<I, 32, 16> p;", al)
    add("pimpl-no-ctor", FP, "struct I { I(int*); int* p; };\nvoid f() { @ }\n", "int* q{}; utils::fast_pimpl<I, 8, 8> p(utils::forwarding_constructor{}, q);", "utils::fast_pimpl<I, 8, 8> p(utils::forwarding_constructor{}, 1.5);")
    add("pimpl-no-default", FP, "struct I { I(int*); int* p; };\nvoid f(int* q) { @ }\n", "utils::fast_pimpl<I, 8, 8> p(utils::forwarding_constructor{}, q);", "utils::fast_pimpl<I, 8, 8> p;")
    # ------------------------------------------------------------------ timer
    dur = "using D = std::chrono::steady_clock::duration;\n"
    tim = dur + "void f() { long a = 0, b = 0; char c = 0; (void)a; (void)b; (void)c; @ }\n"
    add("timer-large", TM, tim, "utils::timer t([&a](auto&&...) noexcept { (void)a; });", "utils::timer t([&a, &b](auto&&...) noexcept { (void)a; (void)b; });")
    add("timer-9-bytes", TM, "struct F { char c[@]; void operator()(D) const noexcept; void operator()(const utils::timer&) const noexcept; };\nvoid f() { utils::timer t(F{}); }\n", "8", "9", "#include <chrono>\n" + dur)
    add("timer-overaligned", TM, "struct alignas(@) F { char c; void operator()(D) const noexcept; void operator()(const utils::details::timer<8, 64, std::chrono::steady_clock>&) const noexcept; };\nvoid f() { utils::details::timer<8, 64, std::chrono::steady_clock> t(F{}); }\n", "8", "16", "#include <chrono>\n" + dur)
    for what, mem in (("copy-ctor", "F(const F&) noexcept;"), ("dtor", "~F();"), ("move-ctor", "F(F&&) noexcept; F(const F&) = default;")):
        add("timer-bytes-" + what, TM, "struct F { int i; F() noexcept; @ void operator()(D) const noexcept; void operator()(const utils::timer&) const noexcept; };\nvoid f(F& x) { utils::timer t(x); }\n", "", mem, "#include <chrono>\n" + dur)
    add("timer-default", TM, tim, "utils::timer t([](auto&&...) noexcept {});", "utils::timer t;")
    two = dur + "void f() { utils::timer t([](auto&&...) noexcept {}); utils::timer u([](auto&&...) noexcept {}); @ }\n"
    add("timer-copy", TM, two, "utils::timer v(std::move(t));", "utils::timer v(t);")
    add("timer-copy-const", TM, two, "utils::timer v(std::move(t));", "utils::timer v(static_cast<const utils::timer&>(t));")
    add("timer-copy-assign", TM, two, "u = std::move(t);", "u = t;")
    add("timer-const-move", TM, two, "utils::timer v(std::move(t));", "utils::timer v(static_cast<const utils::timer&&>(t));")
    add("timer-callable", TM, tim, "utils::timer t([](auto&&...) noexcept {});", "utils::timer t([](int*) noexcept {});")
    add("timer-not-callable", TM, tim, "utils::timer t([](auto&&...) noexcept {});", "utils::timer t(5);")
    # -------------------------------------------------------------- clz / ctz
    for h, fnm in (("clz.h", "clz"), ("ctz.h", "ctz")):
        for t in ("signed char", "short", "int", "long", "long long", "bool", "float", "double", "char*", "std::byte", "const int", "E", "const bool", "volatile bool"):
            add("%s-%s" % (fnm, t.replace(" ", "-").replace("*", "p").replace("::", "-")), [h],
                "#include <cstddef>\nenum E : unsigned { e };\ntemplate <typename T> void g(T* p) { (void)utils::%s<T>(*p); }\nvoid f() { @ }\n" % fnm, "g<unsigned>(nullptr);", "g<%s>(nullptr);" % t)
    # ------------------------------------------------------------------ lists
    lst = "using L = utils::type_list<int, char, const int>;\n"
    for i in (3, 4, 1000):
        add("at-%d" % i, TL, lst + "using R = typename L::template at<@>;\nR* p;\n", "2", str(i))
        add("sublist-%d" % i, TL, lst + "using R = utils::sublist_t<L, @>;\nR* p;\n", "2, 1", "%d, 1" % i)
        add("exclude-%d" % i, TL, lst + "using R = utils::exclude_at_t<L, @>;\nR* p;\n", "2", str(i))
        add("value-at-%d" % i, VL, "using L = utils::value_list<1, 2, 3>;\nauto v = L::at<@>;\n", "2", str(i))
        add("value-at-t-%d" % i, VL, "using L = utils::value_list<1, 2, 3>;\nL::at_t<@> v{};\n", "2", str(i))
    for s in ("0, 4", "1, 3", "2, 2", "3, 1", "0, 1000", "4, 0"):
        add("sublist-" + s.replace(", ", "-"), TL, lst + "using R = utils::sublist_t<L, @>;\nR* p;\n", "1, 2", s)
    add("at-empty", TL, "using R = typename utils::type_list<@>::template at<0>;\nR* p;\n", "int", "")
    add("exclude-empty", TL, "using R = utils::exclude_at_t<utils::type_list<@>, 0>;\nR* p;\n", "int", "")
    add("value-at-empty", VL, "auto v = utils::value_list<@>::at<0>;\n", "1", "")
    add("at-predicate", TL, "#include <type_traits>\n" + lst + "using R = typename L::template at<@, std::is_const>;\nR* p;\n", "0", "1")
    for q in ("min", "max"):
        add("sizeof-index-%s" % q, TL, "constexpr auto v = utils::%s_sizeof_index_v<utils::type_list<@>>;\n" % q, "int", "")
        add("value-%s-empty" % q, VL, "constexpr auto v = utils::value_list<@>::%s<int>;\n" % q, "1", "")
        add("value-%s-type" % q, VL, "constexpr auto v = utils::value_list<1, 2>::%s<@>;\n" % q, "int", "long")
    add("concatenate-mixed", VL, "using R = utils::concatenate_t<utils::value_list<1>, @>;\nR* p;\n", "utils::value_list<2>", "utils::type_list<int>")
    add("concatenate-none", VL, "using R = utils::concatenate_t<@>;\nR* p;\n", "utils::value_list<2>", "")
    add("reversed-range", CM, "using R = utils::values_in_range_t<@>;\nR* p;\n", "3, 5", "5, 3")
    add("reversed-range-1", CM, "using R = utils::values_in_range_t<@>;\nR* p;\n", "3, 3", "3, 2")
    add("reversed-range-neg", CM, "using R = utils::values_in_range_t<@>;\nR* p;\n", "-1, 0", "0, -1")
    add("range-step-0", CM, "constexpr auto a = utils::make_array_from_range<@>();\n", "1, 5, 1", "1, 5, 0")
    add("range-step-neg", CM, "constexpr auto a = utils::make_array_from_range<@>();\n", "1, 5, 2", "1, 5, -1")
    # --------------------------------------------------------------- integers
    for s in ("shift_left", "shift_right"):
        for t in ("bool", "float", "double", "E", "int*", "const bool", "S"):
            add("%s-%s" % (s, t.replace(" ", "-").replace("*", "p")), CM, "enum E { e }; struct S { int i; };\nvoid f(@ v) { (void)utils::%s(v, 1); }\n" % s, "int", t)
            add("%s-ref-%s" % (s, t.replace(" ", "-").replace("*", "p")), CM, "enum E { e }; struct S { int i; };\nvoid f(@& v) { (void)utils::%s(v, 1); }\n" % s, "int", t)
    for t in ("float", "double", "E", "int*", "S"):
        n = t.replace("*", "p")
        pre = "enum E { e }; enum class F { e }; struct S { int i; operator int() const; };\n"
        add("div-num-" + n, CM, pre + "void f(@ v) { (void)utils::div(v, 2); }\n", "long", t)
        add("div-den-" + n, CM, pre + "void f(@ v) { (void)utils::div(2, v); }\n", "long", t)
        add("div-as-num-" + n, CM, pre + "void f(@ v) { (void)utils::div_as<long>(v, 2); }\n", "short", t)
        add("div-as-den-" + n, CM, pre + "void f(@ v) { (void)utils::div_as<long>(2, v); }\n", "short", t)
    for t in ("float", "double"):
        add("div-as-result-" + t, CM, "void f(int v) { (void)utils::div_as<@>(v, 2); }\n", "short", t)
    for a in ("uint_from_nbits_t", "fast_uint_from_nbits_t"):
        add(a + "-0", CM, "utils::%s<@> v;\n" % a, "1", "0")
        add(a + "-65", CM, "utils::%s<@> v;\n" % a, "63", "65")
        add(a + "-255", CM, "utils::%s<@> v;\n" % a, "63", "255")
        add(a + "-72", CM, "utils::%s<@> v;\n" % a, "63", "72")
    for a in ("uint_from_nbytes_t", "fast_uint_from_nbytes_t", "UInt", "FastUInt"):
        add(a + "-0", CM, "utils::%s<@> v;\n" % a, "1", "0")
        add(a + "-9", CM, "utils::%s<@> v;\n" % a, "7", "9")
    for t in ("int", "bool", "signed char", "const bool", "double"):
        add("nbits_occupied-" + t.replace(" ", "-"), CM, "void f(@ v) { (void)utils::nbits_occupied(v); }\n", "unsigned", t)
    for t in ("int", "signed char", "float"):
        add("greatest_divisor-" + t.replace(" ", "-"), CM, "void f(@ v) { (void)utils::greatest_divisor_that_is_power_of_2(v); }\n", "unsigned", t)
    for v in ("0", "3", "6", "12"):
        add("next_multiple_of-" + v, CM, "void f(unsigned v) { (void)utils::next_multiple_of<@>(v); }\n", "4", v)
    # --------------------------------------------------------------- bit_cast
    pre = "#include <cstdint>\nstruct NT { std::uint32_t v; NT(const NT&); NT() = default; }; struct NC { std::uint32_t v; NC() {} };\n"
    for to, frm in (("std::uint64_t", "float"), ("std::uint32_t", "double"), ("std::uint16_t", "float"), ("NT", "float"), ("std::uint32_t", "NT"), ("NC", "float"), ("char", "short")):
        add("bit_cast-%s-%s" % (to.replace("::", ""), frm.replace("::", "")), CM, pre + "template <typename T, typename F> void g(const F& v) { (void)utils::bit_cast<T>(v); }\nauto q = &g<@>;\n", "std::uint32_t, float", "%s, %s" % (to, frm))
    # ----------------------------------------------------------------- arrays
    add("concatenate-arrays", CM, "#include <array>\nvoid f(std::array<int, 2> a, std::array<@, 2> b) { (void)utils::concatenate_arrays(a, b); }\n", "int", "long")
    add("concatenate-not-array", CM, "#include <array>\nvoid f(std::array<int, 2> a, @ b) { (void)utils::concatenate_arrays(a, b); }\n", "std::array<int, 3>", "int")
    # ----------------------------------------------------------------- memory
    for t in ("int", "short", "std::uint64_t", "void*", "char16_t"):
        n = t.replace("*", "p").replace("::", "")
        add("memcpy-to-" + n, MEM, "#include <cstdint>\nvoid f(@* to, const char* from) { utils::memory::memcpy(to, from, 4); }\n", "unsigned char", t)
        add("memcpy-from-" + n, MEM, "#include <cstdint>\nvoid f(char* to, const @* from) { utils::memory::memcpy(to, from, 4); }\n".replace("const @*", "@ const*"), "std::byte", t)
    use = "void f(utils::memory::memory_resource& up, std::byte (&buf)[64]) { (void)up; (void)buf; @ }\n"
    mono = "utils::memory::monotonic_buffer_resource a(buf, &up), b(buf, &up); "
    simp = "utils::memory::simple_resource<4, 16> a(buf, 64, &up), b(buf, 64, &up); "
    for nm, hdr, decl, ty in (("mono", "memory/monotonic_buffer_resource.h", mono, "utils::memory::monotonic_buffer_resource"), ("simple", "memory/simple_resource.h", simp, "utils::memory::simple_resource<4, 16>")):
        add("copy-" + nm, [hdr], use, decl + "%s& c(a);" % ty, decl + "%s c(a);" % ty)
        add("move-" + nm, [hdr], use, decl + "%s& c(a);" % ty, decl + "%s c(static_cast<%s&&>(a));" % (ty, ty))
        add("assign-" + nm, [hdr], use, decl + "(void)(a == b);", decl + "a = b;")
        add("move-assign-" + nm, [hdr], use, decl + "(void)(a == b);", decl + "a = static_cast<%s&&>(b);" % ty)
    add("simple-default", ["memory/simple_resource.h"], use, "utils::memory::simple_resource<4, 16> a(buf, 64, &up);", "utils::memory::simple_resource<4, 16> a;")
    for nm, w in (("system", "system_memory_resource"), ("null", "null_memory_resource")):
        add("base-copy-" + nm, MEM, "void f() { @ }\n", "auto& r = *utils::memory::%s(); (void)r;" % w, "auto r = *utils::memory::%s(); (void)r;" % w)
    thr = "struct T { T(int) noexcept; T(char*); T(const T&) noexcept; };\nvoid f(utils::memory::allocator<int> a) { (void)a.new_object<T>(@); }\n"
    add("new_object-throwing", ALC, thr, "1", "static_cast<char*>(nullptr)")
    add("new_object-throwing-default", ALC, "struct T { T() noexcept(@); };\nvoid f(utils::memory::allocator<int> a) { (void)a.new_object<T>(); }\n", "true", "false")
    add("new_object-throwing-copy", ALC, "struct T { T() noexcept; T(const T&) noexcept(@); };\nvoid f(utils::memory::allocator<int> a, const T& t) { (void)a.new_object<T>(t); }\n", "true", "false")
    add("new_object-no-ctor", ALC, "struct T { T(int*) noexcept; };\nvoid f(utils::memory::allocator<int> a) { (void)a.new_object<T>(@); }\n", "nullptr", "2.5")
    add("allocator-assign", ALC, "void f(utils::memory::allocator<int> a, utils::memory::allocator<int> b) { @ }\n", "(void)(a == b);", "a = b;")
    return c


# --------------------------------------------------------------------- P08
def p08(tier, seed):
    rng = random.Random(seed + 8)
    big = tier == "thorough"
    o = Out("""#include <utils/common.h>
#include <cstdint>
#include <cstddef>
#include <array>
#include <tuple>
#include <functional>
#include <vector>
#include <string>
using namespace utils;
struct S3 { char c[3]; }; struct S17 { char c[17]; }; struct alignas(32) SA { char c; }; enum class E8 : unsigned char { a }; enum EU : unsigned { b }; union U8 { long l; char c; };
using VP = void*;
template <typename A, typename B> inline constexpr bool X = std::is_same_v<A, B>;
#define W static_assert
""")
    for n in range(1, 65):
        w = 8 if n <= 8 else 16 if n <= 16 else 32 if n <= 32 else 64
        o.w("uint_from_nbits", "X<uint_from_nbits_t<%d>, std::uint%d_t> && X<typename uint_from_nbits<%d>::type, std::uint%d_t>" % (n, w, n, w), "%d bits" % n)
        o.w("fast_uint_from_nbits", "X<fast_uint_from_nbits_t<%d>, std::uint_fast%d_t> && X<typename fast_uint_from_nbits<%d>::type, std::uint_fast%d_t>" % (n, w, n, w), "%d bits" % n)
    for n in range(1, 9):
        w = 8 if n <= 1 else 16 if n <= 2 else 32 if n <= 4 else 64
        o.w("uint_from_nbytes", "X<uint_from_nbytes_t<%d>, std::uint%d_t> && X<UInt<%d>, std::uint%d_t> && X<fast_uint_from_nbytes_t<%d>, std::uint_fast%d_t> && X<FastUInt<%d>, std::uint_fast%d_t>" % (n, w, n, w, n, w, n, w), "%d bytes" % n)
    counts = set([1, 2, 3, 4, 5, 7, 8, 9, 127, 128, 200, 255, 256, 257, 2**15, 2**16 - 1, 2**16, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1] + [2**k for k in range(64)] + [2**k - 1 for k in range(1, 65)])
    for i, c in enumerate(sorted(counts)):
        nb = c.bit_length()
        w = 8 if nb <= 8 else 16 if nb <= 16 else 32 if nb <= 32 else 64
        und = "std::uint64_t" if c >= 2**31 else rng.choice(["int", "unsigned", "std::uint64_t", "long"] + (["std::uint8_t"] if c < 256 else []))
        o.raw("enum class C%d : %s { x, Count = %dull };" % (i, und, c))
        o.w("enum_properties", "enum_properties<C%d>::numBits == %d && X<typename enum_properties<C%d>::SerializeT, std::uint%d_t> && X<decltype(to_underlying(C%d::x)), %s> && to_underlying(C%d::Count) == %dull" % (i, nb, i, w, i, und, i, c), "Count %d" % c)
    size = {"bool": (1, 1), "char": (1, 8), "signed char": (1, 8), "unsigned char": (1, 8), "short": (2, 16), "unsigned short": (2, 16), "int": (4, 32), "unsigned": (4, 32), "long": (8, 64), "unsigned long long": (8, 64), "float": (4, 32), "double": (8, 64),
            "void*": (8, 64), "S3": (3, 24), "S17": (17, 136), "SA": (32, 256), "E8": (1, 8), "U8": (8, 64), "std::byte": (1, 8), "char32_t": (4, 32), "std::array<int, 5>": (20, 160), "int[3]": (12, 96), "std::nullptr_t": (8, 64)}
    for t, (s, n) in size.items():
        o.w("num_bits", "num_bits<%s>() == %d" % (t, n), t)
    names = ["bool", "char", "short", "int", "S3", "double"]
    tuples = [t for k in range(1, 5) for t in itertools.product(names, repeat=k)]
    if not big:
        tuples = [t for t in tuples if len(t) < 4] + rng.sample([t for t in tuples if len(t) == 4], 150)
    tuples += [("bool",) * k for k in range(1, 34)] + [tuple(rng.choice(list(size)) for _ in range(rng.randint(5, 20))) for _ in range(60)]
    for t in tuples:
        o.w("sum_size", "sum_size<%s>() == %d" % (", ".join(t), (sum(size[x][1] for x in t) + 7) // 8), "sum_size of " + ", ".join(t[:6]))
    o.raw("template <std::size_t S, int = 0> struct Z { char c[S]; };")
    for n in (2**8 - 1, 2**8, 2**13 - 1, 2**13, 2**16 - 1, 2**16, 2**28, 2**29 - 1, 2**29, 2**29 + 1, 2**31, 2**32, 2**33 + 1, 2**40):
        o.w("num_bits", "num_bits<Z<%dull>>() == %dull" % (n, 8 * n), "%d bytes" % n)
        o.w("sum_size", "sum_size<Z<{0}ull>>() == {0}ull && sum_size<Z<{0}ull>, bool>() == {1}ull && sum_size<bool, Z<{0}ull>, Z<{0}ull, 1>, int>() == {2}ull".format(n, n + 1, 2 * n + 5), "%d bytes" % n)
        for m in (n % 2**8, n % 2**16, n % 2**32, n + 1, n + 2**8, n + 2**16, n + 2**32):
            if m and m != n:
                o.w("is_equal_sizes", "!is_equal_sizes_v<Z<{0}ull>, Z<{1}ull>> && !is_equal_sizes<Z<{1}ull>, Z<{0}ull>>::value && is_equal_sizes_v<Z<{0}ull>, Z<{0}ull, 1>> && !is_equal_sizes_v<Z<{0}ull>, Z<{0}ull, 1>, Z<{1}ull>>".format(n, m), "%d and %d bytes" % (n, m))
    for k in list(range(34, 80)) + [100, 127, 128, 129, 200, 255, 256]:
        o.w("sum_size", "sum_size<%s>() == %d && sum_size<%s>() == %d" % (", ".join(["bool"] * k), (k + 7) // 8, ", ".join(["bool", "int"] * (k // 2)), (33 * (k // 2) + 7) // 8), "%d types" % k)
        o.w("is_equal_sizes", "is_equal_sizes_v<%s> && !is_equal_sizes_v<%s, short>" % (", ".join(["int"] * k), ", ".join(["int"] * (k - 1))), "%d types" % k)
    o.w("sum_size", "sum_size<%s>() == %d" % (", ".join(["S17"] * 29 + ["SA"]), 29 * 17 + 32), "more than 255 bytes")
    # traits
    zoo = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "std::byte", "E8", "EU", "S3", "VP", "U8", "std::nullptr_t", "char16_t", "char32_t", "wchar_t", "std::size_t", "std::uintptr_t"]
    uints = {"unsigned char", "unsigned short", "unsigned", "unsigned long", "unsigned long long", "char16_t", "char32_t", "std::size_t", "std::uintptr_t"}
    for t in zoo:
        for q in ("", "const ", "volatile ", "const volatile "):
            u = t in uints
            o.w("is_uint", "is_uint_v<%s%s> == %s && is_uint<%s%s>::value == %s" % (q, t, b(u), q, t, b(u)), q + t)
            u = u or t == "std::byte"
            o.w("is_uint_or_byte", "is_uint_or_byte_v<%s%s> == %s && is_uint_or_byte<%s%s>::value == %s" % (q, t, b(u), q, t, b(u)), q + t)
        for r in ("*", "&", "&&", "[2]"):
            o.w("is_uint", "!is_uint_v<%s%s> && !is_uint_or_byte_v<%s%s>" % (t, r, t, r), t + r)
        for q, r in itertools.product(("", "const ", "volatile ", "const volatile "), ("", "&", "&&")):
            o.w("remove_cvref", "X<remove_cvref_t<%s%s%s>, %s> && X<typename remove_cvref<%s%s%s>::type, %s>" % (q, t, r, t, q, t, r, t), q + t + r)
    o.w("remove_cvref", "X<remove_cvref_t<const int* const&>, const int*> && X<remove_cvref_t<const int (&)[3]>, int[3]> && X<remove_cvref_t<void>, void> && X<remove_cvref_t<void (&)()>, void()>", "compound types")
    es = {"char": 1, "short": 2, "int": 4, "unsigned": 4, "float": 4, "long": 8, "double": 8, "S3": 3, "int&": 4, "const int": 4, "E8": 1}
    for k in range(1, 5):
        for t in itertools.product(es, repeat=k) if k < 3 else [tuple(rng.choice(list(es)) for _ in range(k)) for _ in range(80)] + [tuple(rng.choice(["int", "unsigned", "float", "int&"]) for _ in range(k)) for _ in range(20)]:
            o.w("is_equal_sizes", "is_equal_sizes_v<%s> == %s && is_equal_sizes<%s>::value == %s" % (", ".join(t), b(len(set(es[x] for x in t)) == 1), ", ".join(t), b(len(set(es[x] for x in t)) == 1)), ", ".join(t))
    o.w("is_equal_sizes", "is_equal_sizes_v<>", "no types")
    for t, y in (("std::array<int, 3>", 1), ("std::array<int, 0>", 1), ("std::array<std::array<char, 2>, 3>", 1), ("int[3]", 0), ("int", 0), ("std::vector<int>", 0), ("std::tuple<int, int>", 0), ("std::pair<int, int>", 0), ("std::string", 0), ("void", 0), ("std::array<int, 2>*", 0), ("S3", 0)):
        o.w("is_std_array", "is_std_array_v<%s> == %s" % (t, b(y)), t)
        if t != "void":
            o.w("is_std_array", "is_std_array_v<const %s> == %s && is_std_array_v<%s&> == %s && is_std_array_v<const %s&> == %s && is_std_array_v<%s&&> == %s" % (t, b(y), t if "[" not in t else "S3", b(y), t if "[" not in t else "S3", b(y), t if "[" not in t else "S3", b(y)), "qualified " + t)
    o.w("std_array", "std_array_size_v<std::array<char, 7>> == 7 && std_array_size_v<const std::array<char, 7>&> == 7 && X<std_array_data_t<const std::array<long, 2>&>, long> && std_array_sizes_sum<std::array<int, 2>, std::array<int, 5>&> == 7 && std_array_sizes_sum<> == 0 && is_same_data_std_arrays<std::array<int, 1>, const std::array<int, 2>&> && !is_same_data_std_arrays<std::array<int, 1>, std::array<long, 1>>", "array helpers")
    for t, y in (("std::tuple<>", 1), ("std::tuple<int>", 1), ("std::tuple<int&, char>", 1), ("std::tuple<std::tuple<>>", 1), ("std::pair<int, int>", 0), ("std::array<int, 2>", 0), ("int", 0), ("void", 0), ("std::tuple<int>*", 0), ("std::vector<std::tuple<>>", 0)):
        o.w("is_tuple", "is_tuple_v<%s> == %s && is_tuple<%s>::value == %s" % (t, b(y), t, b(y)), t)
    o.w("is_tuple", "!is_tuple_v<> && !is_tuple_v<std::tuple<>, std::tuple<>> && !is_tuple_v<std::tuple<int>, int>", "packs")
    for t, y, u in (("std::reference_wrapper<int>", 1, "int&"), ("std::reference_wrapper<const S3>", 1, "const S3&"), ("std::reference_wrapper<void()>", 1, "void(&)()"), ("int", 0, "int"), ("int&", 0, "int&"), ("const int", 0, "const int"), ("std::tuple<int&>", 0, "std::tuple<int&>"), ("std::reference_wrapper<std::reference_wrapper<int>>", 1, "std::reference_wrapper<int>&"), ("std::vector<std::reference_wrapper<int>>", 0, "std::vector<std::reference_wrapper<int>>"), ("int*", 0, "int*")):
        o.w("ref_wrapper", "is_ref_wrapper_v<%s> == %s && is_ref_wrapper<%s>::value == %s && X<unwrap_reference_t<%s>, %s> && X<typename unwrap_reference<%s>::type, %s>" % (t, b(y), t, b(y), t, u, t, u), t)
    return [("p08", o)]


# --------------------------------------------------------------------- P09
LEAF = {"char": (1, 1), "bool": (1, 1), "std::uint8_t": (1, 1), "En": (1, 1), "short": (2, 2), "int": (4, 4), "float": (4, 4), "long": (8, 8), "double": (8, 8), "void*": (8, 8), "int (*%s)()": (8, 8), "std::uint16_t": (2, 2)}


def p09(tier, seed):
    rng = random.Random(seed + 9)
    big = tier == "thorough"
    o = Out("""#include <utils/padding_checker.h>
#include <array>
#include <cstdint>
#include <string>
#include <tuple>
#include <memory>
using utils::has_padding_v;
enum En : unsigned char { e }; using FP = int (*)();
#define W static_assert
""")
    known = []   # name, size, align, leaves
    k = 0

    def declare(fields, al=0):
        """fields: (type text, size, align, leaf bytes)"""
        nonlocal k
        off, amax, leaves = 0, max(al, 1), 0
        for t, s, a, l in fields:
            off = (off + a - 1) // a * a + s
            amax = max(amax, a)
            leaves += l
        size = max(1, (off + amax - 1) // amax * amax)
        name = "T%d" % k
        k += 1
        o.raw("struct %s%s { %s };" % ("alignas(%d) " % al if al else "", name, " ".join("%s f%d;" % (f[0], i) for i, f in enumerate(fields))))
        o.w("layout", "sizeof(%s) == %d" % (name, size), "layout of " + name)
        body = "; ".join(f[0] for f in fields)
        o.w("has_padding", "has_padding_v<%s> == %s && utils::has_padding<%s>::value == %s" % (name, b(size != leaves), name, b(size != leaves)), "{%s}%s" % (body[:80], " alignas %d" % al if al else ""))
        known.append((name, size, amax, leaves))

    leaf = lambda t: (t.replace("int (*%s)()", "FP"), LEAF[t][0], LEAF[t][1], LEAF[t][0])
    small = ["char", "short", "int", "double"]
    for n in range(0, 5 if big else 4):
        for f in itertools.product(small, repeat=n):
            declare([leaf(t) for t in f])
    for t, (s, a) in LEAF.items():
        t = t.replace("int (*%s)()", "FP")
        o.w("has_padding", "!has_padding_v<%s> && !has_padding_v<const %s>" % (t, t), t)
    for al in (1, 2, 4, 8, 16, 32, 64):
        for f in (["char"], ["int"], ["int", "int"], ["char", "char", "short"], ["double", "double"], ["int", "short", "char", "char"], ["int"] * 8):
            if max(LEAF[x][1] for x in f) <= al:
                declare([leaf(x) for x in f], al)

    def field(depth):
        r = rng.random()
        if r < 0.55 or depth == 0:
            return leaf(rng.choice(list(LEAF)))
        if r < 0.8:
            n, s, a, l = rng.choice(known)
            return (n, s, a, l)
        t, s, a, l = field(depth - 1)
        c = rng.choice([1, 2, 3, 5])
        return ("std::array<%s, %d>" % (t, c), s * c, a, l * c)

    for _ in range(250 if not big else 1200):
        fields = [field(2) for _ in range(rng.randint(1, 6))]
        al = rng.choice([0, 0, 16, 32]) if rng.random() < 0.2 else 0
        declare(fields, al if al >= max(f[2] for f in fields) else 0)
    # often packed tightly: only equal alignments
    for _ in range(60 if not big else 300):
        dense = [x for x in known if x[1] == x[3]]
        n, s, a, l = rng.choice(dense)
        declare([rng.choice([(n, s, a, l), ("std::array<%s, 2>" % n, 2 * s, a, 2 * l)]) for _ in range(rng.randint(1, 4))])
    # how a member is declared does not change what it occupies
    forms = [("initialized", "%s f%d{};", 0), ("const", "const %s f%d;", 0), ("const initialized", "const %s f%d{};", 0), ("alignas(1)", "%s f%d;", 0), ("deleted default constructor", "%s f%d;", "{n}() = delete;"),
             ("defaulted", "%s f%d;", "{n}() = default; {n}(const {n}&) = default;"), ("with a static member", "%s f%d;", "static int s; static constexpr long t = 1;"), ("with functions", "%s f%d;", "int get() const; void set(int); static void make(); bool operator==(const {n}&) const;"),
             ("with a nested type", "%s f%d;", "struct inner {{ char c; long l; }}; using alias = int; enum e {{ a, b }};"), ("mixed", "%s f%d{};", "int get() const;"), ("assignment deleted", "%s f%d;", "{n}& operator=(const {n}&) = delete;")]
    sample = [["char"], ["int", "int"], ["char", "int"], ["int", "char"], ["short", "short", "int"], ["double", "int"], ["void*", "long"], ["En", "bool", "short"], ["char", "short", "char"], ["std::uint16_t", "float", "char", "char"]]
    for what, form, extra in forms:
        for f in sample:
            name = "T%d" % k
            k += 1
            off, am = 0, 1
            for x in f:
                sz, a = LEAF[x]
                off, am = (off + a - 1) // a * a + sz, max(am, a)
            size = (off + am - 1) // am * am
            o.raw("struct %s { %s %s };" % (name, " ".join(form % (x, i) for i, x in enumerate(f)), extra.format(n=name) if extra else ""))
            y = b(size != sum(LEAF[x][0] for x in f))
            o.w("has_padding", "has_padding_v<{0}> == {1} && has_padding_v<const {0}> == {1}".format(name, y), "%s, %s" % (what, f))
            # and as a member
            o.raw("struct M%s { %s a; %s b; };" % (name, name, name))
            o.w("has_padding", "has_padding_v<M%s> == %s" % (name, y), "member %s, %s" % (what, f))
            o.w("has_padding", "has_padding_v<std::array<%s, 3>> == %s" % (name, y), "array of %s, %s" % (what, f))
    o.raw("struct Cls { int a; }; enum class EL : long long { a }; using MP = int Cls::*; using MF = void (Cls::*)(int); using CP = const char*;")
    wide = {"long double": 16, "__int128": 16, "unsigned __int128": 16, "char16_t": 2, "char32_t": 4, "wchar_t": 4, "std::nullptr_t": 8, "MP": 8, "MF": 16, "EL": 8, "CP": 8, "signed char": 1, "unsigned long long": 8, "std::byte": 1}
    for t, sz in wide.items():
        al = 8 if t == "MF" else sz
        o.w("has_padding", "!has_padding_v<%s> && !has_padding_v<const %s>" % (t, t), t)
        o.raw("struct W%d { %s a; %s b; }; struct X%d { char a; %s b; }; struct Y%d { %s a; char b; };" % (k, t, t, k, t, k, t))
        o.w("has_padding", "!has_padding_v<W%d> && has_padding_v<X%d> == %s && has_padding_v<Y%d> == %s" % (k, k, b(al > 1), k, b(al > 1)), t + " members")
        k += 1
    for n in (1, 2, 15, 16, 17, 63, 64, 65) + ((90, 99) if big else ()):
        o.raw("struct B%d { %s }; struct D%d { %s char z; };" % (n, " ".join("int f%d;" % i for i in range(n)), n, " ".join("int f%d;" % i for i in range(n))))
        o.w("has_padding", "!has_padding_v<B{0}> && has_padding_v<D{0}> && !has_padding_v<std::array<char, {0}>> && !has_padding_v<std::array<B{0}, 2>> && has_padding_v<std::array<D{0}, 2>>".format(n), "%d members" % n)
    o.raw("struct G1 { std::array<double, 40> a; std::array<char, 8> c; }; struct G2 { std::array<double, 40> a; std::array<char, 7> c; }; struct G3 { G1 g; std::array<std::array<int, 10>, 10> m; }; struct G4 { G2 g; std::array<std::array<int, 10>, 10> m; };")
    o.w("has_padding", "sizeof(G1) == 328 && sizeof(G2) == 328 && !has_padding_v<G1> && has_padding_v<G2> && !has_padding_v<G3> && has_padding_v<G4> && !has_padding_v<std::array<G3, 3>> && has_padding_v<std::array<G4, 3>>", "more than 255 bytes")
    # nested: the padded or the tight member at the beginning, in the middle, at the end, and deep inside
    o.raw("struct Tight { int a; int b; }; struct Loose { int a; char b; };")
    for i in range(5):
        for inner in ("Tight", "Loose"):
            m = ["%s f%d;" % (inner if j == i else "Tight", j) for j in range(5)]
            o.raw("struct Ne%d%s { %s };" % (i, inner, " ".join(m)))
            o.w("has_padding", "has_padding_v<Ne%d%s> == %s" % (i, inner, b(inner == "Loose")), "member %d is %s" % (i, inner))
    for inner in ("Tight", "Loose"):
        t = inner
        for d in range(1, 7):
            o.raw("struct De%d%s { Tight a; %s b; };" % (d, inner, t))
            t = "De%d%s" % (d, inner)
            o.w("has_padding", "has_padding_v<%s> == %s" % (t, b(inner == "Loose")), "%s at depth %d" % (inner, d))
    o.raw("""struct Copies { int a; Copies(const Copies&); Copies& operator=(const Copies&); }; struct Virt { virtual ~Virt(); int a; }; struct Str { std::string s; }; struct Uniq { std::unique_ptr<int> p; int* q; };
struct Dtor { int a; ~Dtor(); }; struct HoldsDtor { Dtor d; int b; };""")
    for t in ("Copies", "Virt", "Str", "Uniq", "Dtor", "HoldsDtor", "std::string", "std::tuple<int, int>", "std::tuple<char, int>", "std::unique_ptr<int>", "std::array<std::string, 2>"):
        o.w("not_trivially_copyable", "has_padding_v<%s> && utils::has_padding<%s>::value" % (t, t), t)
    return [("p09", o)]


# --------------------------------------------------------------------- P16
def p16(tier, seed):
    rng = random.Random(seed + 16)
    big = tier == "thorough"
    o = Out("""#include <utils/common.h>
#include <array>
#include <climits>
#include <string_view>
using namespace utils;
template <typename A, typename B> inline constexpr bool X = std::is_same_v<A, B>;
template <typename A, std::size_t N> constexpr bool eq(const A& a, const typename A::value_type (&b)[N]) { if (a.size() != N) return false; for (std::size_t i = 0; i < N; ++i) if (!(a[i] == b[i])) return false; return true; }
template <typename A> constexpr bool all(const A& a, typename A::value_type v) { for (std::size_t i = 0; i < a.size(); ++i) if (!(a[i] == v)) return false; return true; }
inline constexpr int ci = 5; inline constexpr std::string_view sv = "0123456789abcdefghijklmnopqrstuvwxyz";
#define W static_assert
""")
    o.w("make_array", "X<decltype(make_array(1, 2)), std::array<int, 2>> && X<decltype(make_array(1, 2L)), std::array<long, 2>> && X<decltype(make_array('a')), std::array<char, 1>> && X<decltype(make_array(ci, ci)), std::array<int, 2>> && X<decltype(make_array<int>()), std::array<int, 0>> && X<decltype(make_array<long, 4>(1)), std::array<long, 4>>", "types")
    for _ in range(60 if not big else 200):
        n = rng.randint(1, 12)
        l = [rng.randint(-1000, 1000) for _ in range(n)]
        s = ", ".join(map(str, l))
        o.w("make_array", "eq(make_array(%s), {%s})" % (s, s), s)
    for n in list(range(1, 10)) + [31, 64, 200]:
        v = rng.randint(-10**6, 10**6)
        o.w("make_array_value", "X<decltype(make_array<int, {0}>({1})), std::array<int, {0}>> && all(make_array<int, {0}>({1}), {1}) && all(make_array<int, {0}>(), 0) && all(make_zero_array<long, {0}>(), 0) && X<decltype(make_zero_array<long, {0}>()), std::array<long, {0}>>".format(n, v), "%d values" % n)
    o.w("make_array_value", "X<decltype(make_array<int, 0>(7)), std::array<int, 0>> && X<decltype(make_zero_array<int, 0>()), std::array<int, 0>>", "no values")
    for n in list(range(0, 12)) + [20, 36]:
        if n:
            o.w("make_array_sv", "eq(make_array<%d, char>(sv), {%s}) && X<decltype(make_array<%d, char>(sv)), std::array<char, %d>>" % (n, ", ".join("'%s'" % c for c in "0123456789abcdefghijklmnopqrstuvwxyz"[:n]), n, n), "%d characters" % n)
            idx = [rng.randint(0, 35) for _ in range(n)]
            o.w("sv_to_array", "eq(sv_to_array<%s>(sv), {%s})" % (", ".join(map(str, idx)), ", ".join("'%s'" % "0123456789abcdefghijklmnopqrstuvwxyz"[i] for i in idx)), "%d characters" % n)
        else:
            o.w("make_array_sv", "X<decltype(make_array<0, char>(sv)), std::array<char, 0>> && X<decltype(sv_to_array<>(sv)), std::array<char, 0>>", "no characters")
    o.w("make_array_sv", "X<decltype(make_array<3, int>(sv)), std::array<int, 3>> && eq(make_array<2, int>(sv), {48, 49})", "converted characters")

    def rng_w(t, a, z, st, cast=""):
        vals = list(range(a, z + 1, st))
        c = lambda v: "%s(%d%s)" % (t if " " not in t else "(%s)" % t, v, "ull" if v > 2**63 - 1 else "ll" if abs(v) > 2**31 - 1 else "") if t != "int" or v != -2**31 else "INT_MIN"
        o.w("make_array_from_range", "X<decltype(make_array_from_range<{a}, {z}, {s}>()), std::array<{t}, {n}>> && eq(make_array_from_range<{a}, {z}, {s}>(), {{{v}}})".format(a=c(a), z=c(z), s=st, t=t, n=len(vals), v=", ".join(map(c, vals))), "%s %d..%d step %d" % (t, a, z, st))

    for a in range(-3, 4):
        for z in range(a, a + 8):
            for st in range(1, 5):
                rng_w("int", a, z, st)
    for t, lo, hi in (("unsigned char", 0, 255), ("signed char", -128, 127), ("short", -2**15, 2**15 - 1), ("unsigned short", 0, 2**16 - 1), ("int", -2**31, 2**31 - 1), ("unsigned", 0, 2**32 - 1), ("long", -2**63 + 1, 2**63 - 1), ("unsigned long", 0, 2**64 - 1)):
        for st in (1, 2, 3, 7):
            # Begin + Step has to be a value of the promoted type
            for k in (0, 1, 3, 6, 20):
                if k >= st or k == 0:
                    rng_w(t, hi - k, hi, st)
                    rng_w(t, lo, lo + k, st)
        for _ in range(6):
            a = rng.randint(lo, hi - 100) if hi - lo > 200 else rng.randint(lo, 0)
            rng_w(t, a, a + rng.randint(0, 60), 1)
    rng_w("unsigned char", 0, 255, 1)
    rng_w("signed char", -128, 127, 1)
    for _ in range(60 if not big else 200):
        parts = [[rng.randint(-99, 99) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 6))]
        o.w("concatenate_arrays", "eq(concatenate_arrays(%s), {%s})" % (", ".join("std::array<int, %d>{%s}" % (len(p), ", ".join(map(str, p))) for p in parts), ", ".join(str(x) for p in parts for x in p)), "%s elements" % [len(p) for p in parts])
    o.w("concatenate_arrays", "X<decltype(concatenate_arrays(std::declval<const std::array<int, 2>&>(), std::declval<std::array<int, 3>>())), std::array<int, 5>> && X<decltype(concatenate_arrays(std::declval<std::array<char, 4>&>())), std::array<char, 4>>", "types")
    return [("p16c", o)]


# --------------------------------------------------------------------- P19
def p19(tier, seed):
    o = Out("""#include <utils/fast_pimpl.h>
#include <type_traits>
#include <utility>
using utils::fast_pimpl; using utils::forwarding_constructor;
#define W static_assert
""")
    for k, (d, i, lv, rv, c, m, ca, ma) in enumerate(itertools.product((True, False), repeat=8)):
        if tier == "quick" and not (lv != rv or (d and i and c and m and ca and ma)) and k % 4:
            continue
        n = "I%d" % k
        e = lambda x: "noexcept" if x else "noexcept(false)"
        o.raw("struct {n} {{ long v[3]; {n}() {0}; {n}(int) {1}; {n}(int, char&) {2}; {n}(int, char&&) {3}; {n}(const {n}&) {4}; {n}({n}&&) {5}; {n}& operator=(const {n}&) {6}; {n}& operator=({n}&&) {7}; }}; using P{k} = fast_pimpl<{n}, 24, 8>;"
              .format(e(d), e(i), e(lv), e(rv), e(c), e(m), e(ca), e(ma), n=n, k=k))
        P = "P%d" % k
        rows = [("default", d, "std::is_nothrow_default_constructible_v<%s>" % P), ("forward", i, "std::is_nothrow_constructible_v<%s, forwarding_constructor, int>" % P), ("forward-default", d, "std::is_nothrow_constructible_v<%s, forwarding_constructor>" % P),
                ("forward-lvalue", lv, "std::is_nothrow_constructible_v<%s, forwarding_constructor, int, char&>" % P), ("forward-rvalue", rv, "std::is_nothrow_constructible_v<%s, forwarding_constructor, int, char>" % P),
                ("forward-copy", c, "std::is_nothrow_constructible_v<%s, forwarding_constructor, const %s&>" % (P, n)), ("forward-move", m, "std::is_nothrow_constructible_v<%s, forwarding_constructor, %s>" % (P, n)),
                ("copy", c, "std::is_nothrow_copy_constructible_v<%s>" % P), ("move", m, "std::is_nothrow_move_constructible_v<%s>" % P), ("copy-T", c, "std::is_nothrow_constructible_v<%s, const %s&>" % (P, n)), ("copy-lvalue-T", c, "std::is_nothrow_constructible_v<%s, %s&>" % (P, n)), ("move-T", m, "std::is_nothrow_constructible_v<%s, %s>" % (P, n)),
                ("assign", ca, "std::is_nothrow_copy_assignable_v<%s>" % P), ("move-assign", ma, "std::is_nothrow_move_assignable_v<%s>" % P), ("assign-T", ca, "std::is_nothrow_assignable_v<%s&, const %s&>" % (P, n)), ("assign-lvalue-T", ca, "std::is_nothrow_assignable_v<%s&, %s&>" % (P, n)), ("move-assign-T", ma, "std::is_nothrow_assignable_v<%s&, %s>" % (P, n))]
        for w, x, cond in rows:
            o.w("noexcept-" + w, "%s == %s" % (cond, b(x)), "%s, operations %s" % (w, [d, i, lv, rv, c, m, ca, ma]))
        o.w("access", "noexcept(std::declval<{P}&>().get()) && noexcept(std::declval<const {P}&>().get()) && std::is_same_v<decltype(std::declval<{P}&>().get()), {n}&> && std::is_same_v<decltype(std::declval<const {P}&>().get()), const {n}&> && std::is_same_v<decltype(std::declval<{P}&>().operator->()), {n}*> && std::is_same_v<decltype(std::declval<const {P}&>().operator->()), const {n}*>".format(P=P, n=n), "access types")
    for s, a in ((1, 1), (2, 2), (3, 1), (8, 8), (24, 8), (16, 16), (64, 32), (40, 4)):
        o.raw("struct alignas(%d) L%d_%d { char c[%d]; };" % (a, s, a, s))
        o.w("layout", "sizeof(fast_pimpl<L{0}_{1}, {0}, {1}>) == {0} && alignof(fast_pimpl<L{0}_{1}, {0}, {1}>) == {1}".format(s, a), "size %d alignment %d" % (s, a))
    return [("p19n", o)]


# --------------------------------------------------------------------- P28
def p28(tier, seed):
    o = Out("""#include <utils/memory/allocator.h>
#include <string>
#include <memory>
#include <type_traits>
using namespace utils::memory;
struct S3 { char c[3]; }; struct alignas(64) Al { char c[64]; }; struct NoDef { NoDef(int&) noexcept; NoDef(std::unique_ptr<int>&&, const char*) noexcept; }; struct Abs { virtual void f() = 0; };
#define W static_assert
""")
    ts = ["char", "int", "double", "S3", "Al", "std::string", "NoDef", "std::byte", "void*", "const char*", "std::unique_ptr<int>", "allocator<int>", "Abs*"]
    for i, t in enumerate(ts):
        A = "allocator<%s>" % t
        o.raw("template class utils::memory::%s;" % A)
        o.w("value_type", "std::is_same_v<typename %s::value_type, %s>" % (A, t), t)
        o.w("signatures", "std::is_same_v<decltype(std::declval<{A}&>().allocate(1)), {t}*> && std::is_same_v<decltype(std::declval<{A}&>().allocate_bytes(1)), void*> && std::is_same_v<decltype(std::declval<{A}&>().allocate_bytes(1, 1)), void*> && std::is_same_v<decltype(std::declval<const {A}&>().resource()), memory_resource*> && noexcept(std::declval<{A}&>().allocate(1)) && noexcept(std::declval<{A}&>().deallocate(nullptr))".format(A=A, t=t), t)
        o.w("constructors", "std::is_nothrow_default_constructible_v<{A}> && std::is_nothrow_copy_constructible_v<{A}> && std::is_convertible_v<memory_resource*, {A}> && !std::is_copy_assignable_v<{A}>".format(A=A), t)
        for u in ts:
            o.w("convert", "std::is_convertible_v<allocator<{u}>, {A}> && std::is_nothrow_constructible_v<{A}, const allocator<{u}>&> && std::is_same_v<decltype(std::declval<const {A}&>() == std::declval<const allocator<{u}>&>()), bool> && std::is_same_v<decltype(std::declval<const {A}&>() != std::declval<const allocator<{u}>&>()), bool>".format(A=A, u=u), "%s from %s" % (t, u))
            if u not in ("Abs*",):
                o.w("objects", "std::is_same_v<decltype(std::declval<{A}&>().template allocate_object<{u}>()), {u}*> && std::is_same_v<decltype(std::declval<{A}&>().template allocate_object<{u}>(3)), {u}*> && std::is_same_v<decltype(std::declval<{A}&>().delete_object(std::declval<{u}*>())), void> && std::is_same_v<decltype(std::declval<{A}&>().deallocate_object(std::declval<{u}*>())), void>".format(A=A, u=u), "%s with %s" % (t, u))
    o.raw("""inline void uses(allocator<char> a, int& i, std::unique_ptr<int>& p, NoDef* n)
{
    (void)a.new_object<NoDef>(i);
    (void)a.new_object<NoDef>(std::move(p), "x");
    (void)a.new_object<std::unique_ptr<int>>(std::move(p));
    (void)a.new_object<std::unique_ptr<int>>();
    (void)a.new_object<int>(5); (void)a.new_object<const char*>("s"); (void)a.new_object<S3>(); (void)a.new_object<S3>(S3{});
    a.construct(n, i); a.construct(n, std::move(p), "y"); a.delete_object(n); a.delete_object(&p);
    allocator<std::string> s = a; allocator<void*> v(s); (void)(s == a); (void)(a != v);
}""")
    return [("p28i", o)]


# --------------------------------------------------------------------- P31
def p31(tier, seed):
    o = Out("""#include <utils/timer.h>
#include <chrono>
#include <ratio>
#include <type_traits>
using T = utils::timer;
namespace ch = std::chrono;
template <typename A, typename B> inline constexpr bool X = std::is_same_v<A, B>;
#define W static_assert
""")
    o.w("steady", "T::clock::is_steady", "the clock of the timer never goes back")
    o.w("time_point", "X<T::time_point, std::chrono::time_point<T::clock>>", "readings are those of the clock")
    o.w("duration", "X<T::duration, T::clock::duration>", "elapsed time has the resolution of the clock")
    o.w("ticks", "std::is_integral_v<T::duration::rep> && std::is_signed_v<T::duration::rep> && sizeof(T::duration::rep) >= 8", "elapsed time is counted in whole ticks")
    o.w("resolution", "std::ratio_less_equal_v<T::duration::period, std::micro>", "a tick is at most a microsecond")
    for f, d in (("leaked()", "T::duration"), ("leaked_sec()", "ch::seconds"), ("leaked_milli_sec()", "ch::milliseconds"), ("leaked_micro_sec()", "ch::microseconds"),
                 ("leaked_nano_sec()", "ch::nanoseconds"), ("start_tp()", "T::time_point")):
        for q in ("T&", "const T&"):
            o.w("unit", "X<decltype(std::declval<%s>().%s), %s>" % (q, f, d), "%s of %s" % (f, q))
    return [("p31", o)]


# --------------------------------------------------------------------- P33
UINTS = (("std::uint8_t", 8), ("std::uint16_t", 16), ("std::uint32_t", 32), ("std::uint64_t", 64), ("unsigned long long", 64), ("unsigned char", 8), ("char16_t", 16), ("char32_t", 32))
INTS = (("signed char", 8, True), ("unsigned char", 8, False), ("short", 16, True), ("unsigned short", 16, False), ("int", 32, True), ("unsigned", 32, False), ("long", 64, True), ("unsigned long", 64, False),
        ("long long", 64, True), ("unsigned long long", 64, False))


def lit(v, t=None):
    if v == -2**63:
        s = "(-0x7fffffffffffffffll - 1)"
    else:
        s = "%d%s" % (v, "ull" if v >= 2**63 else "ll" if abs(v) > 2**31 - 1 else "")
    return "static_cast<%s>(%s)" % (t, s) if t else s


def common(a, b_):
    """the common type of two entries of INTS"""
    pro = lambda x: ("int", 32, True) if x[1] < 32 else x
    if a == b_:
        return a
    a, b_ = pro(a), pro(b_)
    if a == b_:
        return a
    rank = {"int": 0, "unsigned": 0, "long": 1, "unsigned long": 1, "long long": 2, "unsigned long long": 2}
    if a[2] == b_[2]:
        return a if rank[a[0]] > rank[b_[0]] else b_
    u, s = (a, b_) if not a[2] else (b_, a)
    if rank[u[0]] >= rank[s[0]]:
        return u
    if s[1] > u[1]:
        return s
    return ("unsigned " + s[0],) + (s[1], False) if s[0] != "int" else ("unsigned", 32, False)


def wrap(v, t):
    v &= (1 << t[1]) - 1
    return v - (1 << t[1]) if t[2] and v >> (t[1] - 1) else v


def p33(tier, seed):
    rng = random.Random(seed + 33)
    big = tier == "thorough"
    pre = """#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>
#include <utils/memory/memory.h>
#include <array>
#include <climits>
#include <string_view>
using namespace utils;
template <typename A, typename B> inline constexpr bool X = std::is_same_v<A, B>;
#define W static_assert
"""
    o = Out(pre)

    def corner(n):
        c = {1, 2, 3, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1}
        c |= {1 << k for k in range(n)} if big or n <= 16 else {1 << k for k in (7, 8, 15, 16, 31, 32, 33, 62) if k < n}
        c |= {rng.getrandbits(n) or 1 for _ in range(8)}
        c |= {((rng.getrandbits(n) | 1) << k) & ((1 << n) - 1) for k in range(0, n, 5)}
        return sorted(v for v in c if 0 < v < 1 << n)

    o.w("div_t", "X<decltype(utils::div_t{1, 2}), utils::div_t<int>> && X<decltype(utils::div_t{(short)1, 2L}), utils::div_t<long>> && X<decltype(utils::div_t{1u, 2}), utils::div_t<unsigned>> && X<decltype(utils::div_t{(short)1, (short)2}), utils::div_t<short>> && X<utils::div_t<char>::value_type, char>", "deduced types")
    o.w("div_t", "utils::div_t{(short)1, 2L}.quot == 1 && utils::div_t{(short)1, 2L}.rem == 2 && X<decltype(utils::div_t<unsigned>::quot), unsigned> && X<decltype(utils::div_t<unsigned>::rem), unsigned>", "members")
    for t, n in UINTS:
        for v in corner(n):
            l = lit(v, t)
            o.w("clz", "clz(%s) == %d" % (l, n - v.bit_length()), "%s %d" % (t, v))
            o.w("ctz", "ctz(%s) == %d" % (l, (v & -v).bit_length() - 1), "%s %d" % (t, v))
            o.w("nbits_occupied", "nbits_occupied(%s) == %d" % (l, v.bit_length()), "%s %d" % (t, v))
            o.w("greatest_divisor", "greatest_divisor_that_is_power_of_2(%s) == %s" % (l, lit(v & -v, t)), "%s %d" % (t, v))
            o.w("bits_count", "bits_count(%s) == %d" % (l, v.bit_length()), "%s %d" % (t, v))
            o.w("is_power_of_2", "is_power_of_2(%s) == %s" % (l, b(v & (v - 1) == 0)), "%s %d" % (t, v))
            for p in (1, 2, 8, 64, 1 << (n - 2)):
                r = (v + p - 1) // p * p
                if r < 1 << n:
                    if n == 64:
                        o.w("next_multiple_of", "next_multiple_of(%s, %s) == %s" % (lit(p), l, lit(r)), "%d of %d" % (p, v))
                    o.w("next_multiple_of", "next_multiple_of<%s>(%s) == %s" % (lit(p, "std::size_t"), l, lit(r, t)), "%d of %s %d" % (p, t, v))
        z = lit(0, t)
        o.w("zero", "bits_count({0}) == 0 && nbits_occupied({0}) == 0 && !is_power_of_2({0}) && greatest_divisor_that_is_power_of_2({0}) == {1} && next_multiple_of<8>({0}) == 0".format(z, lit(1 << (n - 1), t)), t + " 0")
    for a in (1, 2, 8, 64, 4096, 1 << 40):
        for s in (1, 2, 3, 7, 8, 9, 63, 64, 65, 100, 4095, 4097, 1 << 33, (1 << 40) + 1):
            o.w("max_alignment", "max_alignment_inside_block(%s, %s) == %s" % (lit(a), lit(s), lit(1 << ((a + s - 1).bit_length() - 1))), "%d in %d" % (s, a))
    for v in range(256):
        o.w("table", "kNumBitsTable[%d] == %d" % (v, bin(v).count("1")), str(v))
    o.cut()
    # ------------------------------------------------------ division, shifts
    for i, a in enumerate(INTS):
        for j, d in enumerate(INTS):
            c = a if a == d else common(a, d)
            lo = lambda t: -(1 << (t[1] - 1)) if t[2] else 0
            hi = lambda t: (1 << (t[1] - 1)) - 1 if t[2] else (1 << t[1]) - 1
            for x in (0, 1, 7, -7, lo(a), hi(a), rng.randint(lo(a), hi(a))):
                for y in (1, 2, -2, -1, 10, lo(d), hi(d), rng.randint(lo(d), hi(d))):
                    if not (lo(a) <= x <= hi(a) and lo(d) <= y <= hi(d)) or y == 0 or (not big and rng.random() < .7):
                        continue
                    p, q = wrap(x, c), wrap(y, c)
                    if q == 0:
                        continue
                    quo = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                    rem = p - quo * q
                    if not lo(c) <= quo <= hi(c):
                        continue
                    args = "%s, %s" % (lit(x, a[0]), lit(y, d[0]))
                    o.w("div", "utils::div(%s).quot == %s && utils::div(%s).rem == %s" % (args, lit(quo, c[0]), args, lit(rem, c[0])), "%s %d by %s %d" % (a[0], x, d[0], y))
        for x in (0, 1, 7, 100, -1, -7, -100, lo(a), hi(a), rng.randint(lo(a), hi(a))):
            if not lo(a) <= x <= hi(a):
                continue
            for k in sorted({0, 1, 3, a[1] // 2, a[1] - 2, a[1] - 1}):
                if x >= 0 and (x << k) >= 0:
                    # left shifts of negative values, or into the sign, are not constant expressions in C++17
                    if not a[2] and x << k < 1 << max(a[1], 31) or a[2] and x << k < 1 << (max(a[1], 32) - 1) or not a[2] and a[1] >= 32:
                        o.w("shift_left", "shift_left(%s, %d) == %s && X<decltype(shift_left(%s, %d)), %s>" % (lit(x, a[0]), k, lit(wrap(x << k, a), a[0]), lit(x, a[0]), k, a[0]), "%s %d by %d" % (a[0], x, k))
                o.w("shift_right", "shift_right(%s, %d) == %s && X<decltype(shift_right(%s, %d)), %s>" % (lit(x, a[0]), k, lit(x >> k, a[0]), lit(x, a[0]), k, a[0]), "%s %d by %d" % (a[0], x, k))
        for r in INTS:
            for x, y in ((100, 7), (99, 10), (3, 5)):
                o.w("div_as", "div_as<%s>(%s, %s).quot == %d && div_as<%s>(%s, %s).rem == %d" % (r[0], lit(x, a[0]), lit(y, "int"), x // y, r[0], lit(x, a[0]), lit(y, "int"), x % y), "%s %d / %d as %s" % (a[0], x, y, r[0]))
    o.cut()
    # ------------------------------------------------------------- memory
    o.raw("""template <std::size_t N> using Bytes = std::array<std::byte, N>;
template <std::size_t N> constexpr Bytes<N> count() { Bytes<N> r{}; for (std::size_t i = 0; i < N; ++i) r[i] = static_cast<std::byte>(i + 1); return r; }
template <std::size_t N> constexpr bool same(const Bytes<N>& a, const Bytes<N>& c) { for (std::size_t i = 0; i < N; ++i) if (a[i] != c[i]) return false; return true; }
// inside one array
template <std::size_t N> constexpr bool moved(std::size_t d, std::size_t s, std::size_t n) { auto a = count<N>(), e = count<N>(); for (std::size_t i = 0; i < n; ++i) e[d + i] = static_cast<std::byte>(s + i + 1); return utils::memory::memmove(a.data() + d, a.data() + s, n) == a.data() + d && same(a, e); }
// between two
template <std::size_t N> constexpr bool copied(std::size_t d, std::size_t s, std::size_t n) { Bytes<N> a{}, e{}; auto f = count<N>(); for (std::size_t i = 0; i < n; ++i) e[d + i] = f[s + i]; utils::memory::memcpy(a.data() + d, static_cast<const std::byte*>(f.data()) + s, n); return same(a, e); }
template <std::size_t N> constexpr bool movedTo(std::size_t d, std::size_t s, std::size_t n) { Bytes<N> a{}, e{}; auto f = count<N>(); for (std::size_t i = 0; i < n; ++i) e[d + i] = f[s + i]; utils::memory::memmove(a.data() + d, f.data() + s, n); return same(a, e); }
template <std::size_t N> constexpr bool zeroed(std::size_t d, std::size_t n) { auto a = count<N>(), e = count<N>(); for (std::size_t i = 0; i < n; ++i) e[d + i] = std::byte{}; utils::memory::secure_zero_memory(a.data() + d, n); return same(a, e); }
template <std::size_t N> constexpr bool zeroedSafe(std::size_t d, std::size_t n) { auto a = count<N>(), e = count<N>(); for (std::size_t i = 0; i < n; ++i) e[d + i] = std::byte{}; return utils::memory::secure_zero_memory_safe(a.data() + d, n) == (n ? 0 : -2) && same(a, e); }
template <typename To, typename From, std::size_t N> constexpr bool copiedAs(const From (&f)[N]) { To a[N]{}; utils::memory::memcpy(a, f, N); for (std::size_t i = 0; i < N; ++i) if (static_cast<unsigned char>(a[i]) != static_cast<unsigned char>(f[i])) return false; return true; }
inline constexpr char text[] = "constant"; inline constexpr unsigned char raw[] = {0, 1, 127, 128, 255}; inline constexpr std::byte bytes[] = {std::byte{3}, std::byte{200}};""")
    n = 9
    for d in range(n):
        for s in range(n):
            for k in range(0, n + 1 - max(d, s), 1 if big else 2):
                o.w("memmove", "moved<%d>(%d, %d, %d)" % (n, d, s, k), "%d bytes from %d to %d" % (k, s, d))
                if d % 3 == 0 or big:
                    o.w("memcpy", "copied<%d>(%d, %d, %d) && movedTo<%d>(%d, %d, %d)" % (n, d, s, k, n, d, s, k), "%d bytes from %d to %d" % (k, s, d))
        for k in range(0, n + 1 - d):
            o.w("zero", "zeroed<%d>(%d, %d) && zeroedSafe<%d>(%d, %d)" % (n, d, k, n, d, k), "%d bytes at %d" % (k, d))
    o.w("zero", "utils::memory::secure_zero_memory_safe(nullptr, 0) == -1 && utils::memory::secure_zero_memory_safe(nullptr, 5) == -1", "null pointer")
    for to in ("char", "unsigned char", "signed char", "std::byte"):
        for f in ("text", "raw", "bytes"):
            o.w("memcpy", "copiedAs<%s>(%s)" % (to, f), "%s to %s" % (f, to))
    o.w("memory", "moved<300>(7, 3, 280) && moved<300>(3, 7, 280) && copied<300>(1, 2, 297) && zeroed<300>(1, 298)", "long ranges")
    o.cut()
    # ------------------------------------------------------------- arrays
    o.raw("""template <typename T, std::size_t N> constexpr std::array<T, N> arr(const T (&a)[N]) { std::array<T, N> r{}; for (std::size_t i = 0; i < N; ++i) r[i] = a[i]; return r; }
enum class E : short { a = -3, b = 400 }; enum F : unsigned char { f = 200 };
struct Lit { int a, b; constexpr bool operator!=(const Lit& o) const { return a != o.a || b != o.b; } constexpr bool operator==(const Lit& o) const { return !(*this != o); } };""")
    o.w("to_underlying", "to_underlying(E::a) == -3 && to_underlying(E::b) == 400 && to_underlying(f) == 200 && X<decltype(to_underlying(E::a)), short>", "enumerators")
    o.w("sizes", "num_bits<int>() == 32 && num_bits<bool>() == 1 && sum_size<int, char, bool>() == 6 && sum_size<bool, bool>() == 1", "sizes")
    for k in range(0, 7):
        l = [rng.randint(-50, 50) for _ in range(6)]
        for p in range(6):
            m = list(l)
            m[p] += 1
            o.w("is_equal", "is_equal(arr<int>({%s}), arr<int>({%s}), %d) == %s" % (", ".join(map(str, l)), ", ".join(map(str, m)), k, b(p >= k)) if k < 6 else "!is_equal(arr<int>({%s}), arr<int>({%s}))" % (", ".join(map(str, l)), ", ".join(map(str, m))), "first %d of %s, %s" % (k, l, m))
        o.w("is_equal", "is_equal(arr<int>({%s}), arr<int>({%s}))" % (", ".join(map(str, l)), ", ".join(map(str, l))), str(l))
    o.w("is_equal", "is_equal(std::array<Lit, 2>{Lit{1, 2}, Lit{3, 4}}, std::array<Lit, 2>{Lit{1, 2}, Lit{3, 4}}) && !is_equal(std::array<Lit, 2>{Lit{1, 2}, Lit{3, 4}}, std::array<Lit, 2>{Lit{1, 2}, Lit{3, 5}})", "objects")
    o.w("make_array", "is_equal(make_array(1, 2, 3), arr<int>({1, 2, 3})) && is_equal(make_array<Lit, 3>(Lit{1, 2}), std::array<Lit, 3>{Lit{1, 2}, Lit{1, 2}, Lit{1, 2}}) && is_equal(make_zero_array<int, 3>(), arr<int>({0, 0, 0}))", "values")
    o.w("make_array", "is_equal(make_array_from_range<3, 9, 2>(), arr<int>({3, 5, 7, 9})) && is_equal(make_array<3, char>(std::string_view(\"abcd\")), arr<char>({'a', 'b', 'c'})) && is_equal(sv_to_array<2, 0>(std::string_view(\"abc\")), arr<char>({'c', 'a'}))", "ranges and text")
    o.w("concatenate", "is_equal(concatenate_arrays(arr<int>({1, 2}), arr<int>({3}), arr<int>({4, 5, 6})), arr<int>({1, 2, 3, 4, 5, 6})) && is_equal(concatenate_arrays(std::array<Lit, 1>{Lit{1, 2}}, std::array<Lit, 1>{Lit{3, 4}}), std::array<Lit, 2>{Lit{1, 2}, Lit{3, 4}})", "arrays")
    return [("p33", o)]


def p33r(tier, seed):
    return [("p33-release", p33(tier, seed)[0][1])]


# --------------------------------------------------------------------- P36
def p36(tier, seed):
    o = Out("""#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>
#include <utils/timer.h>
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
#include <array>
#include <string>
#include <string_view>
namespace m = utils::memory;
using Simple = m::simple_resource<8, 16>; using Mono = m::monotonic_buffer_resource; using Res = m::memory_resource;
template <bool C, bool M> struct E { E() noexcept; E(const E&) noexcept(C); E(E&&) noexcept(M); E& operator=(const E&); };
struct FromChar { FromChar(const char&) noexcept(false); FromChar(const FromChar&) noexcept; }; struct FromCharN { FromCharN(const char&) noexcept; FromCharN(const FromCharN&) noexcept; };
template <typename T> T& V() noexcept;
template <typename T> T&& R() noexcept;
#define W static_assert
""")
    n = lambda wid, e, x=True: o.w(wid, "noexcept(%s) == %s" % (e, b(x)), e)
    for r in ("Res", "Simple", "Mono"):
        base = "static_cast<Res&>(V<%s>())" % r
        n("resource", base + ".allocate(1)")
        n("resource", base + ".allocate(1, 16)")
        n("resource", base + ".allocate<int>()")
        n("resource", base + ".deallocate(nullptr)")
        n("resource", "V<%s>().is_equal(V<Res>())" % r)
        n("resource", "V<%s>() == V<Res>()" % r)
        n("resource", "V<const %s>() != V<const Res>()" % r)
        o.w("resource", "std::is_nothrow_destructible_v<%s>" % r, r + " destructor")
    for c in ("Simple", "Mono"):
        for args in ("std::byte*, std::size_t, Res*", "std::byte*, std::size_t", "std::byte (&)[128], Res*", "std::byte (&)[128]"):
            o.w("resource", "std::is_nothrow_constructible_v<%s, %s>" % (c, args), "%s from %s" % (c, args))
        for f in ("release()", "data()", "size()"):
            n("resource", "V<%s>().%s" % (c, f))
    for f in ("at(0)", "in_use(0)", "free_count()", "busy_count()", "block_size(0)", "block_size_in_bytes(0)", "infos()"):
        n("resource", "V<const Simple>()." + f)
    for e in ("m::system_memory_resource()", "m::null_memory_resource()", "m::get_default_resource()", "m::set_default_resource(nullptr)", "m::aligned_malloc(1, 1)", "m::aligned_free(nullptr)",
              "m::secure_zero_memory(nullptr, 0)", "m::secure_zero_memory_safe(nullptr, 0)", "m::memmove(nullptr, nullptr, 0)", "m::memcpy(V<char*>(), V<const char*>(), 1)", "m::get_alignment(nullptr)"):
        n("memory", e)
    for e in ("allocate(1)", "deallocate(nullptr)", "allocate_bytes(1)", "allocate_bytes(1, 8)", "deallocate_bytes(nullptr)", "allocate_object<int>()", "deallocate_object(V<int*>())", "new_object<int>(3)", "delete_object(V<int*>())", "resource()"):
        n("allocator", "V<m::allocator<long>>()." + e)
    n("allocator", "V<m::allocator<int>>() == V<m::allocator<long>>()")
    n("allocator", "V<m::allocator<int>>() != V<m::allocator<int>>()")
    T = "utils::timer"
    for e in ("leaked()", "leaked_sec()", "leaked_milli_sec()", "leaked_micro_sec()", "leaked_nano_sec()", "start_tp()", "reset()"):
        n("timer", "V<%s>().%s" % (T, e))
    o.w("timer", "std::is_nothrow_move_constructible_v<{0}> && std::is_nothrow_move_assignable_v<{0}> && std::is_nothrow_destructible_v<{0}> && std::is_nothrow_constructible_v<{0}, void (&)(const {0}&) noexcept>".format(T), "moving and destroying")
    for t in ("unsigned char", "unsigned", "unsigned long long"):
        for f in ("clz", "ctz", "greatest_divisor_that_is_power_of_2", "nbits_occupied", "bits_count", "is_power_of_2"):
            n("bits", "utils::%s(V<%s>())" % (f, t))
        n("bits", "utils::shift_left(V<%s>(), 1)" % t)
        n("bits", "utils::shift_right(V<%s>(), 1)" % t)
        n("bits", "utils::div(V<%s>(), 3)" % t)
        n("bits", "utils::div_as<long>(V<%s>(), 3)" % t)
    for e in ("utils::next_multiple_of(8, 3)", "utils::next_multiple_of<8>(3u)", "utils::skip_to_align(nullptr, 8)", "utils::is_aligned(nullptr, 8)", "utils::is_aligned<long>(nullptr)", "utils::max_alignment_inside_block(8, 8)", "utils::bit_cast<unsigned>(1.0f)"):
        n("bits", e)
    # what depends on the elements
    for c, mv in itertools.product((True, False), repeat=2):
        E = "E<%s, %s>" % (b(c), b(mv))
        A = "std::array<%s, 2>" % E
        n("concatenate", "utils::concatenate_arrays(V<%s>(), V<const %s>())" % (A, A), c and mv)
        n("concatenate", "utils::concatenate_arrays(R<%s>(), R<%s>())" % (A, A), mv)
        n("concatenate", "utils::concatenate_arrays(R<%s>(), V<%s>())" % (A, A), c and mv)
        n("concatenate", "utils::concatenate_arrays(R<%s>(), R<%s>(), V<%s>())" % (A, A, A), c and mv)
    n("from text", "utils::make_array<3, FromCharN>(std::string_view{})")
    n("from text", "utils::make_array<3, FromChar>(std::string_view{})", False)
    n("from text", "utils::make_array<3, char>(std::string_view{})")
    n("from text", "utils::make_array<3, std::byte>(std::string_view{})")
    n("concatenate", "utils::concatenate_arrays(V<std::array<int, 2>>(), V<std::array<int, 0>>())")
    n("concatenate", "utils::concatenate_arrays(V<std::array<std::string, 2>>(), V<std::array<std::string, 1>>())", False)
    n("make_array", "utils::make_array<std::string, 3>(V<std::string>())", False)
    n("make_array", "utils::make_array(V<std::string>())", False)
    n("visit", "utils::for_each_arg(V<void (*)(int)>(), 3)", False)
    return [("p36", o)]
