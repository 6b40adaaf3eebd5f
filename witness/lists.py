"""P01-P04: static_assert witnesses over type and value lists, the expected
answers come from Python lists."""
import itertools
import random

PRE = """#include <utils/%s>
#include <type_traits>
#include <climits>
#include <cstdint>
using namespace utils;
struct A1 { char c[1]; }; struct A2 { char c[2]; }; struct A3 { char c[3]; }; struct A4 { char c[4]; }; struct A8 { char c[8]; }; struct A16 { char c[16]; };
template <typename T> struct is_big : std::bool_constant<(sizeof(T) > 3)> {};
template <typename T> struct never : std::false_type {};
template <typename T> struct always : std::true_type {};
template <typename T, typename U> struct same_size_as : std::bool_constant<sizeof(T) == sizeof(U)> {};
template <typename T, typename U, typename V> struct one_of : std::bool_constant<std::is_same_v<T, U> || std::is_same_v<T, V>> {};
template <typename... T> struct any_const : std::disjunction<std::is_const<T>...> {};
template <typename A, typename B> inline constexpr bool S = std::is_same_v<A, B>;
#define W static_assert
"""
# name -> (size, is_const, is_reference)
TYPES = {"char": (1, 0, 0), "int": (4, 0, 0), "const int": (4, 1, 0), "volatile int": (4, 0, 0), "int&": (4, 0, 1), "int&&": (4, 0, 1),
         "const int&": (4, 0, 1), "int*": (8, 0, 0), "const int*": (8, 0, 0), "int* const": (8, 1, 0), "double": (8, 0, 0), "short": (2, 0, 0),
         "A3": (3, 0, 0), "const A3": (3, 1, 0), "A1": (1, 0, 0), "A16": (16, 0, 0), "unsigned": (4, 0, 0), "long": (8, 0, 0), "long long": (8, 0, 0), "signed char": (1, 0, 0)}
PREDS = {"std::is_const": lambda t: TYPES[t][1] == 1, "std::is_reference": lambda t: TYPES[t][2] == 1, "is_big": lambda t: TYPES[t][0] > 3,
         "never": lambda t: False, "always": lambda t: True}


def tl(l):
    return "type_list<%s>" % ", ".join(l)


def b(x):
    return "true" if x else "false"


def first(l, p):
    return next((i for i, e in enumerate(l) if p(e)), len(l))


class Out:
    def __init__(self, pre):
        self.pre = pre
        self.o = [pre]
        self.n = 0
        self.done = []

    def cut(self):
        """what follows does not need what came before: another translation unit"""
        if self.n:
            self.done.append(("\n".join(self.o) + "\n", self.n))
            self.o, self.n = [self.pre], 0

    def parts(self):
        self.cut()
        return self.done

    def w(self, wid, cond, what):
        self.n += 1
        self.o.append('W(%s, "WITNESS %s: %s");' % (cond, wid, what.replace('"', "'")))

    def raw(self, s):
        self.o.append(s)


def lists(rng, alphabet, upto, wide, extra, longest):
    for n in range(upto + 1):
        yield from itertools.product(alphabet, repeat=n)
    for i in range(extra):
        n = rng.randint(upto + 1, longest)
        few = rng.sample(wide, rng.randint(1, min(len(wide), 6)))
        yield tuple(rng.choice(few) for _ in range(n))


def p01(tier, seed):
    rng = random.Random(seed)
    o = Out(PRE % "type_list.h")
    big = tier == "thorough"
    alpha = ["int", "const int", "int&", "char"]
    for k, l in enumerate(lists(rng, alpha, 4 if not big else 5, list(TYPES), 80 if not big else 400, 14 if not big else 40)):
        l = list(l)
        if o.n >= 1500:
            o.cut()
        o.raw("using L%d = %s;" % (k, tl(l)))
        L = "L%d" % k
        d = " of " + tl(l) if len(l) < 6 else ""
        o.w("size", "%s::size == %d" % (L, len(l)), "size" + d)
        if l:
            o.w("at", " && ".join("S<typename %s::template at<%d>, %s>" % (L, i, t) for i, t in enumerate(l)), "at" + d)
        probes = sorted(set(alpha + l + [rng.choice(list(TYPES))]))
        o.w("first_index_of_type", " && ".join("%s::first_index_of_type<%s> == %d" % (L, t, first(l, lambda e: e == t)) for t in probes), "first_index_of_type" + d)
        o.w("index_of", " && ".join("%s::index_of<std::is_same, %s> == %d" % (L, t, first(l, lambda e: e == t)) for t in probes), "index_of<is_same>" + d)
        o.w("count_of", " && ".join("%s::count_of<%s> == %d" % (L, t, l.count(t)) for t in probes), "count_of" + d)
        o.w("contains", " && ".join("%s::contains_v<%s> == %s && %s::contains<%s>::value == %s" % (L, t, b(t in l), L, t, b(t in l)) for t in probes), "contains" + d)
        subs = [[], list(reversed(l)), l[:1] + l[-1:], [rng.choice(probes)], [rng.choice(probes), rng.choice(probes)]]
        o.w("contains_list", " && ".join("%s::contains_v<%s> == %s" % (L, tl(s), b(all(x in l for x in s))) for s in subs), "contains<type_list>" + d)
        o.w("is_same", "%s::is_same == %s" % (L, b(len(set(l)) <= 1)), "is_same" + d)
        o.w("contains_copies", "%s::contains_copies == %s" % (L, b(len(set(l)) != len(l))), "contains_copies" + d)
        for p, f in PREDS.items():
            ok = [t for t in l if f(t)]
            o.w("predicate", "%s::count_of_predicate_compliant<%s> == %d && %s::contains_predicate_compliant<%s> == %s && %s::index_of<%s> == %d && S<%s::list_of_predicate_compliant_t<%s>, %s>"
                % (L, p, len(ok), L, p, b(ok), L, p, first(l, f), L, p, tl(ok)), p + d)
            if ok:
                o.w("at_predicate", " && ".join("S<typename %s::template at<%d, %s>, %s>" % (L, i, p, t) for i, t in enumerate(ok)), "at with " + p + d)
        u, v = rng.choice(probes), rng.choice(probes)
        su = lambda e: TYPES[e][0] == TYPES[u][0]
        o.w("predicate_args", "%s::index_of<same_size_as, %s> == %d && S<%s::list_of_predicate_compliant_t<same_size_as, %s>, %s> && %s::index_of<one_of, %s, %s> == %d && S<typename %s::template list_of_predicate_compliant<one_of, %s, %s>::type, %s>"
            % (L, u, first(l, su), L, u, tl([e for e in l if su(e)]), L, u, v, first(l, lambda e: e in (u, v)), L, u, v, tl([e for e in l if e in (u, v)])), "predicates with arguments" + d)
        o.w("is_type_list", "is_type_list_v<%s> && is_type_list<%s>::value && !is_type_list_v<%s, %s>" % (L, L, L, L), "is_type_list" + d)
    o.w("is_type_list", "!is_type_list_v<> && !is_type_list_v<int> && !is_type_list_v<int, char> && !is_type_list_v<const int&> && is_type_list_v<type_list<type_list<>>>", "is_type_list of other types")
    return [("p01", o), ("p01-pairs", p01_pairs(rng, big)), ("p01-long", p01_long(big))]


# types told apart only by qualifiers, and types without a size
NEAR = ["int", "const int", "volatile int", "const volatile int", "int&", "const int&", "volatile int&", "const volatile int&", "int&&", "const int&&", "volatile int&&",
        "int*", "const int*", "volatile int*", "int* const", "int* volatile", "const int* const", "int**", "int*&", "int* const&", "int[]", "int[2]", "int[3]", "const int[2]", "int[2][3]",
        "void", "const void", "volatile void", "void*", "int()", "int() const", "int() volatile", "int() noexcept", "int() &", "int() &&", "int(int)", "int(...)", "int(int, ...)", "int (*)()", "int (&)()", "int (*)() noexcept",
        "unsigned", "long", "long long", "char", "signed char", "unsigned char", "char16_t", "char32_t", "wchar_t", "unsigned short", "short", "bool", "float", "double", "long double",
        "Inc", "const Inc", "Inc*", "int Inc::*", "const int Inc::*", "int (Inc::*)()", "int (Inc::*)() const", "std::nullptr_t", "type_list<>", "type_list<int>", "const type_list<int>", "type_list<type_list<int>>", "Tpl<int>", "Tpl<const int>", "Tpl<int&>", "Hid"]


def p01_pairs(rng, big):
    """every ordered pair of types of NEAR"""
    o = Out(PRE % "type_list.h" + "#include <cstddef>\nstruct Inc; template <typename T> struct Tpl; class Hid { Hid() = delete; ~Hid() = delete; };\n")
    for k, t in enumerate(NEAR):
        o.raw("using Q%d = %s;" % (k, t))
    for i, t in enumerate(NEAR):
        c = []
        for j, u in enumerate(NEAR):
            e = i == j
            c.append("type_list<Q%d>::first_index_of_type<Q%d> == %d && type_list<Q%d>::index_of<std::is_same, Q%d> == %d && type_list<Q%d>::count_of<Q%d> == %d && %stype_list<Q%d, Q%d>::is_same && %stype_list<Q%d, Q%d>::contains_copies"
                     % (i, j, 0 if e else 1, i, j, 0 if e else 1, i, j, 1 if e else 0, "" if e else "!", i, j, "" if e else "!", i, j)
                     + ("" if u.startswith(("type_list", "const type_list")) else " && %stype_list<Q%d>::contains_v<Q%d>" % ("" if e else "!", i, j)))
        for a in range(0, len(c), 8):
            o.w("same", " && ".join(c[a:a + 8]), "%s compared with %s ..." % (t, NEAR[a]))
    allq = ["Q%d" % i for i in range(len(NEAR))]
    o.raw("using ALL = %s;" % tl(allq))
    o.w("at", "ALL::size == %d && " % len(NEAR) + " && ".join("S<ALL::at<%d>, Q%d> && ALL::count_of<Q%d> == 1 && ALL::first_index_of_type<Q%d> == %d" % (i, i, i, i, i) for i in range(len(NEAR))), "all types")
    o.w("contains_copies", "!ALL::contains_copies && !ALL::is_same", "all types")
    for p in ("std::is_const", "std::is_volatile", "std::is_reference", "std::is_function", "std::is_void", "std::is_array", "std::is_pointer", "std::is_member_pointer"):
        f = {"std::is_const": lambda t: t in ("const int", "const volatile int", "int* const", "const int* const", "const int[2]", "const void", "const Inc", "const type_list<int>"),
             "std::is_volatile": lambda t: t in ("volatile int", "const volatile int", "int* volatile", "volatile void"),
             "std::is_reference": lambda t: t.endswith("&") and t not in ("int() &", "int() &&") or t == "int (&)()",
             "std::is_function": lambda t: t.startswith("int(") , "std::is_void": lambda t: t in ("void", "const void", "volatile void"), "std::is_array": lambda t: "[" in t,
             "std::is_pointer": lambda t: t in ("int*", "const int*", "volatile int*", "int* const", "int* volatile", "const int* const", "int**", "void*", "int (*)()", "int (*)() noexcept", "Inc*"),
             "std::is_member_pointer": lambda t: "Inc::*" in t}[p]
        ok = [i for i, t in enumerate(NEAR) if f(t)]
        o.w("predicate", "ALL::count_of_predicate_compliant<%s> == %d && ALL::contains_predicate_compliant<%s> && ALL::index_of<%s> == %d && S<ALL::list_of_predicate_compliant_t<%s>, %s> && S<ALL::at<%d, %s>, Q%d>"
            % (p, len(ok), p, p, ok[0], p, tl(["Q%d" % i for i in ok]), len(ok) - 1, p, ok[-1]), p)
    return o


LONG = """template <std::size_t> struct N { char c; };
template <typename> struct indices; template <std::size_t... I> struct indices<std::index_sequence<I...>> { using distinct = type_list<N<I>...>; template <typename T> using same = type_list<std::conditional_t<I == I, T, void>...>; template <std::size_t K, typename T> using but = type_list<std::conditional_t<I == K, T, N<I>>...>; template <std::size_t K> using from = type_list<N<I + K>...>; template <std::size_t K, typename T, typename U> using one = type_list<std::conditional_t<I == K, T, U>...>; };
template <std::size_t n> using IX = indices<std::make_index_sequence<n>>;
template <typename T> struct odd : std::false_type {}; template <std::size_t I> struct odd<N<I>> : std::bool_constant<I % 2 == 1> {};
template <typename T> struct isN : std::false_type {}; template <std::size_t I> struct isN<N<I>> : std::true_type {};
"""


def p01_long(big):
    o = Out(PRE % "type_list.h" + LONG)
    for n in (16, 17, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300) + ((400, 512, 513) if big else ()):
        L, S = "IX<%d>::distinct" % n, "IX<%d>::same<int>" % n
        idx = sorted({i for i in (0, 1, n // 2, n - 2, n - 1, 126, 127, 128, 129, 254, 255, 256, 257) if i < n})
        o.w("size", "%s::size == %d" % (L, n), "size of %d" % n)
        o.w("at", " && ".join("S<%s::at<%d>, N<%d>>" % (L, i, i) for i in idx), "at in a list of %d" % n)
        o.w("index_of", " && ".join("{L}::first_index_of_type<N<{i}>> == {i} && {L}::index_of<std::is_same, N<{i}>> == {i}".format(L=L, i=i) for i in idx), "index of the elements of a list of %d" % n)
        o.w("index_of", "%s::first_index_of_type<int> == %d && %s::index_of<std::is_same, int> == %d && %s::index_of<odd> == 1" % (L, n, L, n, L), "index of what a list of %d does not have" % n)
        o.w("contains", " && ".join("%s::contains_v<N<%d>> && %s::count_of<N<%d>> == 1" % (L, i, L, i) for i in idx) + " && !%s::contains_v<int> && %s::count_of<int> == 0" % (L, L), "contains in a list of %d" % n)
        o.w("contains", "%s::contains_v<%s> && !%s::contains_v<IX<%d>::distinct>" % (L, L, L, n + 1), "contains<type_list> of %d" % n)
        o.w("is_same", "!%s::is_same && %s::is_same && !IX<%d>::one<%d, char, int>::is_same && !IX<%d>::one<0, char, int>::is_same" % (L, S, n, n - 1, n), "is_same of %d" % n)
        o.w("count_of", "%s::count_of<int> == %d && %s::contains_v<int> && %s::first_index_of_type<int> == 0 && %s::first_index_of_type<char> == %d" % (S, n, S, S, S, n), "%d copies" % n)
        o.w("predicate", "%s::count_of_predicate_compliant<isN> == %d && %s::contains_predicate_compliant<isN> && %s::count_of_predicate_compliant<odd> == %d && !%s::contains_predicate_compliant<never> && IX<%d>::one<%d, N<1>, int>::contains_predicate_compliant<odd> && IX<%d>::one<%d, N<1>, int>::index_of<odd> == %d"
            % (L, n, L, L, n // 2, L, n, n - 1, n, n - 1, n - 1), "predicates over %d" % n)
        o.w("at_predicate", "S<{L}::at<{k}, odd>, N<{j}>> && S<{L}::at<0, odd>, N<1>>".format(L=L, k=n // 2 - 1, j=2 * (n // 2) - 1), "at with a predicate in a list of %d" % n)
        o.w("list_of", "%s::list_of_predicate_compliant_t<odd>::size == %d && S<%s::list_of_predicate_compliant_t<always>, %s> && S<%s::list_of_predicate_compliant_t<never>, type_list<>>" % (L, n // 2, L, L, L), "list_of_predicate_compliant of %d" % n)
        if n < 70 or n in (256, 257):
            o.w("contains_copies", "!%s::contains_copies && IX<%d>::but<%d, N<0>>::contains_copies && IX<%d>::but<0, N<%d>>::contains_copies && IX<%d>::but<%d, N<%d>>::contains_copies" % (L, n, n - 1, n, n // 2, n, n - 1, n - 2), "contains_copies of %d" % n)
        o.w("contains_copies", "%s::contains_copies" % S, "contains_copies of %d copies" % n)
    return o


def p02(tier, seed):
    rng = random.Random(seed + 2)
    o = Out(PRE % "type_list.h")
    big = tier == "thorough"
    tag = ["int", "char", "const int", "int&", "short", "A3", "double", "int*", "const A3", "long", "A16", "unsigned"]
    # sublist and exclude_at do not look at the elements: distinct ones show every position
    for n in range(0, 9 if not big else 13):
        l = (tag + ["signed char"])[:n]
        for f in range(n + 1):
            for c in range(0 if f < n else 1, n - f + 1):
                o.w("sublist", "S<sublist_t<%s, %d, %d>, %s>" % (tl(l), f, c, tl(l[f:f + c])), "sublist(%d, %d) of %d" % (f, c, n))
        for i in range(n):
            o.w("exclude_at", "S<exclude_at_t<%s, %d>, %s>" % (tl(l), i, tl(l[:i] + l[i + 1:])), "exclude_at(%d) of %d" % (i, n))
    o.w("sublist", "S<sublist_t<type_list<>, 0, 0>, type_list<>>", "sublist of the empty list")
    for l in (["int"] * 4, ["int", "char", "int", "char"]):
        for i in range(4):
            o.w("exclude_at", "S<exclude_at_t<%s, %d>, %s>" % (tl(l), i, tl(l[:i] + l[i + 1:])), "exclude_at with duplicates")
            o.w("sublist", "S<sublist_t<%s, %d, 1>, %s>" % (tl(l), i, tl(l[i:i + 1])), "sublist with duplicates")
    o2 = Out(PRE % "type_list.h")
    alpha = ["char", "A1", "short", "int", "const int", "A3"]
    for l in lists(rng, alpha, 4, list(TYPES), 60 if not big else 400, 12 if not big else 26):
        l = list(l)
        if o2.n >= 1500:
            o2.cut()
        sz = [TYPES[t][0] for t in l]
        d = " of " + tl(l) if len(l) < 6 else ""
        o2.w("sort_ascending", "S<sort_sizeof_ascending_t<%s>, %s>" % (tl(l), tl(sorted(l, key=lambda t: TYPES[t][0]))), "sort_sizeof_ascending" + d)
        o2.w("sort_descending", "S<sort_sizeof_descending_t<%s>, %s>" % (tl(l), tl(sorted(l, key=lambda t: -TYPES[t][0]))), "sort_sizeof_descending" + d)
        if l:
            o2.w("min_index", "min_sizeof_index_v<%s> == %d && min_sizeof_index<%s>::value == %d" % (tl(l), sz.index(min(sz)), tl(l), sz.index(min(sz))), "min_sizeof_index" + d)
            o2.w("max_index", "max_sizeof_index_v<%s> == %d && max_sizeof_index<%s>::value == %d" % (tl(l), sz.index(max(sz)), tl(l), sz.index(max(sz))), "max_sizeof_index" + d)
    return [("p02-shape", o), ("p02-sort", o2), ("p02-large", p02_large(rng, big)), ("p02-long", p02_long(big))]


def p02_large(rng, big):
    """sizes that a narrower integer would not hold"""
    o = Out(PRE % "type_list.h" + "template <std::size_t S, int = 0> struct Z { char c[S]; };\n")
    sizes = [1, 127, 128, 255, 256, 257, 258, 511, 512, 32767, 32768, 65535, 65536, 65537, 65792, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 256, 2**40]

    def one(l):
        t = ["Z<%dull, %d>" % x for x in l]
        sz = [x[0] for x in l]
        d = "sizes %s" % sz
        o.w("sort_ascending", "S<sort_sizeof_ascending_t<%s>, %s>" % (tl(t), tl(["Z<%dull, %d>" % x for x in sorted(l, key=lambda x: x[0])])), d)
        o.w("sort_descending", "S<sort_sizeof_descending_t<%s>, %s>" % (tl(t), tl(["Z<%dull, %d>" % x for x in sorted(l, key=lambda x: -x[0])])), d)
        o.w("min_index", "min_sizeof_index_v<%s> == %d && min_sizeof_index<%s>::value == %d" % (tl(t), sz.index(min(sz)), tl(t), sz.index(min(sz))), d)
        o.w("max_index", "max_sizeof_index_v<%s> == %d && max_sizeof_index<%s>::value == %d" % (tl(t), sz.index(max(sz)), tl(t), sz.index(max(sz))), d)
    for a, c in itertools.product(sizes, repeat=2):
        one([(a, 0), (c, 1)])
    for _ in range(120 if not big else 500):
        one([(rng.choice(sizes), i) for i in range(rng.randint(3, 7))])
    # what has a size: references have that of what they refer to
    for q in ("Z<300>&", "const Z<300>&", "Z<300>&&", "Z<4>[75]", "const Z<300>", "volatile Z<300>"):
        o.w("min_index", "min_sizeof_index_v<type_list<%s, Z<299>, Z<300, 1>>> == 1 && max_sizeof_index_v<type_list<Z<299>, %s, Z<300, 1>>> == 1 && S<sort_sizeof_ascending_t<type_list<Z<300, 1>, %s, Z<299>>>, type_list<Z<299>, Z<300, 1>, %s>>" % (q, q, q, q), q)
    return o


def p02_long(big):
    o = Out(PRE % "type_list.h" + LONG + "template <std::size_t S> struct Y { char c[S]; }; template <typename> struct up; template <std::size_t... I> struct up<std::index_sequence<I...>> { using asc = type_list<Y<I + 1>...>; using desc = type_list<Y<sizeof...(I) - I>...>; };\n")
    for n in (17, 33, 65, 129, 257, 300):
        L = "IX<%d>::distinct" % n
        for f, c in ((0, 1), (n - 1, 1), (n - 3, 3), (n // 2, 2), (0, 0), (n - 1, 0)):
            o.w("sublist", "S<sublist_t<%s, %d, %d>, %s>" % (L, f, c, tl(["N<%d>" % i for i in range(f, f + c)])), "sublist(%d, %d) of %d" % (f, c, n))
        if n < 130 or n == 257:
            o.w("sublist", "S<sublist_t<{L}, 0, {n}>, {L}> && S<sublist_t<{L}, 1, {m}>, IX<{m}>::from<1>> && S<sublist_t<{L}, 0, {m}>, IX<{m}>::distinct>".format(L=L, n=n, m=n - 1), "sublist of %d" % n)
            o.w("exclude_at", "S<exclude_at_t<{L}, 0>, IX<{m}>::from<1>> && S<exclude_at_t<{L}, {m}>, IX<{m}>::distinct>".format(L=L, m=n - 1), "exclude_at ends of %d" % n)
            k = n // 2
            o.w("exclude_at", "S<exclude_at_t<%s, %d>, concatenate_t<IX<%d>::distinct, IX<%d>::from<%d>>>" % (L, k, k, n - k - 1, k + 1), "exclude_at the middle of %d" % n)
        I = "std::make_index_sequence<%d>" % n
        o.w("min_index", "min_sizeof_index_v<up<{I}>::desc> == {m} && max_sizeof_index_v<up<{I}>::asc> == {m} && min_sizeof_index_v<up<{I}>::asc> == 0 && max_sizeof_index_v<up<{I}>::desc> == 0 && min_sizeof_index_v<IX<{n}>::one<{m}, char, int>> == {m} && max_sizeof_index_v<IX<{n}>::one<{m}, int, char>> == {m} && min_sizeof_index_v<{L}> == 0 && max_sizeof_index_v<{L}> == 0".format(I=I, m=n - 1, n=n, L=L), "extreme element of %d" % n)
        if n < 40:
            o.w("sort_long", "S<sort_sizeof_ascending_t<up<{I}>::desc>, up<{I}>::asc> && S<sort_sizeof_descending_t<up<{I}>::asc>, up<{I}>::desc> && S<sort_sizeof_ascending_t<{L}>, {L}> && S<sort_sizeof_descending_t<{L}>, {L}>".format(I=I, L=L), "sorting %d" % n)
    return o


VALS = ["1", "1L", "2", "true", "false", "'a'", "1u", "-1", "E1::a", "E1::b", "E2::a", "0", "0ull", "&g1", "&g2", "INT_MIN", "INT_MAX", "UINT64_MAX", "-5L", "(short)7", "(unsigned char)200", "nullptr"]
VT = {"1": "int", "1L": "long", "2": "int", "true": "bool", "false": "bool", "'a'": "char", "1u": "unsigned", "-1": "int", "E1::a": "E1", "E1::b": "E1", "E2::a": "E2", "0": "int",
      "0ull": "unsigned long long", "&g1": "int*", "&g2": "int*", "INT_MIN": "int", "INT_MAX": "int", "UINT64_MAX": "unsigned long", "-5L": "long", "(short)7": "short",
      "(unsigned char)200": "unsigned char", "nullptr": "std::nullptr_t"}
VV = {"1": 1, "1L": 1, "2": 2, "true": 1, "false": 0, "'a'": 97, "1u": 1, "-1": -1, "E1::a": 0, "E1::b": 1, "E2::a": 0, "0": 0, "0ull": 0, "INT_MIN": -2**31, "INT_MAX": 2**31 - 1,
      "UINT64_MAX": 2**64 - 1, "-5L": -5, "(short)7": 7, "(unsigned char)200": 200}
VPRE = PRE.replace("#define W static_assert\n", "") + "#include <cstddef>\nenum class E1 { a, b }; enum class E2 { a, b }; inline int g1, g2;\n#define W static_assert\n"


def vl(l):
    return "value_list<%s>" % ", ".join(l)


def p03(tier, seed):
    rng = random.Random(seed + 3)
    big = tier == "thorough"
    o = Out(VPRE % "value_list.h" + "#include <utils/cartesian_product.h>\n")
    tn = list(TYPES)
    for n in range(1, 7 if not big else 12):
        for rep in range(40 if not big else 120):
            parts = [[rng.choice(tn) for _ in range(rng.randint(0, 4))] for _ in range(n)]
            o.w("concatenate", "S<concatenate_t<%s>, %s>" % (", ".join(map(tl, parts)), tl(sum(parts, []))), "type lists %s" % [len(p) for p in parts])
            parts = [[rng.choice(VALS) for _ in range(rng.randint(0, 4))] for _ in range(n)]
            o.w("concatenate", "S<concatenate_t<%s>, %s>" % (", ".join(map(vl, parts)), vl(sum(parts, []))), "value lists %s" % [len(p) for p in parts])
    for la, lb in itertools.product(range(4), repeat=2):
        o.w("concatenate", "S<concatenate_t<%s, %s>, %s>" % (tl(tn[:la]), tl(tn[4:4 + lb]), tl(tn[:la] + tn[4:4 + lb])), "two type lists")
        o.w("concatenate", "S<concatenate_t<%s, %s>, %s>" % (vl(VALS[:la]), vl(VALS[4:4 + lb]), vl(VALS[:la] + VALS[4:4 + lb])), "two value lists")
    shapes = [s for n in (2, 3, 4) for s in itertools.product((1, 2, 3), repeat=n)] + [(1,) * 5, (2,) * 5, (1, 2, 1, 2, 3), (3, 1, 1, 2, 2), (2,) * 6, (1, 1, 2, 1, 1, 2, 1)]
    nested = ["type_list<int>", "type_list<>", "type_list<int, char>"]
    for s in shapes:
        for rep in range(1 if not big else 4):
            ts = [[rng.choice(tn + nested) for _ in range(k)] for k in s]
            vs = [[rng.choice(VALS) for _ in range(k)] for k in s]
            o.w("cartesian", "S<cartesian_product_t<%s>, type_list<%s>>" % (", ".join(map(tl, ts)), ", ".join(tl(c) for c in itertools.product(*ts))), "type lists %s" % (s,))
            o.w("cartesian", "S<cartesian_product_t<%s>, type_list<%s>>" % (", ".join(map(vl, vs)), ", ".join(vl(c) for c in itertools.product(*vs))), "value lists %s" % (s,))
    return [("p03", o), ("p03-long", p03_long(big))]


# every element distinguishable from every other one of the same list
VLONG = LONG + """template <typename, auto> struct vix; template <auto B, std::size_t... I> struct vix<std::index_sequence<I...>, B> { using asc = value_list<static_cast<decltype(B)>(B + static_cast<decltype(B)>(I))...>; using desc = value_list<static_cast<decltype(B)>(B + static_cast<decltype(B)>(sizeof...(I) - 1 - I))...>; using same = value_list<(I == I ? B : B)...>; template <std::size_t K> using but = value_list<static_cast<decltype(B)>(I == K ? B + 1 : B)...>; template <std::size_t J, std::size_t K> using dup = value_list<static_cast<decltype(B)>(B + static_cast<decltype(B)>(I == J ? K : I))...>; };
template <std::size_t n, auto B> using VX = vix<std::make_index_sequence<n>, B>;
template <typename A, typename B, typename C> struct prod; template <typename A, typename B, std::size_t... K> struct prod<A, B, std::index_sequence<K...>> { using type = type_list<type_list<typename A::template at<K / B::size>, typename B::template at<K % B::size>>...>; };
template <typename A, typename B, typename C> struct vprod; template <typename A, typename B, std::size_t... K> struct vprod<A, B, std::index_sequence<K...>> { using type = type_list<value_list<A::template at<K / B::size>, B::template at<K % B::size>>...>; };
template <typename C> struct bits; template <std::size_t... K> struct bits<std::index_sequence<K...>> { template <std::size_t I> using b = N<I>; };
"""


def p03_long(big):
    o = Out(VPRE % "value_list.h" + "#include <utils/cartesian_product.h>\n" + VLONG)
    for a, c in ((1, 16), (16, 1), (15, 2), (100, 156), (128, 128), (255, 1), (1, 255), (256, 1), (200, 100)):
        o.w("concatenate", "S<concatenate_t<IX<{a}>::distinct, IX<{c}>::from<{a}>>, IX<{n}>::distinct> && S<concatenate_t<VX<{a}, 0>::asc, VX<{c}, {a}>::asc>, VX<{n}, 0>::asc>".format(a=a, c=c, n=a + c), "%d and %d elements" % (a, c))
    for n in (16, 31, 64, 129, 257):
        o.w("concatenate", "S<concatenate_t<%s>, IX<%d>::distinct> && S<concatenate_t<%s>, IX<%d>::distinct>" % (", ".join("type_list<N<%d>>" % i for i in range(n)), n, ", ".join("type_list<N<%d>>, type_list<>" % i for i in range(n)), n), "%d lists of types" % n)
        o.w("concatenate", "S<concatenate_t<%s>, VX<%d, 0>::asc>" % (", ".join("value_list<%d>" % i for i in range(n)), n), "%d lists of values" % n)
    for a, c in ((1, 40), (40, 1), (7, 9), (16, 16), (17, 17), (2, 130), (130, 2)) + (((25, 40), (3, 300)) if big else ()):
        o.w("cartesian", "S<cartesian_product_t<IX<{a}>::distinct, IX<{c}>::from<1000>>, prod<IX<{a}>::distinct, IX<{c}>::from<1000>, std::make_index_sequence<{n}>>::type>".format(a=a, c=c, n=a * c), "%d by %d types" % (a, c))
        o.w("cartesian", "S<cartesian_product_t<VX<{a}, 0>::asc, VX<{c}, 1000L>::asc>, vprod<VX<{a}, 0>::asc, VX<{c}, 1000L>::asc, std::make_index_sequence<{n}>>::type>".format(a=a, c=c, n=a * c), "%d by %d values" % (a, c))
    for k in (6, 7, 8) + ((9,) if big else ()):
        o.w("cartesian", "S<cartesian_product_t<%s>, type_list<%s>>" % (", ".join("type_list<N<%d>, N<%d>>" % (2 * i, 2 * i + 1) for i in range(k)), ", ".join(tl(["N<%d>" % (2 * i + x) for i, x in enumerate(c)]) for c in itertools.product((0, 1), repeat=k))), "%d lists of two types" % k)
        o.w("cartesian", "S<cartesian_product_t<%s>, type_list<%s>>" % (", ".join(vl([str(2 * i), str(2 * i + 1)]) for i in range(k)), ", ".join(vl([str(2 * i + x) for i, x in enumerate(c)]) for c in itertools.product((0, 1), repeat=k))), "%d lists of two values" % k)
    for k in (8, 12, 20, 40):
        o.w("cartesian", "S<cartesian_product_t<%s>, type_list<IX<%d>::distinct>>" % (", ".join("type_list<N<%d>>" % i for i in range(k)), k), "%d lists of one type" % k)
        o.w("cartesian", "S<cartesian_product_t<%s>, type_list<VX<%d, 0>::asc>>" % (", ".join("value_list<%d>" % i for i in range(k)), k), "%d lists of one value" % k)
    return o


def p04(tier, seed):
    rng = random.Random(seed + 4)
    big = tier == "thorough"
    o = Out(VPRE % "value_list.h" + "#include <utils/common.h>\n")
    alpha = ["1", "1L", "2", "true", "E1::b"]
    allT = sorted(set(VT.values()))
    for k, l in enumerate(lists(rng, alpha, 4 if big else 3, VALS, 150 if not big else 600, 12 if not big else 30)):
        l = list(l)
        if o.n >= 1500:
            o.cut()
        L = "L%d" % k
        d = " of " + vl(l) if len(l) < 6 else ""
        o.raw("using %s = %s;" % (L, vl(l)))
        o.w("size", "%s::size == %d" % (L, len(l)), "size" + d)
        if l:
            o.w("at", " && ".join("%s::at<%d> == %s && S<%s::at_t<%d>, %s>" % (L, i, v, L, i, VT[v]) for i, v in enumerate(l)), "at" + d)
        probes = sorted(set(alpha + l + [rng.choice(VALS)]))
        o.w("index_of", " && ".join("%s::index_of<%s> == %d" % (L, v, first(l, lambda e: e == v)) for v in probes), "index_of" + d)
        o.w("count_of", " && ".join("%s::count_of<%s> == %d" % (L, v, l.count(v)) for v in probes), "count_of" + d)
        o.w("contains", " && ".join("%s::contains_v<%s> == %s && %s::contains<%s>::value == %s" % (L, v, b(v in l), L, v, b(v in l)) for v in probes), "contains" + d)
        o.w("is_same", "%s::is_same_v == %s && %s::is_same::value == %s" % (L, b(len(set(l)) <= 1), L, b(len(set(l)) <= 1)), "is_same" + d)
        o.w("contains_copies", "%s::contains_copies == %s" % (L, b(len(set(l)) != len(l))), "contains_copies" + d)
        ts = allT if len(l) < 3 or big else sorted(set(VT[v] for v in l) | {"int", "bool", "float"})
        o.w("contains_type", " && ".join("%s::contains_type<%s> == %s" % (L, t, b(any(VT[v] == t for v in l))) for t in ts), "contains_type" + d)
        o.w("list_all_of", " && ".join("S<%s::list_all_of_t<%s>, %s>" % (L, t, vl([v for v in l if VT[v] == t])) for t in ts), "list_all_of" + d)
        for t in sorted(set(VT[v] for v in l)):
            sub = [v for v in l if VT[v] == t]
            if sub[0] in VV:
                mn, mx = min(sub, key=lambda v: VV[v]), max(sub, key=lambda v: VV[v])
                o.w("min_max", "%s::min<%s> == %s && %s::max<%s> == %s && S<decltype(%s::min<%s>), const %s> && S<decltype(%s::max<%s>), const %s>" % (L, t, mn, L, t, mx, L, t, t, L, t, t), "min/max of " + t + d)
        o.w("is_value_list", "is_value_list_v<%s> && is_value_list<%s>::value" % (L, L), "is_value_list" + d)
    o.w("is_value_list", "!is_value_list_v<int> && !is_value_list_v<type_list<>> && !is_value_list_v<type_list<int>> && !is_value_list_v<const int&>", "is_value_list of other types")
    o.cut()
    lim = {"signed char": (-128, 127), "unsigned char": (0, 255), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1), "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1),
           "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "long long": (-2**63, 2**63 - 1), "char": (-128, 127), "unsigned long long": (0, 2**64 - 1)}

    def lit(t, v):
        if v == -2**63:
            return "%s{-9223372036854775807ll - 1}" % t.replace("unsigned long long", "std::uint64_t").replace("long long", "LL")
        return "(%s)%d%s" % (t, v, "ull" if v > 2**63 - 1 else "ll" if abs(v) > 2**31 - 1 else "")

    o.raw("using LL = long long;")
    o.raw(VLONG)

    def rangew(t, a, z):
        o.w("values_in_range", "S<values_in_range_t<%s, %s>, value_list<%s>> && S<typename values_in_range<%s, %s>::type, value_list<%s>>" %
            ((lit(t, a), lit(t, z), ", ".join(lit(t, v) for v in range(a, z + 1))) * 2), "%s %d..%d" % (t, a, z))

    for t, (lo, hi) in lim.items():
        for a in range(-3, 4):
            for z in range(a, a + 5):
                if lo <= a and z <= hi:
                    rangew(t, a, z)
        for k in (0, 1, 5):
            if lo != -2**63:
                rangew(t, lo, lo + k)
            rangew(t, hi - k, hi)
        for _ in range(4):
            a = rng.randint(lo + 1, hi - 200)
            rangew(t, a, a + rng.randint(0, 150))
    o.w("values_in_range", "S<values_in_range_t<0, 999>, VX<1000, 0>::asc> && S<values_in_range_t<-300L, 299L>, VX<600, -300L>::asc> && S<values_in_range_t<(short)-400, (short)-1>, VX<400, (short)-400>::asc> && S<values_in_range_t<UINT64_MAX - 299, UINT64_MAX>, VX<300, UINT64_MAX - 299>::asc>", "long ranges")
    rangew("unsigned char", 0, 255)
    rangew("signed char", -128, 127)
    o.w("shifted_sequence", "S<shifted_sequence_t<std::index_sequence<0, 1, 2>, 3>, std::index_sequence<3, 4, 5>> && S<shifted_sequence_t<std::index_sequence<>, 3>, std::index_sequence<>> && S<shifted_sequence_t<std::index_sequence<7, 7, 0>, 300>, std::index_sequence<307, 307, 300>>", "index sequences")
    o.w("shifted_sequence", "S<shifted_sequence_t<std::integer_sequence<int, 5, -2, 0>, -4>, std::integer_sequence<int, 1, -6, -4>> && S<shifted_sequence_t<std::integer_sequence<long, 1, 2>, 0x100000000L>, std::integer_sequence<long, 0x100000001L, 0x100000002L>> && S<shifted_sequence<std::make_index_sequence<40>, 1000>::type, shifted_sequence_t<std::make_index_sequence<40>, 1000>>", "signed and wide sequences")
    o.w("values_in_range", "S<values_in_range_t<(short)2, 5>, value_list<2, 3, 4, 5>> && S<values_in_range_t<2, 4L>, value_list<2L, 3L, 4L>> && S<values_in_range_t<(char)1, 3u>, value_list<1u, 2u, 3u>>", "mixed types")
    return [("p04", o), ("p04-pairs", p04_pairs()), ("p04-long", p04_long(big))]


# value -> type; no two are the same value of the same type
NEARV = [("1", "int"), ("1L", "long"), ("1LL", "long long"), ("1u", "unsigned"), ("1ul", "unsigned long"), ("1ull", "unsigned long long"), ("true", "bool"), ("(char)1", "char"), ("(signed char)1", "signed char"), ("(unsigned char)1", "unsigned char"),
         ("(short)1", "short"), ("(unsigned short)1", "unsigned short"), ("(char16_t)1", "char16_t"), ("(char32_t)1", "char32_t"), ("(wchar_t)1", "wchar_t"), ("E1::b", "E1"), ("E2::b", "E2"), ("EU::b", "EU"), ("std::byte{1}", "std::byte"),
         ("0", "int"), ("-1", "int"), ("-1L", "long"), ("UINT64_MAX", "unsigned long"), ("UINT32_MAX", "unsigned"), ("257", "int"), ("65537", "int"), ("-255", "int"), ("(short)257", "short"), ("256u", "unsigned"), ("(unsigned short)256", "unsigned short"),
         ("0x100000001L", "long"), ("0x100000001ul", "unsigned long"), ("0x100000000L", "long"), ("0x8000000000000001ul", "unsigned long"), ("-0x7fffffffffffffffL", "long"), ("0x100000001ull", "unsigned long long"), ("INT_MIN", "int"), ("INT_MAX", "int"), ("0L", "long"), ("0u", "unsigned"), ("false", "bool"),
         ("E1::a", "E1"), ("E2::a", "E2"), ("EL{0x100000001L}", "EL"), ("EL{1}", "EL"), ("EL{-1}", "EL"), ("std::byte{0}", "std::byte"), ("&g1", "int*"), ("&g2", "int*"), ("&ga[0]", "int*"), ("(int*)nullptr", "int*"), ("&gc", "const int*"), ("nullptr", "std::nullptr_t"),
         ("&f1", "void (*)()"), ("&f2", "void (*)()"), ("&f3", "int (*)(int)"), ("&M::a", "int M::*"), ("&M::b", "int M::*"), ("&M::f", "void (M::*)()"), ("&M::g", "void (M::*)()"), ("&M::h", "void (M::*)() const"), ("(int M::*)nullptr", "int M::*")]


def p04_pairs():
    o = Out(VPRE % "value_list.h" + "enum EU : unsigned char { EU_a, EU_b }; enum class EL : long {}; inline int ga[2]; inline const int gc = 1; inline void f1() {} inline void f2() {} inline int f3(int) { return 0; } struct M { int a, b; void f() {} void g() {} void h() const {} };\n")
    near = [(v.replace("EU::b", "EU_b"), t) for v, t in NEARV]
    for i, (v, t) in enumerate(near):
        # an array subobject may not be a template argument
        if v == "&ga[0]":
            continue
        c = []
        for j, (u, _) in enumerate(near):
            if u == "&ga[0]":
                continue
            e = i == j
            n = "" if e else "!"
            c.append("value_list<{v}>::index_of<{u}> == {k} && value_list<{v}>::count_of<{u}> == {m} && {n}value_list<{v}>::contains_v<{u}> && {n}value_list<{v}>::contains<{u}>::value && {n}value_list<{v}, {u}>::is_same_v && {n}value_list<{v}, {u}>::is_same::value && {n}value_list<{v}, {u}>::contains_copies"
                     .format(v=v, u=u, k=0 if e else 1, m=1 if e else 0, n=n))
        for a in range(0, len(c), 8):
            o.w("same", " && ".join(c[a:a + 8]), "%s compared with others" % v)
        o.w("at", "value_list<{v}>::at<0> == {v} && S<value_list<{v}>::at_t<0>, {t}> && value_list<0, {v}, 0>::at<1> == {v} && S<value_list<0, {v}, 0>::at_t<1>, {t}>".format(v=v, t=t), v)
        o.w("types", "value_list<{v}>::contains_type<{t}> && S<value_list<{v}>::list_all_of_t<{t}>, value_list<{v}>> && !value_list<{v}>::contains_type<const {t2}> && S<value_list<{v}>::list_all_of_t<float>, value_list<>>".format(v=v, t=t, t2="float"), v)
    arith = [(v, t) for v, t in near if t in ("int", "long", "unsigned", "unsigned long", "unsigned long long", "long long", "bool", "short", "unsigned short", "char", "signed char", "unsigned char")]
    lit = {"UINT64_MAX": 2**64 - 1, "UINT32_MAX": 2**32 - 1, "INT_MIN": -2**31, "INT_MAX": 2**31 - 1, "true": 1, "false": 0}

    def num(v):
        import re
        if v in lit:
            return lit[v]
        return int(re.sub(r"\(.*?\)|[uUlL]+$", "", v), 0)
    for t in sorted({t for _, t in arith}):
        vs = [v for v, u in arith if u == t]
        for a, c in itertools.product(vs, repeat=2):
            o.w("min_max", "value_list<{a}, nullptr, {c}, E1::a>::min<{t}> == {mn} && value_list<nullptr, {a}, 7.5F > 7, {c}>::max<{t}> == {mx}".format(a=a, c=c, t=t, mn=min(a, c, key=num), mx=max(a, c, key=num)).replace(", 7.5F > 7", ""), "of %s and %s" % (a, c))
    # values listed by reference: types are told apart from those of the objects
    o.raw("struct R { static constexpr int a = 1, b = 2; static constexpr long c = 1; static constexpr bool t = true; };")
    L = "value_list<(R::a), 1, (R::b), (R::c), R::a, (R::a)>"
    o.raw("using RL = %s;" % L)
    o.w("references", "RL::size == 6 && S<RL::at_t<0>, const int&> && S<RL::at_t<1>, int> && S<RL::at_t<3>, const long&> && S<RL::at_t<4>, const int> | S<RL::at_t<4>, int> && &RL::at<0> == &R::a && &RL::at<2> == &R::b && RL::at<1> == 1".replace("S<RL::at_t<4>, const int> | S<RL::at_t<4>, int>", "(S<RL::at_t<4>, const int> || S<RL::at_t<4>, int>)"), "access")
    o.w("references", "RL::contains_type<const int&> && RL::contains_type<int> && RL::contains_type<const long&> && !RL::contains_type<long> && !RL::contains_type<int&> && !RL::contains_type<bool> && !value_list<(R::a)>::contains_type<int> && !value_list<(R::a)>::contains_type<const int> && !value_list<1>::contains_type<const int&> && !value_list<1>::contains_type<int&>", "contains_type")
    # clang 18 does not match a partial specialization with a decltype(auto) parameter against a reference
    o.raw("#ifndef __clang__")
    o.w("references", "RL::index_of<(R::a)> == 0 && RL::index_of<1> == 1 && RL::index_of<(R::b)> == 2 && RL::index_of<(R::c)> == 3 && RL::index_of<(R::t)> == 6 && RL::count_of<(R::a)> == 2 && RL::count_of<(R::c)> == 1 && RL::count_of<1L> == 0 && RL::count_of<2> == 0", "index_of and count_of")
    o.w("references", "!value_list<(R::a), 1>::is_same_v && !value_list<(R::a), 1>::contains_copies && value_list<(R::a), (R::a)>::is_same_v && value_list<1, (R::a), (R::a)>::contains_copies && !value_list<(R::a), (R::b)>::is_same_v && !value_list<(R::a), (R::c), (R::t)>::contains_copies && !RL::contains_v<true> && RL::contains_v<(R::c)>", "same type and value")
    o.raw("#endif")
    return o


def p04_long(big):
    o = Out(VPRE % "value_list.h" + VLONG)
    for n in (16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300) + ((512, 513) if big else ()):
        idx = sorted({i for i in (0, 1, n // 2, n - 2, n - 1, 127, 128, 254, 255, 256, 257) if i < n})
        for base, t, suf in ((0, "int", ""), (-150, "long", "L"), (2**64 - 600, "unsigned long", "ul")):
            if base and n not in (17, 129, 257):
                continue
            L, D, S_ = ("VX<%d, %d%s>::%s" % (n, base, suf, x) for x in ("asc", "desc", "same"))
            v = lambda i: "%d%s" % (base + i, suf)
            o.w("size", "%s::size == %d" % (L, n), "size of %d" % n)
            o.w("at", " && ".join("%s::at<%d> == %s && S<%s::at_t<%d>, %s>" % (L, i, v(i), L, i, t) for i in idx), "at in a list of %d" % n)
            o.w("index_of", " && ".join("%s::index_of<%s> == %d" % (L, v(i), i) for i in idx) + " && %s::index_of<%s> == %d && %s::index_of<true> == %d" % (L, v(n), n, L, n), "index_of in a list of %d" % n)
            o.w("contains", " && ".join("%s::contains_v<%s> && %s::count_of<%s> == 1" % (L, v(i), L, v(i)) for i in idx) + " && !%s::contains_v<%s> && %s::count_of<%s> == 0 && !%s::contains_v<true>" % (L, v(n), L, v(n), L), "contains in a list of %d" % n)
            o.w("count_of", "%s::count_of<%s> == %d && %s::contains_v<%s> && %s::is_same_v && %s::contains_copies" % (S_, v(0), n, S_, v(0), S_, S_), "%d copies" % n)
            o.w("is_same", "!%s::is_same_v && !VX<%d, %d%s>::but<0>::is_same_v && !VX<%d, %d%s>::but<%d>::is_same_v" % (L, n, base, suf, n, base, suf, n - 1), "is_same of %d" % n)
            if n < 40 or n == 257 and not base and big:
                V = "VX<%d, %d%s>" % (n, base, suf)
                o.w("contains_copies", "!%s::contains_copies && %s::dup<0, %d>::contains_copies && %s::dup<%d, 0>::contains_copies && %s::dup<%d, %d>::contains_copies" % (L, V, n - 1, V, n - 1, V, n - 1, n - 2), "contains_copies of %d" % n)
            o.w("types", "%s::contains_type<%s> && !%s::contains_type<bool> && S<%s::list_all_of_t<%s>, %s> && S<%s::list_all_of_t<bool>, value_list<>>" % (L, t, L, L, t, L, L), "types of %d" % n)
            if n > 70:  # quadratic in std::tuple
                continue
            o.w("min_max", "{L}::min<{t}> == {a} && {L}::max<{t}> == {z} && {D}::min<{t}> == {a} && {D}::max<{t}> == {z} && {S}::min<{t}> == {a} && {S}::max<{t}> == {a}".format(L=L, D=D, S=S_, t=t, a=v(0), z=v(n - 1)), "min/max of %d" % n)
    return o
