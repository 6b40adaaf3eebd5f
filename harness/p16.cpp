#include "irai.h"
#include <utils/common.h>
#include <memory>
// run-time part of the builders and visitors: unknown values, recorded visits
struct Visit
{
    unsigned calls = 0;
    std::uint64_t value[8];
    int cat[8];  // 1 lvalue, 2 const lvalue, 3 rvalue
};
static Visit log_;
struct V
{
    std::uint64_t v;
    unsigned copies = 0, moves = 0;
    explicit V(std::uint64_t x) noexcept : v(x) {}
    V(const V& o) noexcept : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    V(V&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = 0xdead; }
    V& operator=(const V&) = default;
};
static std::uint64_t val(const V& x) { return x.v; }
static std::uint64_t val(std::uint64_t x) { return x; }
static std::uint64_t val(std::uint32_t x) { return x; }
static std::uint64_t val(std::uint8_t x) { return x; }
struct Visitor
{
    template <typename X> void operator()(X&& x)
    {
        unsigned i = log_.calls++;
        if (i >= 8) __v_fail("visitor called too often");
        log_.value[i] = val(x);
        log_.cat[i] = std::is_rvalue_reference_v<X&&> ? 3 : std::is_const_v<std::remove_reference_t<X>> ? 2 : 1;
    }
};
static void expect(unsigned i, std::uint64_t v, int cat)
{
    CHECK(log_.value[i] == v, "the visitor gets the elements in order");
    CHECK(log_.cat[i] == cat, "the visitor gets the element's value category");
}
ENTRY p16_for_each_arg()
{
    std::uint64_t a = any<std::uint64_t>("a");
    const std::uint32_t b = any<std::uint32_t>("b");
    V c(any<std::uint64_t>("c"));
    std::uint64_t cv = c.v;
    std::uint8_t d = any<std::uint8_t>("d");
    Visitor f;
    switch (__v_choice(4, "call"))
    {
        case 0:
            utils::for_each_arg(f, a, b, static_cast<V&&>(c), static_cast<std::uint8_t>(d));
            CHECK(log_.calls == 4, "the visitor is called once per argument");
            expect(0, a, 1);
            expect(1, b, 2);
            expect(2, cv, 3);
            expect(3, d, 3);
            break;
        case 1:
            utils::for_each_arg(Visitor{}, b, a);
            CHECK(log_.calls == 2, "the visitor is called once per argument");
            expect(0, b, 2);
            expect(1, a, 1);
            break;
        case 2:
            utils::for_each_arg(f);
            CHECK(log_.calls == 0, "no argument, no call");
            break;
        case 3:
            utils::for_each_arg(f, c, c, static_cast<const V&>(c), a, a, b, d);
            CHECK(log_.calls == 7, "the visitor is called once per argument");
            expect(0, cv, 1);
            expect(1, cv, 1);
            expect(2, cv, 2);
            expect(3, a, 1);
            expect(4, a, 1);
            expect(5, b, 2);
            expect(6, d, 1);
            break;
    }
    CHECK(c.v == cv && c.copies == 0, "visiting neither copies nor moves");
}
ENTRY p16_for_each_in_tuple()
{
    std::uint64_t a = any<std::uint64_t>("a"), b = any<std::uint64_t>("b");
    std::uint8_t d = any<std::uint8_t>("d");
    Visitor f;
    switch (__v_choice(5, "tuple"))
    {
        case 0:
        {
            std::tuple<std::uint64_t, V, std::uint8_t> t(a, V(b), d);
            unsigned copies = std::get<1>(t).copies;
            utils::for_each_in_tuple(f, t);
            CHECK(log_.calls == 3, "the visitor is called once per element");
            expect(0, a, 1);
            expect(1, b, 1);
            expect(2, d, 1);
            CHECK(std::get<1>(t).copies == copies && std::get<1>(t).v == b, "visiting neither copies nor moves");
            break;
        }
        case 1:
        {
            const std::tuple<std::uint64_t, V> t(a, V(b));
            utils::for_each_in_tuple(f, t);
            CHECK(log_.calls == 2, "the visitor is called once per element");
            expect(0, a, 2);
            expect(1, b, 2);
            break;
        }
        case 2:
            utils::for_each_in_tuple(Visitor{}, std::tuple<std::uint64_t, V, std::uint8_t>(a, V(b), d));
            CHECK(log_.calls == 3, "the visitor is called once per element");
            expect(0, a, 3);
            expect(1, b, 3);
            expect(2, d, 3);
            break;
        case 3:
        {
            std::tuple<> t;
            utils::for_each_in_tuple(f, t);
            CHECK(log_.calls == 0, "no element, no call");
            break;
        }
        case 4:
        {
            V c(b);
            std::tuple<std::uint64_t&, V&, const V&> t(a, c, c);
            utils::for_each_in_tuple(f, t);
            CHECK(log_.calls == 3, "the visitor is called once per element");
            expect(0, a, 1);
            expect(1, b, 1);
            expect(2, b, 2);
            break;
        }
    }
}
ENTRY p16_arrays()
{
    std::uint64_t a = any<std::uint64_t>("a"), b = any<std::uint64_t>("b"), c = any<std::uint64_t>("c");
    std::uint8_t d = any<std::uint8_t>("d");
    switch (__v_choice(8, "builder"))
    {
        case 0:
        {
            auto r = utils::make_array(a, b, c, a);
            CHECK(r.size() == 4 && r[0] == a && r[1] == b && r[2] == c && r[3] == a, "make_array keeps every element in order");
            break;
        }
        case 1:
        {
            auto r = utils::make_array<std::uint64_t, 5>(a);
            for (auto x: r) CHECK(x == a, "make_array repeats its value");
            CHECK(r.size() == 5, "make_array has the length asked for");
            break;
        }
        case 2:
        {
            auto x = utils::make_array(a, b);
            auto y = utils::make_array(c);
            auto z = utils::make_array(c, a, b);
            auto r = utils::concatenate_arrays(x, y, z);
            CHECK(r.size() == 6 && r[0] == a && r[1] == b && r[2] == c && r[3] == c && r[4] == a && r[5] == b, "concatenation keeps every element in order");
            auto q = utils::concatenate_arrays(y, static_cast<std::array<std::uint64_t, 2>&&>(x));
            CHECK(q.size() == 3 && q[0] == c && q[1] == a && q[2] == b, "concatenation keeps every element in order");
            auto o = utils::concatenate_arrays(z);
            CHECK(o == z, "concatenating one array gives that array");
            break;
        }
        case 3:
        {
            char s[4] = {static_cast<char>(a), static_cast<char>(b), static_cast<char>(c), static_cast<char>(d)};
            auto r = utils::make_array<3, std::uint8_t>(std::string_view(s, 4));
            CHECK(r.size() == 3, "array from a view has the length asked for");
            for (unsigned i = 0; i < 3; ++i) CHECK(r[i] == static_cast<std::uint8_t>(s[i]), "array from a view keeps the characters");
            auto q = utils::sv_to_array<3, 0, 2, 2>(std::string_view(s, 4));
            CHECK(q.size() == 4 && q[0] == s[3] && q[1] == s[0] && q[2] == s[2] && q[3] == s[2], "sv_to_array picks the listed positions");
            break;
        }
        case 4:
        {
            V x(a), y(b);
            auto r = utils::make_array(x, static_cast<V&&>(y));
            CHECK(r.size() == 2 && r[0].v == a && r[1].v == b, "make_array keeps every element in order");
            CHECK(r[0].copies == 1 && r[0].moves == 0 && x.v == a, "lvalues are copied once");
            CHECK(r[1].copies == 0 && r[1].moves == 1, "rvalues are moved once");
            break;
        }
        case 5:
        {
            V x(a);
            auto r = utils::make_array<V, 3>(x);
            for (auto& e: r) CHECK(e.v == a, "make_array repeats its value");
            CHECK(x.v == a, "the argument stays intact");
            std::array<V, 2> l{V(b), V(c)}, m{V(a), V(b)};
            auto q = utils::concatenate_arrays(l, static_cast<std::array<V, 2>&&>(m));
            CHECK(q[0].v == b && q[1].v == c && q[2].v == a && q[3].v == b, "no argument is moved from twice");
            CHECK(l[0].v == b && l[1].v == c, "lvalue arrays stay intact");
            CHECK(q[2].copies == 0 && q[3].copies == 0, "elements of rvalue arrays are moved");
            break;
        }
        case 6:
        {
            std::array<V, 2> l{V(b), V(c)};
            const std::array<V, 1> k{V(a)};
            auto o = utils::concatenate_arrays(l);
            CHECK(o[0].v == b && o[1].v == c && l[0].v == b && l[1].v == c, "a single array is copied");
            auto t = utils::concatenate_arrays(k);
            CHECK(t[0].v == a && k[0].v == a, "a single array is copied");
            auto u = utils::concatenate_arrays(static_cast<std::array<V, 2>&&>(o));
            CHECK(u[0].v == b && u[1].v == c && u[0].copies == 1 && u[1].copies == 1, "a single rvalue array is moved");
            auto q = utils::concatenate_arrays(l, k, l, static_cast<std::array<V, 2>&&>(u), k);
            CHECK(q.size() == 8 && q[0].v == b && q[1].v == c && q[2].v == a && q[3].v == b && q[4].v == c && q[5].v == b && q[6].v == c && q[7].v == a, "concatenation keeps every element in order");
            CHECK(l[0].v == b && l[1].v == c && k[0].v == a, "lvalue arrays stay intact");
            CHECK(q[0].copies == 1 && q[3].copies == 1 && q[7].copies == 1 && q[5].copies == 1, "elements are copied from lvalues only");
            break;
        }
        case 7:
        {
            V x(a);
            const V y(b);
            auto r = utils::make_array(x, y, x, V(c), static_cast<const V&>(x));
            CHECK(r.size() == 5 && r[0].v == a && r[1].v == b && r[2].v == a && r[3].v == c && r[4].v == a, "make_array keeps every element in order");
            CHECK(x.v == a && y.v == b, "lvalues stay intact");
            auto s = utils::make_array<V, 4>(static_cast<V&&>(x));
            for (auto& e: s) CHECK(e.v == a, "make_array repeats its value");
            auto t = utils::make_array<V, 1>(y);
            CHECK(t.size() == 1 && t[0].v == b && y.v == b, "make_array repeats its value");
            break;
        }
    }
}
ENTRY p16_zero()
{
    auto z = utils::make_zero_array<std::uint32_t, 4>();
    for (auto x: z) CHECK(x == 0, "zero array holds zeros");
    CHECK(z.size() == 4, "zero array has the length asked for");
    auto r = utils::make_array_from_range<3, 11, 4>();
    CHECK(r.size() == 3 && r[0] == 3 && r[1] == 7 && r[2] == 11, "range with a step");
}
