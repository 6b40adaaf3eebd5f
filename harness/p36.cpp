// P36: an exception thrown by user code (copying an element, a visitor) leaves
// through the library to the caller, once, and nothing constructed is lost.
#include "irai.h"
#include <utils/common.h>
static int alive;      // elements constructed and not yet destroyed
static unsigned countdown; // operations until one throws, 0 never
static bool thrown;
static void mayThrow()
{
    if (countdown && !--countdown)
    {
        thrown = true;
        __v_throw();
    }
}
struct E
{
    std::uint32_t v;
    explicit E(std::uint32_t x) noexcept : v(x) { ++alive; }
    E(const E& o) : v(o.v)
    {
        mayThrow();
        ++alive;
    }
    E(E&& o) noexcept : v(o.v) { ++alive; }
    E& operator=(const E& o) = default;
    ~E() { --alive; }
};
// moving may throw as well
struct M
{
    std::uint32_t v;
    explicit M(std::uint32_t x) noexcept : v(x) { ++alive; }
    M(const M& o) : v(o.v)
    {
        mayThrow();
        ++alive;
    }
    M(M&& o) : v(o.v)
    {
        mayThrow();
        ++alive;
    }
    ~M() { --alive; }
};
template <typename F> static void guarded(F&& f)
{
    const int before = alive;
    bool caught = false;
    thrown = false;
    countdown = __v_choice(7, "operation that throws");
    try
    {
        f();
    }
    catch (...)
    {
        caught = true;
        CHECK(__v_original(), "the exception that reaches the caller is the one thrown");
    }
    countdown = 0;
    CHECK(caught == thrown, "the exception reaches the caller");
    CHECK(alive == before, "every element that was constructed is destroyed");
}
template <typename T> static void builders()
{
    T a(1), b(2), c(3);
    const T& k = a;
    std::array<T, 2> p{T(4), T(5)};
    std::array<T, 1> q{T(6)};
    switch (__v_choice(7, "builder"))
    {
        case 0: guarded([&] { (void)utils::make_array(a, k, c); }); break;
        case 1: guarded([&] { (void)utils::make_array(static_cast<T&&>(a), b, static_cast<T&&>(c)); }); break;
        case 2: guarded([&] { (void)utils::make_array<T, 3>(a); }); break;
        case 3: guarded([&] { (void)utils::make_array<T, 2>(T(9)); }); break;
        case 4: guarded([&] { (void)utils::concatenate_arrays(p, q); }); break;
        case 5: guarded([&] { (void)utils::concatenate_arrays(static_cast<std::array<T, 2>&&>(p), q, p); }); break;
        case 6: guarded([&] { auto r = utils::concatenate_arrays(p); }); break;
    }
}
ENTRY p36_builders()
{
    if (__v_choice(2, "elements"))
        builders<E>();
    else
        builders<M>();
    CHECK(alive == 0, "every element that was constructed is destroyed");
}
static unsigned calls, throwAt;
struct Visitor
{
    template <typename X> void operator()(X&&)
    {
        if (++calls == throwAt) __v_throw();
    }
};
ENTRY p36_visitors()
{
    throwAt = __v_choice(5, "call that throws");
    std::uint32_t a = any<std::uint32_t>("a");
    bool caught = false;
    try
    {
        switch (__v_choice(3, "visit"))
        {
            case 0: utils::for_each_arg(Visitor{}, a, 2, a, 4u); break;
            case 1: utils::for_each_in_tuple(Visitor{}, std::make_tuple(a, 2, 3u, 4l)); break;
            case 2:
            {
                std::array<std::uint32_t, 4> r{{a, 1, 2, 3}};
                Visitor v;
                utils::for_each_in_tuple(v, r);
                break;
            }
        }
    }
    catch (...)
    {
        caught = true;
        CHECK(__v_original(), "the exception that reaches the caller is the one thrown");
    }
    CHECK(caught == (throwAt != 0), "the exception of a visitor reaches the caller");
    CHECK(calls == (throwAt ? throwAt : 4), "nothing is visited after the visitor threw");
}
