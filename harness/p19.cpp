#include "irai.h"
#include <utils/fast_pimpl.h>
// ghost log of everything that happens to implementation objects
enum Kind { DEF, ARGS, COPY, MOVE, CASSIGN, MASSIGN, DTOR };
struct Ev { Kind k; const void* self; const void* other; };
static Ev ev[32];
static unsigned nev;
static void add(Kind k, const void* s, const void* o) noexcept { if (nev < 32) ev[nev] = {k, s, o}; ++nev; }
static bool throwing;
struct Arg
{
    std::uint32_t v;
    unsigned copies = 0, moves = 0;
    explicit Arg(std::uint32_t x) noexcept : v(x) {}
    Arg(const Arg& o) noexcept : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    Arg(Arg&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = 0; }
};
struct Only
{
    std::uint32_t v;
    explicit Only(std::uint32_t x) noexcept : v(x) {}
    Only(Only&& o) noexcept : v(o.v) { o.v = 0; }
    Only(const Only&) = delete;
};
struct Impl
{
    std::uint32_t v = 7;
    Arg a{1}, b{2};
    Only c{3};
    Impl() { if (throwing) __v_throw(); add(DEF, this, nullptr); }
    template <typename A, typename B>
    Impl(A&& x, B&& y, Only&& z, std::uint32_t w) : v(w), a(static_cast<A&&>(x)), b(static_cast<B&&>(y)), c(static_cast<Only&&>(z))
    {
        if (throwing) __v_throw();
        add(ARGS, this, nullptr);
    }
    Impl(const Impl& o) : v(o.v) { if (throwing) __v_throw(); add(COPY, this, &o); }
    Impl(Impl&& o) : v(o.v) { if (throwing) __v_throw(); add(MOVE, this, &o); }
    Impl& operator=(const Impl& o) { v = o.v; add(CASSIGN, this, &o); return *this; }
    Impl& operator=(Impl&& o) { v = o.v; add(MASSIGN, this, &o); return *this; }
    ~Impl() { add(DTOR, this, nullptr); }
};
using P = utils::fast_pimpl<Impl, sizeof(Impl), alignof(Impl)>;
static_assert(sizeof(P) == sizeof(Impl), "WITNESS the storage is the object");
struct Slot
{
    alignas(P) unsigned char raw[sizeof(P)];
};
static bool in(const void* p, const Slot& s)
{
    return p >= static_cast<const void*>(s.raw) && p < static_cast<const void*>(s.raw + sizeof(Slot));
}
// exactly the events [from, nev) are the given one
static void only(unsigned from, Kind k, const Slot& s, const void* other)
{
    CHECK(nev == from + 1, "exactly one operation on the implementation");
    CHECK(ev[from].k == k, "the operation of the implementation matches");
    CHECK(in(ev[from].self, s), "the implementation lives in the pimpl");
    CHECK(ev[from].other == other, "the operation takes the right source");
}
static void accessors(Slot& s, std::uint32_t v)
{
    P& p = *reinterpret_cast<P*>(s.raw);
    const P& c = p;
    const void* obj = &p.get();
    CHECK(in(obj, s), "get refers to the contained object");
    CHECK(p.operator->() == obj && c.operator->() == obj && &c.get() == obj, "all accessors refer to the same object");
    CHECK(p->v == v && c->v == v, "accessors see the value");
    std::uint32_t n = any<std::uint32_t>("write");
    p->v = n;
    CHECK(c.get().v == n, "writes through the pimpl reach the object");
    p->v = v;
}
static void destroy(Slot& s)
{
    P& p = *reinterpret_cast<P*>(s.raw);
    const void* obj = &p.get();
    unsigned from = nev;
    p.~P();
    only(from, DTOR, s, nullptr);
    CHECK(ev[from].self == obj, "the contained object is destroyed");
}
ENTRY p19_construct()
{
    Slot s;
    std::uint32_t v = any<std::uint32_t>("value"), w = any<std::uint32_t>("arg"), x = any<std::uint32_t>("arg2"), y = any<std::uint32_t>("arg3");
    switch (__v_choice(7, "constructor"))
    {
        case 0:
        {
            new (s.raw) P();
            only(0, DEF, s, nullptr);
            accessors(s, 7);
            break;
        }
        case 1:
        {
            Arg a(w), b(x);
            Only c(y);
            new (s.raw) P(utils::forwarding_constructor{}, a, static_cast<Arg&&>(b), static_cast<Only&&>(c), v);
            only(0, ARGS, s, nullptr);
            P& p = *reinterpret_cast<P*>(s.raw);
            CHECK(p->v == v && p->a.v == w && p->b.v == x && p->c.v == y, "arguments arrive in order");
            CHECK(p->a.copies == 1 && p->a.moves == 0 && a.v == w, "lvalue arguments are copied");
            CHECK(p->b.copies == 0 && p->b.moves == 1, "rvalue arguments are moved");
            accessors(s, v);
            break;
        }
        case 2:
        {
            const Arg a(w), b(x);
            new (s.raw) P(utils::forwarding_constructor{}, a, b, Only(y), v);
            only(0, ARGS, s, nullptr);
            P& p = *reinterpret_cast<P*>(s.raw);
            CHECK(p->v == v && p->a.v == w && p->b.v == x && p->c.v == y, "arguments arrive in order");
            CHECK(p->a.copies == 1 && p->b.copies == 1 && p->a.moves == 0 && p->b.moves == 0, "const lvalue arguments are copied");
            accessors(s, v);
            break;
        }
        case 3:
        case 4:
        {
            Impl o;
            o.v = v;
            bool copy = __v_choice(2, "copy");
            unsigned from = nev;
            if (copy)
                new (s.raw) P(static_cast<const Impl&>(o));
            else
                new (s.raw) P(static_cast<Impl&&>(o));
            only(from, copy ? COPY : MOVE, s, &o);
            accessors(s, v);
            break;
        }
        default:
        {
            Slot t;
            new (t.raw) P();
            P& q = *reinterpret_cast<P*>(t.raw);
            q->v = v;
            bool copy = __v_choice(2, "copy");
            unsigned from = nev;
            if (copy)
                new (s.raw) P(static_cast<const P&>(q));
            else
                new (s.raw) P(static_cast<P&&>(q));
            only(from, copy ? COPY : MOVE, s, &q.get());
            CHECK(in(ev[from].other, t), "the source is the other implementation");
            accessors(s, v);
            destroy(t);
            break;
        }
    }
    destroy(s);
}
ENTRY p19_assign()
{
    Slot s, t;
    new (s.raw) P();
    new (t.raw) P();
    P &p = *reinterpret_cast<P*>(s.raw), &q = *reinterpret_cast<P*>(t.raw);
    std::uint32_t v = any<std::uint32_t>("value");
    Impl o;
    o.v = v;
    q->v = v;
    p->v = any<std::uint32_t>("old");
    unsigned from = nev;
    const void* back = nullptr;
    Kind k = CASSIGN;
    const void* src = nullptr;
    switch (__v_choice(5, "assignment"))
    {
        case 0: back = &(p = static_cast<const P&>(q)); src = &q.get(); break;
        case 1: back = &(p = static_cast<P&&>(q)); k = MASSIGN; src = &q.get(); break;
        case 2: back = &(p = static_cast<const Impl&>(o)); src = &o; break;
        case 3: back = &(p = static_cast<Impl&&>(o)); k = MASSIGN; src = &o; break;
        case 4: back = &(p = q); src = &q.get(); break;
    }
    only(from, k, s, src);
    CHECK(ev[from].self == &p.get(), "assignment assigns to the existing object");
    CHECK(back == &p, "assignment returns the pimpl");
    accessors(s, v);
    accessors(t, v);
    destroy(s);
    destroy(t);
}
ENTRY p19_throw()
{
    Slot s;
    Impl o;
    Arg a(1), b(2);
    throwing = true;
    unsigned from = nev;
    bool thrown = false;
    unsigned c = __v_choice(4, "constructor");
    try
    {
        if (c == 0) new (s.raw) P();
        if (c == 1) new (s.raw) P(utils::forwarding_constructor{}, a, b, Only(3), std::uint32_t{4});
        if (c == 2) new (s.raw) P(static_cast<const Impl&>(o));
        if (c == 3) new (s.raw) P(static_cast<Impl&&>(o));
    }
    catch (...)
    {
        thrown = true;
    }
    CHECK(thrown, "an exception of the implementation reaches the caller");
    CHECK(nev == from, "a failed construction neither constructs nor destroys");
}
