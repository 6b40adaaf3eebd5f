#include "irai.h"
#include <utils/memory/allocator.h>
using utils::memory::allocator;
using utils::memory::memory_resource;
static unsigned calls, frees;
static std::size_t gotSize, gotAlign;
static void* freed;
static void* answer;
static const void* who;
class Res : public memory_resource
{
    friend class memory_resource;

   public:
    Res() : memory_resource(&Res::allocate<Res>, &Res::deallocate<Res>) {}
    using memory_resource::allocate;
    using memory_resource::deallocate;
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }

   private:
    void* allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++calls;
        gotSize = s;
        gotAlign = a;
        who = this;
        return answer;
    }
    void deallocate_impl(void* p) noexcept
    {
        ++frees;
        freed = p;
        who = this;
    }
};
struct alignas(32) Big { char c[96]; };
struct Odd { char c[3]; };
template <typename T> static void allocs()
{
    Res r;
    answer = reinterpret_cast<void*>(any<std::uint64_t>("answer"));
    allocator<T> a(&r);
    CHECK(a.resource() == &r, "the allocator keeps its resource");
    std::size_t n = any<std::size_t>("count");
    bool over = n > ~std::size_t{0} / sizeof(T);
    void* got = nullptr;
    std::size_t want = n * sizeof(T), al = alignof(T);
    switch (__v_choice(4, "operation"))
    {
        case 0: got = a.allocate(n); break;
        case 1: got = allocator<Odd>(a).template allocate_object<T>(n); break;
        case 2:
            got = a.allocate_bytes(n, 64);
            over = false;
            want = n;
            al = 64;
            break;
        case 3:
            got = a.allocate_bytes(n);
            over = false;
            want = n;
            al = alignof(std::max_align_t);
            break;
    }
    if (over)
        CHECK(got == nullptr && calls == 0, "a byte size that overflows gives null");
    else
    {
        CHECK(calls == 1, "the resource is asked exactly once");
        CHECK(gotSize == want, "the resource is asked for exactly count times the element size");
        CHECK(gotAlign == al, "the resource is asked with the element alignment");
        CHECK(got == answer, "the block of the resource is returned");
    }
    if (!over) CHECK(who == &r, "the allocator's own resource is used");
    CHECK(frees == 0, "allocation frees nothing");
}
ENTRY p28_allocate()
{
    switch (__v_choice(4, "type"))
    {
        case 0: allocs<char>(); break;
        case 1: allocs<Odd>(); break;
        case 2: allocs<Big>(); break;
        case 3: allocs<std::uint64_t>(); break;
    }
}
ENTRY p28_default_count()
{
    Res r;
    allocator<char> a(&r);
    answer = reinterpret_cast<void*>(any<std::uint64_t>("answer"));
    void* p = a.allocate_object<Big>();
    CHECK(p == answer && calls == 1 && gotSize == 96 && gotAlign == 32, "one object by default");
}
ENTRY p28_deallocate()
{
    Res r;
    allocator<Big> a(&r);
    void* p = reinterpret_cast<void*>(any<std::uint64_t>("pointer"));
    switch (__v_choice(3, "operation"))
    {
        case 0: a.deallocate(static_cast<Big*>(p)); break;
        case 1: a.deallocate_bytes(p); break;
        case 2: a.deallocate_object(static_cast<Odd*>(p)); break;
    }
    CHECK(frees == 1 && calls == 0, "deallocation reaches the resource exactly once");
    CHECK(freed == p && who == &r, "deallocation returns the pointer to the same resource");
}
static unsigned made, gone;
static const void* madeAt;
static const void* goneAt;
static unsigned freesAtDtor;
struct Arg
{
    std::uint32_t v;
    unsigned copies = 0, moves = 0;
    explicit Arg(std::uint32_t x) noexcept : v(x) {}
    Arg(const Arg& o) noexcept : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    Arg(Arg&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = 0; }
};
struct Obj
{
    std::uint32_t v;
    Arg a, b;
    Obj(std::uint32_t x, Arg& y, Arg&& z) noexcept : v(x), a(y), b(static_cast<Arg&&>(z))
    {
        ++made;
        madeAt = this;
    }
    Obj() noexcept : v(5), a(1), b(2)
    {
        ++made;
        madeAt = this;
    }
    Obj(const Obj&) = delete;
    ~Obj()
    {
        ++gone;
        goneAt = this;
        freesAtDtor = frees;
    }
};
ENTRY p28_objects()
{
    Res r;
    allocator<char> a(&r);
    bool ok = __v_choice(2, "memory available");
    answer = ok ? __v_alloc(sizeof(Obj), alignof(Obj)) : nullptr;
    std::uint32_t v = any<std::uint32_t>("v"), w = any<std::uint32_t>("w"), x = any<std::uint32_t>("x");
    Arg y(w), z(x);
    bool dflt = __v_choice(2, "default");
    Obj* o = dflt ? a.new_object<Obj>() : a.new_object<Obj>(v, y, static_cast<Arg&&>(z));
    CHECK(calls == 1 && gotSize == sizeof(Obj) && gotAlign == alignof(Obj), "memory for one object is asked once");
    CHECK(o == answer, "the object lives in the memory obtained, null when there is none");
    CHECK(made == (ok ? 1u : 0u), "one object is constructed, none without memory");
    if (ok)
    {
        CHECK(madeAt == answer, "the object is constructed in the memory obtained");
        if (dflt)
            CHECK(o->v == 5, "default construction");
        else
        {
            CHECK(o->v == v && o->a.v == w && o->b.v == x, "the arguments are forwarded in order");
            CHECK(o->a.copies == 1 && o->a.moves == 0 && y.v == w, "lvalues are copied");
            CHECK(o->b.copies == 0 && o->b.moves == 1, "rvalues are moved");
        }
    }
    CHECK(frees == 0 && gone == 0, "creating frees and destroys nothing");
    a.delete_object(o);
    CHECK(gone == (ok ? 1u : 0u) && frees == (ok ? 1u : 0u), "deleting destroys once and frees once, null: nothing");
    if (ok)
    {
        CHECK(goneAt == answer && freed == answer && who == &r, "the object is destroyed and its memory returned");
        CHECK(freesAtDtor == 0, "the object is destroyed before its memory is freed");
    }
    CHECK(made == (ok ? 1u : 0u) && calls == 1, "deleting creates nothing");
}
// objects without a destructor to run
template <typename X> static void trivial(X v)
{
    Res r;
    allocator<char> a(&r);
    bool ok = __v_choice(2, "memory available");
    answer = ok ? __v_alloc(sizeof(X), alignof(X)) : nullptr;
    X* o = a.new_object<X>(v);
    CHECK(calls == 1 && gotSize == sizeof(X) && gotAlign == alignof(X) && who == &r, "memory for one object is asked once");
    CHECK(static_cast<void*>(o) == answer, "the object lives in the memory obtained, null when there is none");
    if (ok) CHECK(*o == v, "the object has the value given");
    CHECK(frees == 0, "creating frees nothing");
    a.delete_object(o);
    CHECK(frees == (ok ? 1u : 0u) && calls == 1, "deleting frees once, null: nothing");
    if (ok) CHECK(freed == answer && who == &r, "its memory is returned");
}
struct Plain
{
    std::uint16_t a;
    std::uint8_t b;
    friend bool operator==(const Plain& x, const Plain& y) { return x.a == y.a && x.b == y.b; }
};
ENTRY p28_trivial()
{
    switch (__v_choice(3, "type"))
    {
        case 0: trivial<std::uint32_t>(any<std::uint32_t>("v")); break;
        case 1: trivial<unsigned char>(any<std::uint8_t>("v")); break;
        case 2: trivial<Plain>(Plain{any<std::uint16_t>("a"), any<std::uint8_t>("b")}); break;
    }
}
ENTRY p28_construct()
{
    allocator<char> a(utils::memory::null_memory_resource());
    alignas(Obj) unsigned char raw[sizeof(Obj)];
    std::uint32_t v = any<std::uint32_t>("v"), w = any<std::uint32_t>("w"), x = any<std::uint32_t>("x");
    Arg y(w), z(x);
    Obj* o = reinterpret_cast<Obj*>(raw);
    a.construct(o, v, y, static_cast<Arg&&>(z));
    CHECK(made == 1 && madeAt == raw, "construct constructs once in place");
    CHECK(o->v == v && o->a.v == w && o->b.v == x && o->a.copies == 1 && o->b.copies == 0 && o->b.moves == 1, "construct forwards its arguments");
}
ENTRY p28_compare()
{
    Res r, s;
    memory_resource* m[3] = {&r, &s, utils::memory::null_memory_resource()};
    unsigned i = __v_choice(3, "left"), j = __v_choice(3, "right");
    allocator<char> a(m[i]), b(m[j]);
    allocator<Big> c(m[j]);
    CHECK((a == b) == (i == j) && (a != b) == (i != j), "allocators are equal exactly when their resources are");
    CHECK((a == c) == (i == j) && (a != c) == (i != j), "allocators of different types compare by resource");
    allocator<Big> d(a);
    allocator<char> e(a);
    CHECK(d.resource() == m[i] && e.resource() == m[i], "converted and copied allocators keep the resource");
    CHECK(d == a && e == a, "converted and copied allocators are equal");
}
ENTRY p28_default()
{
    using namespace utils::memory;
    Res r;
    memory_resource* m[3] = {&r, system_memory_resource(), null_memory_resource()};
    unsigned i = __v_choice(4, "default");
    if (i < 3) (void)set_default_resource(m[i]);
    allocator<int> a;
    CHECK(a.resource() == (i < 3 ? m[i] : system_memory_resource()), "the default allocator uses the default resource");
    (void)set_default_resource(m[2]);
    CHECK(a.resource() == (i < 3 ? m[i] : system_memory_resource()), "an allocator keeps its resource");
}
