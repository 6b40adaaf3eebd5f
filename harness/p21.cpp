#include "irai.h"
#include <utils/memory/memory.h>
using utils::memory::memory_resource;
static unsigned calls, frees;
static const void* obj;
static std::size_t gotSize, gotAlign;
static void* gotPtr;
static void* answer;
static unsigned kindCalled;
template <unsigned K> class Res : public memory_resource
{
    friend class memory_resource;
    std::uint64_t extra_ = K;

   public:
    Res() : memory_resource(&Res::template allocate<Res>, &Res::template deallocate<Res>) {}
    using memory_resource::allocate;
    using memory_resource::deallocate;
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }

   private:
    void* allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++calls;
        obj = this;
        kindCalled = extra_ == K ? K : 1000;
        gotSize = s;
        gotAlign = a;
        return answer;
    }
    void deallocate_impl(void* p) noexcept
    {
        ++frees;
        obj = this;
        kindCalled = extra_ == K ? K : 1000;
        gotPtr = p;
    }
};
struct alignas(32) Big { char c[96]; };
ENTRY p21_dispatch()
{
    Res<1> a;
    Res<2> b;
    unsigned which = __v_choice(2, "resource");
    memory_resource& r = which ? static_cast<memory_resource&>(b) : a;
    const void* self = which ? static_cast<const void*>(static_cast<memory_resource*>(&b)) : static_cast<memory_resource*>(&a);
    answer = reinterpret_cast<void*>(any<std::uint64_t>("answer"));
    std::size_t size = any<std::size_t>("size"), align = any<std::size_t>("alignment");
    void* got = nullptr;
    bool alloc = true;
    switch (__v_choice(6, "operation"))
    {
        case 0: got = r.allocate(size, align); break;
        case 1:
            got = r.allocate(size);
            align = alignof(std::max_align_t);
            break;
        case 2:
            got = r.allocate<Big>();
            size = 96;
            align = 32;
            break;
        case 3:
            got = r.allocate<char>();
            size = 1;
            align = 1;
            break;
        case 4:
            got = r.allocate<std::uint64_t>();
            size = 8;
            align = 8;
            break;
        case 5:
        {
            alloc = false;
            void* p = reinterpret_cast<void*>(any<std::uint64_t>("pointer"));
            r.deallocate(p);
            CHECK(frees == 1 && calls == 0, "a deallocation reaches the resource exactly once");
            CHECK(gotPtr == p, "the resource gets the pointer passed");
            break;
        }
    }
    if (alloc)
    {
        CHECK(calls == 1 && frees == 0, "an allocation reaches the resource exactly once");
        CHECK(gotSize == size, "the resource gets the size passed");
        CHECK(gotAlign == align, "the resource gets the alignment passed");
        CHECK(got == answer, "the caller gets what the resource returned");
    }
    CHECK(obj == self, "the request is carried out by the resource itself");
    CHECK(kindCalled == which + 1, "the request is carried out by the concrete type");
}
ENTRY p21_equality()
{
    Res<1> a, b;
    Res<2> c;
    memory_resource* m[5] = {&a, &b, &c, utils::memory::system_memory_resource(), utils::memory::null_memory_resource()};
    unsigned i = __v_choice(5, "left"), j = __v_choice(5, "right");
    CHECK((*m[i] == *m[j]) == (i == j), "resources are equal exactly when they are the same object");
    CHECK((*m[i] != *m[j]) == (i != j), "inequality is the negation");
    CHECK(m[i]->is_equal(*m[j]) == (i == j), "is_equal is identity");
    CHECK(calls == 0 && frees == 0, "comparing touches no memory");
}
