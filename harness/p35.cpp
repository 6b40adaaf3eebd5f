// P35: the layers above and below the buffer resources hand memory through
// without looking at it. Only accesses to memory are judged (--memory-only).
#include "irai.h"
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
static void* block;
#ifdef _MSC_VER
namespace sysops { namespace memory { namespace ops {
void* aligned_malloc(std::size_t, std::size_t) noexcept { return block; }
void aligned_free(void*) noexcept {}
} } }
#else
namespace sysops { namespace memory { namespace ops {
int posix_memalign(void** r, std::size_t, std::size_t) noexcept
{
    if (!block) return 12;
    *r = block;
    return 0;
}
void free(void*) noexcept {}
} } }
#endif
class Up : public memory_resource
{
    friend class memory_resource;

   public:
    Up() : memory_resource(&Up::allocate<Up>, &Up::deallocate<Up>) {}
    using memory_resource::allocate;
    using memory_resource::deallocate;
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }

   private:
    void* allocate_impl(std::size_t, std::size_t) noexcept { return block; }
    void deallocate_impl(void*) noexcept {}
};
struct Big { alignas(32) char c[96]; };
static void anyBlock() { block = __v_choice(2, "memory is there") ? __v_buffer(1024, 10, 512) : nullptr; }
ENTRY p35_system()
{
    anyBlock();
    __v_note("requests");
    void* p = nullptr;
    switch (__v_choice(3, "allocate"))
    {
        case 0: p = aligned_malloc(__v_range(0, 1024, "size"), 16); break;
        case 1: p = system_memory_resource()->allocate(__v_range(0, 1024, "size")); break;
        case 2: p = system_memory_resource()->allocate<Big>(); break;
    }
    if (__v_choice(2, "free"))
        aligned_free(p);
    else
        system_memory_resource()->deallocate(p);
}
ENTRY p35_null()
{
    anyBlock();
    __v_note("requests");
    (void)null_memory_resource()->allocate(__v_range(0, 1024, "size"));
    null_memory_resource()->deallocate(block);
}
ENTRY p35_allocator()
{
    anyBlock();
    __v_note("requests");
    Up up;
    allocator<Big> a(&up);
    switch (__v_choice(6, "operation"))
    {
        case 0: a.deallocate(a.allocate(__v_range(0, 10, "count"))); break;
        case 1: a.deallocate_bytes(a.allocate_bytes(__v_range(0, 1024, "size"))); break;
        case 2: a.deallocate_bytes(a.allocate_bytes(__v_range(0, 1024, "size"), 64)); break;
        case 3: a.deallocate_object(a.allocate_object<char>(__v_range(0, 1024, "count"))); break;
        case 4: a.deallocate_object(a.allocate_object<Big>()); break;
        case 5: a.deallocate(allocator<Big>(allocator<char>(a)).allocate(1)); break;
    }
}
// objects: the memory is exactly as large as the object
template <typename U> static void object()
{
    const bool there = __v_choice(2, "memory is there");
    block = there ? __v_alloc(sizeof(U), alignof(U)) : nullptr;
    __v_note("requests");
    Up up;
    allocator<std::byte> a(&up);
    U* p = a.template new_object<U>(U{});
    if (__v_choice(2, "delete")) a.delete_object(p);
}
struct Odd { char c[13]; };
struct Five { std::uint32_t a; char b; };
ENTRY p35_object()
{
    switch (__v_choice(5, "type"))
    {
        case 0: object<char>(); break;
        case 1: object<Odd>(); break;
        case 2: object<std::uint16_t>(); break;
        case 3: object<Five>(); break;
        case 4: object<Big>(); break;
    }
}
// what does not fit comes from, and goes back to, the upstream resource
ENTRY p35_upstream()
{
    block = reinterpret_cast<void*>(std::uintptr_t{1} << 50);
    __v_note("requests");
    Up up;
    std::byte* b = static_cast<std::byte*>(__v_buffer(64, 10, 64));
    if (__v_choice(2, "resource"))
    {
        monotonic_buffer_resource m(b, 64, &up);
        memory_resource& r = m;
        void* p = r.allocate(65, 1);
        void* q = r.allocate(10, 4);
        r.deallocate(p);
        r.deallocate(q);
        m.release();
    }
    else
    {
        simple_resource<4, 16> m(b, 64, &up);
        memory_resource& r = m;
        void* p = r.allocate(65, 1);
        void* q = r.allocate(33, 16);
        void* s = r.allocate(16, 16);
        r.deallocate(p);
        r.deallocate(q);
        if (__v_choice(2, "release"))
            m.release();
        else
            r.deallocate(s);
    }
}
