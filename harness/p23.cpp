#include "irai.h"
#include <utils/memory/memory.h>
static unsigned mallocs, frees;
static std::size_t gotSize, gotAlign;
static void* freed;
static void* block;
static bool fails;
#ifdef _MSC_VER
constexpr std::size_t smallest = 1;
namespace sysops { namespace memory { namespace ops {
void* aligned_malloc(std::size_t s, std::size_t a) noexcept
{
    ++mallocs;
    gotSize = s;
    gotAlign = a;
    return fails ? nullptr : block;
}
// not the allocator the memory comes from
void free(void*) noexcept { CHECK(false, "memory of aligned_malloc goes back to aligned_free"); }
int posix_memalign(void**, std::size_t, std::size_t) noexcept { CHECK(false, "memory comes from aligned_malloc"); return 12; }
void aligned_free(void* p) noexcept
{
    ++frees;
    freed = p;
}
} } }
#else
constexpr std::size_t smallest = sizeof(void*);
namespace sysops { namespace memory { namespace ops {
int posix_memalign(void** r, std::size_t a, std::size_t s) noexcept
{
    ++mallocs;
    gotSize = s;
    gotAlign = a;
    if (fails)
    {
        // posix_memalign leaves its result unspecified on failure
        if (__v_choice(2, "failure writes")) *r = reinterpret_cast<void*>(0x1234560);
        return static_cast<int>(__v_range(1, 133, "errno"));
    }
    *r = block;
    return 0;
}
void free(void* p) noexcept
{
    ++frees;
    freed = p;
}
} } }
#endif
static bool pow2(std::size_t a)
{
    for (unsigned i = 0; i < 64; ++i)
        if (a == std::size_t{1} << i) return true;
    return false;
}
static void result(void* got, std::size_t size, std::size_t align)
{
    CHECK(mallocs == 1 && frees == 0, "the platform is asked exactly once");
    CHECK(gotSize == size, "the size is passed unchanged");
    CHECK(gotAlign >= align && gotAlign >= smallest, "at least the alignment asked for and that of a pointer");
    CHECK(pow2(gotAlign), "the alignment passed is a power of two");
    CHECK(got == (fails ? nullptr : block), "the platform's block, or null when it fails");
}
ENTRY p23_aligned()
{
    fails = __v_choice(2, "platform fails");
    block = reinterpret_cast<void*>(any<std::uint64_t>("block"));
    std::size_t size = any<std::size_t>("size"), align = std::size_t{1} << __v_choice(64, "log2 alignment");
    void* p;
    switch (__v_choice(2, "through"))
    {
        case 0: p = utils::memory::aligned_malloc(size, align); break;
        default: p = utils::memory::system_memory_resource()->allocate(size, align); break;
    }
    result(p, size, align);
}
ENTRY p23_free()
{
    void* p = reinterpret_cast<void*>(any<std::uint64_t>("pointer"));
    if (__v_choice(2, "through"))
        utils::memory::aligned_free(p);
    else
        utils::memory::system_memory_resource()->deallocate(p);
    CHECK(frees == 1 && mallocs == 0, "freeing hands one pointer back");
    CHECK(freed == p, "freeing hands back exactly that pointer");
}
ENTRY p23_null()
{
    auto* n = utils::memory::null_memory_resource();
    std::size_t size = any<std::size_t>("size"), align = any<std::size_t>("alignment");
    switch (__v_choice(3, "operation"))
    {
        case 0: CHECK(n->allocate(size, align) == nullptr, "the null resource returns null"); break;
        case 1: CHECK(n->allocate(size) == nullptr, "the null resource returns null"); break;
        case 2: n->deallocate(reinterpret_cast<void*>(any<std::uint64_t>("pointer"))); break;
    }
    CHECK(mallocs == 0 && frees == 0, "the null resource never touches the platform");
}
ENTRY p23_default()
{
    // the values of the default resource, one thread (atomicity is the lint's part)
    using namespace utils::memory;
    CHECK(get_default_resource() == system_memory_resource(), "the default resource is the system resource at first");
    memory_resource* m[3] = {system_memory_resource(), null_memory_resource(), nullptr};
    unsigned cur = 0;
    for (unsigned k = 0; k < 3; ++k)
    {
        unsigned i = __v_choice(3, "set");
        CHECK(set_default_resource(m[i]) == m[cur], "setting returns the previous value");
        cur = i;
        CHECK(get_default_resource() == m[cur], "getting returns the value last set");
    }
    CHECK(system_memory_resource() == m[0] && null_memory_resource() == m[1], "system and null resource stay the same");
}
