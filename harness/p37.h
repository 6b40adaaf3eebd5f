// What user objects of static storage duration may do with the library in
// their constructors and destructors. Included by both translation units.
#ifndef VERIF_P37_H
#define VERIF_P37_H
#include "irai.h"
#include <utils/clz.h>
#include <utils/common.h>
#include <utils/fast_pimpl.h>
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
#include <utils/timer.h>
namespace shared
{
struct Log
{
    const char* bad;       // first thing that went wrong before main
    unsigned users;        // user objects constructed
    unsigned mallocs, frees;
    std::size_t size, align;
    void* freed;
    void* block;
    utils::memory::memory_resource* system;
    utils::memory::memory_resource* null;
    utils::memory::memory_resource* now;  // the default as last set
    const void* dead[64];
    unsigned deads;
};
extern Log log;
struct Exit
{
    void (*f)(void*);
    void* arg;
};
extern Exit exits[64];
extern unsigned exitCount;
inline void expect(bool ok, const char* what)
{
    if (!ok && !log.bad) log.bad = what;
}
inline bool alive(const void* p)
{
    for (unsigned i = 0; i < log.deads; ++i)
        if (log.dead[i] == p) return false;
    return true;
}
// everything a resource and its users are good for
inline void use(bool first)
{
    using namespace utils::memory;
    memory_resource* s = system_memory_resource();
    memory_resource* n = null_memory_resource();
    if (first && !log.system)
    {
        log.system = s;
        log.null = n;
        log.now = s;
    }
    expect(s == log.system && n == log.null && s != n, "the system and the null resource are one object each");
    expect(alive(s) && alive(n), "a resource is destroyed before its users");
    memory_resource* d = get_default_resource();
    expect(d == log.now, "the default resource is the system resource, or the one last set");
    expect(d == s || d == n, "the default resource exists");
    expect(s->is_equal(*s) && !s->is_equal(*n) && n->is_equal(*n), "resources compare");
    unsigned m = log.mallocs, f = log.frees;
    void* p = s->allocate(48, 16);
    expect(p == log.block && log.mallocs == m + 1 && log.size == 48, "the system resource allocates");
    s->deallocate(p);
    expect(log.frees == f + 1 && log.freed == p, "the system resource frees");
    expect(n->allocate(1, 1) == nullptr, "the null resource answers null");
    allocator<long> a;
    expect(a.resource() == d, "an allocator takes the default resource");
    long* q = a.allocate(3);
    expect(q == (d == s ? log.block : nullptr), "an allocator allocates from the default resource");
    if (q) a.deallocate(q);
    expect(log.mallocs - m == log.frees - f, "what was allocated was freed");
    expect(utils::clz(1u) == 31 && utils::kNumBitsTable[0xe1] == 4 && utils::bits_count(0x10000) == 17, "tables and bit counts");
}
struct Impl
{
    int v = 7;
    Impl() noexcept {}
};
struct Thing
{
    using Pimpl = utils::fast_pimpl<Impl, sizeof(Impl), alignof(Impl)>;
    alignas(32) std::byte buf[64];
    alignas(32) std::byte room[128];
    utils::memory::monotonic_buffer_resource mono;
    utils::memory::simple_resource<2, 32> blocks;
    utils::memory::memory_resource* had;
    Pimpl pimpl;
    Thing() : mono(buf, sizeof(buf)), blocks(room), had(utils::memory::get_default_resource())
    {
        use(true);
        ++log.users;
        expect(mono.allocate(8, 1) == buf, "a buffer resource allocates");
        expect(mono.allocate(500, 1) == (had == log.system ? log.block : nullptr), "a buffer resource asks the default resource it was made with");
        void* b = blocks.allocate(16, 1);
        expect(b >= room && b < room + 128, "a block resource allocates");
        blocks.deallocate(b);
        expect(pimpl->v == 7, "a pimpl works");
        // from now on the other one
        auto* other = log.now == log.system ? log.null : log.system;
        expect(utils::memory::set_default_resource(other) == log.now, "setting returns the resource set before");
        log.now = other;
    }
    ~Thing()
    {
        use(false);
        expect(alive(had), "the resource an object was made with is destroyed before it");
        expect(mono.allocate(600, 1) == (had == log.system ? log.block : nullptr), "a buffer resource still asks its resource");
        expect(pimpl->v == 7, "a pimpl still works");
    }
};
}  // namespace shared
#endif
