#include "p37.h"
shared::Log shared::log;
shared::Exit shared::exits[64];
unsigned shared::exitCount;
using shared::log;
extern "C" int __cxa_atexit(void (*f)(void*), void* a, void*)
{
    shared::exits[shared::exitCount++] = {f, a};
    return 0;
}
// objects of the main thread go before those of the program
static shared::Exit threadExits[16];
static unsigned threadExitCount;
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* a, void*)
{
    threadExits[threadExitCount++] = {f, a};
    return 0;
}
namespace sysops { namespace memory { namespace ops {
alignas(64) static char area[64];
int posix_memalign(void** r, std::size_t a, std::size_t s) noexcept
{
    ++log.mallocs;
    log.block = area;
    log.size = s;
    log.align = a;
    *r = log.block;
    return 0;
}
void free(void* p) noexcept
{
    ++log.frees;
    log.freed = p;
}
} } }

static shared::Thing first;
shared::Thing second;
inline shared::Thing third;
static void leave()
{
    while (threadExitCount)
    {
        auto e = threadExits[--threadExitCount];
        e.f(e.arg);
        log.dead[log.deads++] = e.arg;
    }
    while (shared::exitCount)
    {
        auto e = shared::exits[--shared::exitCount];
        e.f(e.arg);
        log.dead[log.deads++] = e.arg;
    }
}
ENTRY p37_program()
{
    CHECK(log.users >= 3, "the objects of static storage duration are constructed");
    CHECK(!log.bad, log.bad ? log.bad : "before main");
    // main
    bool replace = __v_choice(2, "main sets the default");
    static_cast<void>(utils::memory::null_memory_resource());
    if (replace)
    {
        auto* r = __v_choice(2, "to") ? utils::memory::system_memory_resource() : utils::memory::null_memory_resource();
        CHECK(utils::memory::set_default_resource(r) == log.now, "setting returns the resource set before");
        log.now = r;
    }
    shared::use(false);
    CHECK(!log.bad, log.bad ? log.bad : "in main");
    leave();
    CHECK(!log.bad, log.bad ? log.bad : "after main");
    CHECK(log.mallocs > 0, "platform memory was used");
}
