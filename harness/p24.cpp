#include "irai.h"
#include <utils/memory/monotonic_buffer_resource.h>
#ifndef PROP
#define PROP 24
#endif
#if PROP == 35
// only what is done to the memory managed is judged
#undef CHECK
#define CHECK(c, label) ((void)(c))
#endif
using namespace utils::memory;
// ---------------------------------------------------------------- upstream
static unsigned upCalls, upFrees;
static std::size_t upSize, upAlign;
static void* upAnswer;
class Up : public memory_resource
{
    friend class memory_resource;

   public:
    Up() : memory_resource(&Up::allocate<Up>, &Up::deallocate<Up>) {}
    using memory_resource::allocate;
    using memory_resource::deallocate;
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }

   private:
    void* allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++upCalls;
        upSize = s;
        upAlign = a;
        return upAnswer;
    }
    void deallocate_impl(void*) noexcept { ++upFrees; }
};
// ------------------------------------------------------------------- oracle
static std::uint64_t base;    // address of the buffer, 0 without one
static std::size_t bufSize;   // its size
static std::size_t used;      // bytes taken since construction or release
static bool upstream;
static bool last;             // no state follows, sizes may stay symbolic
static std::uint64_t addr(const void* p) { return reinterpret_cast<std::uint64_t>(p); }
static void forget()
{
    upCalls = upFrees = 0;
    upSize = upAlign = 0;
    upAnswer = nullptr;
}
static void request(memory_resource& r, std::size_t size, std::size_t align)
{
    __v_note("requests");
    if (upstream) upAnswer = reinterpret_cast<void*>(any<std::uint64_t>("upstream answer"));
    void* p = r.allocate(size, align);
    if (size == 0)
    {
        CHECK(p == nullptr && upCalls == 0, "zero bytes give null");
        return forget();
    }
    if (base)
    {
        std::uint64_t at = base + used;
        std::size_t skip = (align - (at & (align - 1))) & (align - 1);
        std::size_t left = bufSize - used;
        if (skip <= left && size <= left - skip)
        {
            CHECK(upCalls == 0, "a request that fits does not reach the upstream resource");
            CHECK(addr(p) == at + skip, "a request that fits is served from the remainder of the buffer, aligned");
            CHECK((addr(p) & (align - 1)) == 0, "the block is aligned as requested");
            std::uint64_t off = addr(p) - base;
            CHECK(off >= used && off <= bufSize && size <= bufSize - off, "the block is in the unused part of the buffer");
            used += skip + size;
            if (!last) used = __v_concrete(used);
            return forget();
        }
    }
    if (upstream)
    {
        CHECK(upCalls == 1, "a request that does not fit goes to the upstream resource once");
        CHECK(upSize == size && upAlign == align, "the upstream resource is asked for what was requested");
        CHECK(p == upAnswer, "the upstream resource's answer is returned");
    }
    else
        CHECK(p == nullptr && upCalls == 0, "null when it does not fit and there is no upstream");
    forget();
}
static void step(monotonic_buffer_resource& r)
{
    switch (__v_choice(4, "operation"))
    {
        case 0:
        {
            // small requests: every size up to just above the buffer
            std::size_t size = __v_choice(static_cast<std::uint32_t>(bufSize + 3), "size");
            request(r, size, std::size_t{1} << __v_choice(8, "log2 alignment"));
            break;
        }
        case 1:
            r.deallocate(reinterpret_cast<void*>(any<std::uint64_t>("pointer")));
            CHECK(upFrees == 0 && upCalls == 0, "deallocation does nothing");
            break;
        case 2:
            r.release();
            used = 0;
            break;
        case 3:
        {
            // any size and any alignment, then what is left is still usable
            std::size_t size = any<std::size_t>("any size");
            static const unsigned char some[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 20, 31, 32, 47, 63};
            unsigned log2 = bufSize < 4 ? __v_choice(64, "log2 of any alignment") : some[__v_choice(14, "log2 of an alignment")];
            std::size_t align = std::size_t{1} << log2;
            last = true;
            request(r, size, align);
            request(r, 1, 1);
            __v_stop();
        }
    }
    CHECK(addr(r.data()) == base && r.size() == bufSize, "data and size stay the buffer's");
}
static void history(unsigned n, std::uint64_t residue)
{
    std::byte* buf = nullptr;
    std::size_t size = n;
    switch (__v_choice(3, "buffer"))
    {
        case 0: buf = static_cast<std::byte*>(__v_buffer(n ? n : 1, 10, residue)); break;
        case 1: buf = nullptr; break;
        case 2: buf = static_cast<std::byte*>(__v_buffer(1, 10, residue)); size = 0; break;
    }
    base = size ? addr(buf) : 0;
    bufSize = base ? size : 0;
    Up up;
    upstream = __v_choice(2, "upstream");
    monotonic_buffer_resource r(buf, size, upstream ? &up : nullptr);
    for (;;)
    {
        step(r);
        __v_cut();
    }
}
#define HISTORY(n)                                                         \
    extern "C" void p24_history_##n()                                                \
    {                                                                      \
        static const unsigned short residue[] = {0, 1, 8, 31, 127, 192, 512, 1020}; \
        history(n, residue[__v_choice(8, "address modulo 1024")]);          \
    }
HISTORY(1)
HISTORY(2)
HISTORY(7)
HISTORY(16)
HISTORY(24)
ENTRY p24_history_12() { history(12, __v_choice(2, "address") ? 6 : 120); }
ENTRY p24_history_40() { history(40, __v_choice(2, "address") ? 16 : 53); }
ENTRY p24_history_64() { history(64, __v_choice(2, "address") ? 33 : 608); }
// buffers of more bytes than 32 bits count
ENTRY p24_wide()
{
    static const std::size_t sizes[] = {(1ull << 31) + 5, (1ull << 32) + 24, (1ull << 33) + 7, (1ull << 40)};
    std::size_t n = sizes[__v_choice(4, "buffer size")];
    unsigned residue = __v_choice(2, "address") ? 64 : 3;
    std::byte* buf = static_cast<std::byte*>(__v_buffer(n, 10, residue));
    base = addr(buf);
    bufSize = n;
    Up up;
    upstream = __v_choice(2, "upstream");
    monotonic_buffer_resource r(buf, n, upstream ? &up : nullptr);
    for (unsigned k = 0; k < 2; ++k)
    {
        std::size_t some[] = {1, 24, (1ull << 31), (1ull << 32), (1ull << 32) + 3, n - 1, n, n - used};
        request(r, some[__v_choice(8, "size")], std::size_t{1} << (__v_choice(2, "alignment") * 6));
        CHECK(addr(r.data()) == base && r.size() == bufSize, "data and size stay the buffer's");
    }
    if (__v_choice(2, "release"))
    {
        r.release();
        used = 0;
    }
    last = true;
    std::size_t size = any<std::size_t>("any size");
    request(r, size, std::size_t{1} << (__v_choice(2, "alignment") * 4));
}
// every way to construct one
static void constructed(monotonic_buffer_resource& r, memory_resource* u, Up& up, std::byte* b, std::size_t n)
{
    upstream = u == &up;
    base = addr(b);
    bufSize = n;
    CHECK(r.data() == b && r.size() == n, "the whole buffer is managed");
    request(r, 3, 1);
    request(r, n - 3, 1);
    request(r, 1, 1);
    r.release();
    used = 0;
    request(r, n, 1);
    request(r, 8, 8);
}
ENTRY p24_constructors()
{
    Up up;
    memory_resource* ups[3] = {&up, null_memory_resource(), nullptr};
    memory_resource* u = ups[__v_choice(3, "upstream")];
    alignas(8) std::byte array[24];
    switch (__v_choice(4, "constructor"))
    {
        case 0:
        {
            monotonic_buffer_resource r(array, sizeof array, u);
            return constructed(r, u, up, array, sizeof array);
        }
        case 1:
        {
            monotonic_buffer_resource r(array, u);
            return constructed(r, u, up, array, sizeof array);
        }
        case 2:
        {
            (void)set_default_resource(u);
            monotonic_buffer_resource r(array, sizeof array);
            return constructed(r, u, up, array, sizeof array);
        }
        case 3:
        {
            (void)set_default_resource(u);
            monotonic_buffer_resource r(array);
            return constructed(r, u, up, array, sizeof array);
        }
    }
}
