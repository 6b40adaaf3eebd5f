// P25, P26, P27: one most general client of simple_resource<N, B>. The checks
// of the property that is decided are active (PROP), those of the others only
// guide the path.
#include "irai.h"
#include <utils/memory/simple_resource.h>
#ifndef PROP
#define PROP 0
#endif
#define P25(c, l) do { if (PROP == 0 || PROP == 25) CHECK(c, l); } while (0)
#define P26(c, l) do { if (PROP == 0 || PROP == 26) CHECK(c, l); } while (0)
#define P27(c, l) do { if (PROP == 0 || PROP == 27) CHECK(c, l); } while (0)
using namespace utils::memory;
// ---------------------------------------------------------------- upstream
static unsigned upCalls, upFrees;
static std::size_t upSize, upAlign;
static void* upAnswer;
static void* upFreed;
class Up : public memory_resource
{
    friend class memory_resource;

   public:
    Up() : memory_resource(&Up::allocate<Up>, &Up::deallocate<Up>) {}
    using memory_resource::allocate;
    using memory_resource::deallocate;
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }

   private:
    void* allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++upCalls;
        upSize = s;
        upAlign = a;
        return upAnswer;
    }
    void deallocate_impl(void* p) noexcept
    {
        ++upFrees;
        upFreed = p;
    }
};
// ------------------------------------------------------------------- oracle
static std::uint64_t base;   // address of the first block
static std::byte* first;     // pointer to it
static std::size_t blocks;   // number of blocks managed
static unsigned short len[300]; // length of the live allocation starting there
static bool upstream;
static bool last;
static std::uint64_t addr(const void* p) { return reinterpret_cast<std::uint64_t>(p); }
static void forget()
{
    upCalls = upFrees = 0;
    upSize = upAlign = 0;
    upAnswer = upFreed = nullptr;
}
static void mayAbort(bool b) { __v_abort_expected(b); }
// the first free region at or after i, its end in e
static std::size_t freeRegion(std::size_t i, std::size_t& e)
{
    while (i < blocks && len[i]) i += len[i];
    e = i;
    while (e < blocks && !len[e]) ++e;
    return i;
}
template <typename R> static void consistent(const R& r)
{
    constexpr std::size_t B = R::kBlockSize;
    using BIndex = typename R::BIndex;
    P26(r.size() == blocks * B, "size is the size of the managed blocks");
    P26(addr(r.data()) == base, "data is the address of the first block");
    std::size_t nFree = 0, nBusy = 0, prev = 0;
    for (std::size_t i = 0; i < blocks;)
    {
        std::size_t e;
        bool busy = len[i];
        if (busy)
            e = i + len[i];
        else
            freeRegion(i, e);
        BIndex k = static_cast<BIndex>(i);
        P26(r.in_use(k) == busy, "exactly the live allocations are marked in use");
        P26(r.at(k).next_index() == (e < blocks ? e : 0), "the regions partition the blocks, free neighbours are merged");
        P26(r.at(k).prev_index() == prev, "a region knows the region before it");
        P26(r.block_size(k) == e - i && r.block_size_in_bytes(k) == (e - i) * B, "a region has the size of its blocks");
        P26(&r.infos()[i] == &r.at(k), "infos shows the regions");
        busy ? ++nBusy : ++nFree;
        prev = i;
        i = e;
    }
    P26(r.free_count() == nFree, "free_count is the number of free regions");
    P26(r.busy_count() == nBusy, "busy_count is the number of live allocations");
}
template <typename R> static void request(R& r, std::size_t size, std::size_t align)
{
    constexpr std::size_t B = R::kBlockSize;
    __v_note("requests");
    if (upstream) upAnswer = __v_choice(2, "upstream has memory") ? reinterpret_cast<void*>(std::uintptr_t{1} << 50) : nullptr;
    void* p = static_cast<memory_resource&>(r).allocate(size, align);
    if (size == 0)
    {
        P25(p == nullptr && upCalls == 0, "zero bytes give null");
        return;
    }
    // first fit
    for (std::size_t i = 0, e; blocks && (i = freeRegion(i, e), i < blocks); i = e)
    {
        std::uint64_t at = base + i * B;
        std::size_t skip = (align - (at & (align - 1))) & (align - 1);
        std::size_t room = (e - i) * B;
        if (skip > room || size > room - skip) continue;
        std::uint64_t low = base & (~base + 1);
        bool guaranteed = align <= low || align <= low + blocks * B - 1;
        if (!guaranteed && (p != first + i * B + skip)) break;
        P25(p == first + i * B + skip, "a request that fits is served from the lowest free region that fits");
        P25(upCalls == 0, "a request that fits does not reach the upstream resource");
        P25((addr(p) & (align - 1)) == 0, "the block is aligned as requested");
        std::size_t b = i + skip / B, n = (size - 1) / B + 1;
        if (!last) len[__v_concrete(b)] = static_cast<unsigned short>(__v_concrete(n));
        return;
    }
    if (upstream)
    {
        P25(upCalls == 1, "a request that does not fit goes to the upstream resource once");
        P25(upSize == size, "the upstream resource is asked for the size requested");
        P25(upAlign >= align && (upAlign & (upAlign - 1)) == 0, "the upstream resource is asked for at least the alignment requested");
        P25(p == upAnswer, "the upstream resource's answer is returned");
    }
    else
        P25(p == nullptr && upCalls == 0, "null when it does not fit and there is no upstream");
}
// any pointer in and around the blocks: offset from the first block
template <typename R> static void give(R& r, void* p, bool inside, std::size_t off)
{
    constexpr std::size_t B = R::kBlockSize;
    bool aligned = (addr(p) & (B - 1)) == 0;
    bool live = inside && off % B == 0 && len[off / B];
    bool bad = !aligned || (inside ? !live : !upstream);
    mayAbort(bad);
    static_cast<memory_resource&>(r).deallocate(p);
    mayAbort(false);
    P27(!bad, "freeing a pointer that is not a live allocation aborts");
    if (bad) __v_stop();
    if (live)
    {
        P26(upFrees == 0, "a block of the buffer is not handed to the upstream resource");
        len[off / B] = 0;
    }
    else
        P26(upFrees == 1 && upFreed == p, "a pointer of the upstream resource is handed back to it");
}
template <typename R> static void step(R& r)
{
    constexpr std::size_t B = R::kBlockSize;
    switch (__v_choice(6, "operation"))
    {
        case 0:
        {
            // any alignment the address is known modulo of, any size
            std::size_t align = std::size_t{1} << __v_choice(11, "log2 alignment");
            request(r, any<std::size_t>("size"), align);
            break;
        }
        case 1:
        {
            // free what is in, or around, the blocks
            if (blocks == 0)
            {
                std::uint64_t p = __v_choice(2, "pointer") ? 4096 : 4096 + B / 2;
                give(r, reinterpret_cast<void*>(p), false, 0);
                break;
            }
            std::size_t k = __v_choice(static_cast<std::uint32_t>((blocks + 4) * B), "offset from two blocks before the first");
            bool inside = k >= 2 * B && k < (blocks + 2) * B;
            std::byte* p = first + k;
            p -= 2 * B;
            give(r, p, inside, k - 2 * B);
            break;
        }
        case 2:
            static_cast<memory_resource&>(r).deallocate(nullptr);
            P27(upFrees == 0, "freeing null does nothing");
            break;
        case 3:
            r.release();
            for (std::size_t i = 0; i < blocks; ++i) len[i] = 0;
            P26(upFrees == 0, "release frees the blocks only");
            break;
        case 4:
        {
            bool busy = false;
            for (std::size_t i = 0; i < blocks; ++i) busy = busy || len[i];
            mayAbort(busy);
            r.~R();
            P27(!busy, "destroying the resource while blocks are in use aborts");
            __v_stop();
            break;
        }
        case 5:
        {
            // any alignment at all, the bookkeeping stays as it is
            static const unsigned char some[] = {12, 20, 31, 32, 33, 46, 63};
            last = true;
            request(r, __v_choice(2, "size") ? 1 : 3 * B, std::size_t{1} << some[__v_choice(7, "log2 alignment")]);
            __v_stop();
        }
    }
    forget();
}
template <typename T> union Later
{
    T t;
    Later() {}
    ~Later() {}
};
template <std::size_t N, std::size_t B>
static void history(std::size_t size, std::uint64_t residue, bool up, unsigned with)
{
    using R = simple_resource<N, B>;
    mayAbort(false);
    Up u;
    std::byte* buf = with == 1 ? nullptr : static_cast<std::byte*>(__v_buffer(size ? size : 1, 10, residue));
    upstream = up;
    if (with == 2) size = 0;
    std::size_t skip = (B - residue % B) % B;
    blocks = buf && size > skip ? (size - skip) / B : 0;
    if (blocks > N) blocks = N;
    first = blocks ? buf + skip : nullptr;
    base = addr(first);
    Later<R> h;
    new (&h.t) R(buf, size, up ? static_cast<memory_resource*>(&u) : nullptr);
    buf = nullptr;
    size = skip = residue = 0;
    for (;;)
    {
        consistent(h.t);
        __v_cut();
        step(h.t);
    }
}
#define UP (__v_choice(2, "upstream") != 0)
// sizes of the buffer: fewer, as many and more blocks than the maximum
ENTRY p25_1() { history<2, 1>(__v_choice(4, "size"), 7 + 1016 * __v_choice(2, "address"), UP, __v_choice(3, "buffer")); }
ENTRY p25_2() { history<2, 8>(__v_choice(2, "size") ? 16 : 30, __v_choice(2, "address") ? 8 : 995, UP, 0); }
ENTRY p25_3() { history<3, 16>(__v_choice(2, "size") ? 48 : 47 + 15, __v_choice(2, "address") ? 1 : 32, UP, 0); }
ENTRY p25_3s() { history<3, 16>(48 - 16 * __v_choice(4, "size"), 16, UP, __v_choice(3, "buffer")); }
ENTRY p25_4() { history<4, 1>(4, 1, UP, 0); }
ENTRY p25_4a() { history<4, 16>(64, 112, UP, 0); }
ENTRY p25_4b() { history<4, 4>(16, 12, UP, 0); }
ENTRY p25_5() { history<5, 1>(5, 1, false, 0); }
ENTRY p25_5a() { history<5, 8>(40, 24, false, 0); }
ENTRY p25_6() { history<6, 2>(12, 2, false, 0); }
// index type boundary: 256 and 257 blocks, requests of one to all blocks
template <std::size_t N, std::size_t B> static void boundary(std::size_t n)
{
    using R = simple_resource<N, B>;
    mayAbort(false);
    upstream = false;
    first = static_cast<std::byte*>(__v_buffer(n * B, 10, 16));
    base = addr(first);
    blocks = n < N ? n : N;
    Later<R> h;
    new (&h.t) R(first, n * B, nullptr);
    consistent(h.t);
    for (int k = 0; k < 4; ++k)
    {
        static const unsigned short sizes[] = {1, 127, 128, 254, 255, 256, 257};
        unsigned op = __v_choice(9, "request size, or free");
        if (op < 7)
            request(h.t, sizes[op] * B, 1);
        else if (op == 7)
        {
            // free the last live allocation
            std::size_t i = blocks;
            while (i > 0 && !len[i - 1]) --i;
            if (i == 0) __v_stop();
            give(h.t, first + (i - 1) * B, true, (i - 1) * B);
        }
        else
        {
            if (!len[0]) __v_stop();
            give(h.t, first, true, 0);
        }
        forget();
        consistent(h.t);
    }
    bool busy = false;
    for (std::size_t i = 0; i < blocks; ++i) busy = busy || len[i];
    if (__v_choice(2, "release"))
    {
        h.t.release();
        for (std::size_t i = 0; i < blocks; ++i) len[i] = 0;
        busy = false;
        consistent(h.t);
    }
    mayAbort(busy);
    h.t.~R();
    P27(!busy, "destroying the resource while blocks are in use aborts");
}
ENTRY p25_255() { boundary<255, 2>(255 + __v_choice(2, "more")); }
ENTRY p25_256() { boundary<256, 2>(255 + __v_choice(3, "more")); }
ENTRY p25_257() { boundary<257, 2>(256 + __v_choice(3, "more")); }
// large blocks, and as many blocks as a wider index numbers: the live
// allocations are a list
static struct
{
    std::size_t at, n;
} live[8];
static unsigned nLive;
template <typename R> static void consistentWide(const R& r)
{
    constexpr std::size_t B = R::kBlockSize;
    using BIndex = typename R::BIndex;
    P26(r.size() == blocks * B, "size is the size of the managed blocks");
    P26(addr(r.data()) == base, "data is the address of the first block");
    std::size_t nFree = 0, prev = 0, e = 0;
    unsigned k = 0;
    for (std::size_t i = 0; i < blocks; i = e)
    {
        bool busy = k < nLive && live[k].at == i;
        e = busy ? i + live[k].n : k < nLive ? live[k].at : blocks;
        BIndex j = static_cast<BIndex>(i);
        P26(r.in_use(j) == busy, "exactly the live allocations are marked in use");
        P26(r.at(j).next_index() == (e < blocks ? e : 0), "the regions partition the blocks, free neighbours are merged");
        P26(r.at(j).prev_index() == prev, "a region knows the region before it");
        P26(r.block_size(j) == e - i && r.block_size_in_bytes(j) == (e - i) * B, "a region has the size of its blocks");
        busy ? ++k : ++nFree;
        prev = i;
    }
    P26(r.free_count() == nFree, "free_count is the number of free regions");
    P26(r.busy_count() == nLive, "busy_count is the number of live allocations");
}
template <typename R> static void requestWide(R& r, std::size_t size, std::size_t align)
{
    constexpr std::size_t B = R::kBlockSize;
    if (upstream) upAnswer = reinterpret_cast<void*>(std::uintptr_t{1} << 50);
    void* p = static_cast<memory_resource&>(r).allocate(size, align);
    if (size == 0)
    {
        P25(p == nullptr && upCalls == 0, "zero bytes give null");
        return;
    }
    unsigned k = 0;
    std::size_t e = 0;
    for (std::size_t i = 0; i < blocks; i = e)
    {
        if (k < nLive && live[k].at == i)
        {
            e = i + live[k].n;
            ++k;
            continue;
        }
        e = k < nLive ? live[k].at : blocks;
        std::uint64_t at = base + i * B;
        std::size_t skip = (align - (at & (align - 1))) & (align - 1);
        std::size_t room = (e - i) * B;
        if (skip > room || size > room - skip) continue;
        P25(p == first + i * B + skip, "a request that fits is served from the lowest free region that fits");
        P25(upCalls == 0, "a request that fits does not reach the upstream resource");
        if (last) return;
        for (unsigned j = nLive; j > k; --j) live[j] = live[j - 1];
        live[k].at = __v_concrete(i + skip / B);
        live[k].n = __v_concrete((size - 1) / B + 1);
        ++nLive;
        return;
    }
    if (upstream)
        P25(upCalls == 1 && upSize == size && upAlign >= align && p == upAnswer, "a request that does not fit goes to the upstream resource once");
    else
        P25(p == nullptr && upCalls == 0, "null when it does not fit and there is no upstream");
}
template <typename R> static void giveWide(R& r, std::size_t off)
{
    constexpr std::size_t B = R::kBlockSize;
    unsigned k = 0;
    while (k < nLive && live[k].at * B != off) ++k;
    bool inside = off < blocks * B, isLive = k < nLive;
    bool bad = off % B != 0 || (inside ? !isLive : !upstream);
    mayAbort(bad);
    static_cast<memory_resource&>(r).deallocate(first + off);
    mayAbort(false);
    P27(!bad, "freeing a pointer that is not a live allocation aborts");
    if (bad) __v_stop();
    if (isLive)
    {
        P26(upFrees == 0, "a block of the buffer is not handed to the upstream resource");
        for (--nLive; k < nLive; ++k) live[k] = live[k + 1];
    }
    else
        P26(upFrees == 1 && upFreed == first + off, "a pointer of the upstream resource is handed back to it");
}
template <std::size_t N, std::size_t B> static void wide(std::size_t n, unsigned log2, std::size_t extra, unsigned steps, bool any_size = true)
{
    using R = simple_resource<N, B>;
    mayAbort(false);
    Up u;
    upstream = any_size && __v_choice(2, "upstream");
    std::byte* buf = static_cast<std::byte*>(__v_buffer(n * B + extra, log2, B));
    first = buf;
    base = addr(first);
    blocks = n + extra / B < N ? n + extra / B : N;
    Later<R> h;
    new (&h.t) R(buf, n * B + extra, upstream ? static_cast<memory_resource*>(&u) : nullptr);
    consistentWide(h.t);
    for (unsigned k = 0; k < steps; ++k)
    {
        std::size_t some[] = {1, B + 1, (blocks - 1) * B, blocks * B, blocks * B + 1, (blocks - 2) * B};
        unsigned op = __v_choice(9, "request size, or free");
        if (op < 6)
            requestWide(h.t, some[op], __v_choice(2, "alignment") ? 2 * B : 1);
        else if (op == 6)
        {
            if (!nLive) __v_stop();
            giveWide(h.t, live[nLive - 1].at * B);
        }
        else if (op == 7)
        {
            std::size_t offs[] = {B, 0, B / 2, (blocks - 1) * B, blocks * B, blocks * B - 1, 2 * B};
            giveWide(h.t, offs[__v_choice(7, "offset")]);
        }
        else
        {
            h.t.release();
            nLive = 0;
        }
        forget();
        consistentWide(h.t);
    }
    if (!any_size) __v_stop();
    last = true;
    requestWide(h.t, any<std::size_t>("size"), 1);
    forget();
    if (__v_choice(2, "release"))
        h.t.release();
    __v_stop();
}
ENTRY p25_wide_blocks() { wide<3, (1ull << 31)>(3, 46, 0, 2); }
ENTRY p25_wide_larger() { wide<3, (1ull << 33)>(3, 46, 0, 1); }
ENTRY p25_wide_excess() { wide<2, 8>(__v_choice(2, "and") * 2, 10, 1ull << (__v_choice(2, "more") ? 32 : 35), 1); }
ENTRY p25_wide_index() { wide<65537, 2>(65535 + __v_choice(3, "blocks"), 10, 0, 2, false); }
ENTRY p25_wide_index16() { wide<65536, 2>(65535 + __v_choice(2, "blocks"), 10, 0, 2, false); }
// every way to construct one
template <typename R> static void constructed(R& r, memory_resource* u, Up& up, std::byte* b)
{
    upstream = u == &up;
    first = b;
    base = addr(b);
    blocks = 4;
    consistent(r);
    request(r, 9, 8);
    forget();
    consistent(r);
    request(r, 17, 8);
    forget();
    request(r, 1, 1);
    forget();
    request(r, 8, 8);
    consistent(r);
    r.release();
}
ENTRY p25_constructors()
{
    mayAbort(false);
    Up up;
    memory_resource* ups[3] = {&up, null_memory_resource(), nullptr};
    memory_resource* u = ups[__v_choice(3, "upstream")];
    alignas(8) std::byte array[39];
    using R = simple_resource<7, 8>;
    switch (__v_choice(4, "constructor"))
    {
        case 0:
        {
            R r(array, sizeof array, u);
            return constructed(r, u, up, array);
        }
        case 1:
        {
            R r(array, u);
            return constructed(r, u, up, array);
        }
        case 2:
        {
            (void)set_default_resource(u);
            R r(array, sizeof array);
            return constructed(r, u, up, array);
        }
        case 3:
        {
            (void)set_default_resource(u);
            R r(array);
            return constructed(r, u, up, array);
        }
    }
}
