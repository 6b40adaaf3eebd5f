#include "irai.h"
#include <utils/memory/memory.h>
#include "zeroing.h"
static constexpr unsigned N = 9;
template <typename B> static void fill(B (&m)[N], std::uint8_t (&was)[N])
{
    for (unsigned i = 0; i < N; ++i)
    {
        was[i] = any<std::uint8_t>("memory");
        m[i] = static_cast<B>(was[i]);
    }
}
ENTRY p17_memmove()
{
    std::byte m[N];
    std::uint8_t was[N];
    fill(m, was);
    unsigned n = __v_choice(N + 1, "count"), d = __v_choice(N + 1, "dst"), s = __v_choice(N + 1, "src");
    if (d + n > N || s + n > N) __v_stop();
    std::byte* r = utils::memory::memmove(m + d, m + s, n);
    CHECK(r == m + d, "memmove returns the destination");
    for (unsigned i = 0; i < N; ++i)
    {
        std::uint8_t want = i >= d && i < d + n ? was[s + (i - d)] : was[i];
        CHECK(static_cast<std::uint8_t>(m[i]) == want, "memmove copies the old source, changes nothing else");
    }
}
ENTRY p17_memmove_two()
{
    std::byte a[N], b[N];
    std::uint8_t wa[N], wb[N];
    fill(a, wa);
    fill(b, wb);
    unsigned n = __v_choice(N + 1, "count");
    std::byte* r = utils::memory::memmove(a, b, n);
    CHECK(r == a, "memmove returns the destination");
    for (unsigned i = 0; i < N; ++i)
    {
        CHECK(static_cast<std::uint8_t>(a[i]) == (i < n ? wb[i] : wa[i]), "memmove copies between objects");
        CHECK(static_cast<std::uint8_t>(b[i]) == wb[i], "memmove leaves the source alone");
    }
}
template <typename To, typename From> static void cpy()
{
    To a[N];
    From b[N];
    std::uint8_t wa[N], wb[N];
    fill(a, wa);
    fill(b, wb);
    unsigned n = __v_choice(N + 1, "count"), d = __v_choice(3, "dst"), s = __v_choice(3, "src");
    if (d + n > N || s + n > N) __v_stop();
    utils::memory::memcpy(a + d, b + s, n);
    for (unsigned i = 0; i < N; ++i)
    {
        CHECK(static_cast<std::uint8_t>(a[i]) == (i >= d && i < d + n ? wb[s + (i - d)] : wa[i]), "memcpy copies exactly the range");
        CHECK(static_cast<std::uint8_t>(b[i]) == wb[i], "memcpy leaves the source alone");
    }
}
static void cpyVoid()
{
    std::byte a[N], b[N];
    std::uint8_t wa[N], wb[N];
    fill(a, wa);
    fill(b, wb);
    unsigned n = __v_choice(N + 1, "count"), how = __v_choice(3, "void");
    if (how == 0) utils::memory::memcpy(static_cast<void*>(a), static_cast<const void*>(b), n);
    if (how == 1) utils::memory::memcpy(static_cast<void*>(a), b, n);
    if (how == 2) utils::memory::memcpy(a, static_cast<const void*>(b), n);
    for (unsigned i = 0; i < N; ++i)
        CHECK(static_cast<std::uint8_t>(a[i]) == (i < n ? wb[i] : wa[i]), "memcpy through void copies exactly the range");
}
ENTRY p17_memcpy()
{
    switch (__v_choice(5, "types"))
    {
        case 0: cpy<std::byte, std::byte>(); break;
        case 1: cpy<unsigned char, std::byte>(); break;
        case 2: cpy<std::byte, char>(); break;
        case 3: cpy<char, unsigned char>(); break;
        case 4: cpyVoid(); break;
    }
}
ENTRY p17_zero()
{
    std::byte m[N];
    std::uint8_t was[N];
    fill(m, was);
    unsigned n = __v_choice(N + 1, "count"), d = __v_choice(3, "start");
    if (d + n > N) __v_stop();
    utils::memory::secure_zero_memory(m + d, n);
    for (unsigned i = 0; i < N; ++i)
        CHECK(static_cast<std::uint8_t>(m[i]) == (i >= d && i < d + n ? 0 : was[i]), "secure_zero_memory zeroes exactly the range");
}
ENTRY p17_zero_safe()
{
    std::byte m[N];
    std::uint8_t was[N];
    fill(m, was);
    unsigned n = __v_choice(N + 1, "count"), d = __v_choice(3, "start");
    if (d + n > N) __v_stop();
    int r = utils::memory::secure_zero_memory_safe(m + d, n);
    CHECK(r == (n ? 0 : -2), "secure_zero_memory_safe reports a zero size");
    for (unsigned i = 0; i < N; ++i)
        CHECK(static_cast<std::uint8_t>(m[i]) == (i >= d && i < d + n ? 0 : was[i]), "secure_zero_memory_safe zeroes exactly the range");
}
ENTRY p17_zero_null()
{
    std::size_t n = any<std::size_t>("count");
    CHECK(utils::memory::secure_zero_memory_safe(nullptr, n) == -1, "secure_zero_memory_safe refuses null");
}

// counts that a narrower type than std::size_t does not hold: the operation
// returns only after all of it, so after the first bytes too
static constexpr std::size_t kWide[] = {257, 65537, 65601, (1ull << 31) + 3, (1ull << 32), (1ull << 32) + 2, (1ull << 40) + 5};
static constexpr unsigned W = 48;
template <typename B> static B* wide(std::size_t n, std::uint8_t (&was)[W])
{
    B* p = static_cast<B*>(__v_huge(n, W));
    for (unsigned i = 0; i < W; ++i)
    {
        was[i] = any<std::uint8_t>("memory");
        p[i] = static_cast<B>(was[i]);
    }
    return p;
}
template <typename To, typename From> static void wideCopy(unsigned how, std::size_t n)
{
    std::uint8_t wa[W], wb[W];
    To* a = wide<To>(n, wa);
    From* b = wide<From>(n, wb);
    if (how == 0) utils::memory::memcpy(a, b, n);
    if (how == 1) utils::memory::memcpy(static_cast<void*>(a), static_cast<const void*>(b), n);
    if constexpr (std::is_same_v<To, std::byte> && std::is_same_v<From, std::byte>)
        if (how == 2) utils::memory::memmove(a, b, n);
    for (unsigned i = 0; i < W; ++i)
        CHECK(static_cast<std::uint8_t>(a[i]) == wb[i], "a copy of many bytes copies the first ones");
}
ENTRY p17_wide_memcpy()
{
    std::size_t n = kWide[__v_choice(7, "count")];
    switch (__v_choice(3, "types"))
    {
        case 0: wideCopy<std::byte, std::byte>(0, n); break;
        case 1: wideCopy<unsigned char, char>(0, n); break;
        case 2: wideCopy<std::byte, std::byte>(1, n); break;
    }
}
// (in a constant expression memmove first looks for the one range in the other)
ENTRY p17_wide_memmove() { wideCopy<std::byte, std::byte>(2, kWide[__v_choice(3, "count")]); }
ENTRY p17_run_wide_memmove() { wideCopy<std::byte, std::byte>(2, kWide[__v_choice(7, "count")]); }
ENTRY p17_wide_zero()
{
    std::size_t n = kWide[__v_choice(7, "count")];
    std::uint8_t was[W];
    std::byte* p = wide<std::byte>(n, was);
    if (__v_choice(2, "how"))
        utils::memory::secure_zero_memory(p, n);
    else
        CHECK(utils::memory::secure_zero_memory_safe(p, n) == 0, "secure_zero_memory_safe accepts any size");
    for (unsigned i = 0; i < W; ++i) CHECK(p[i] == std::byte{}, "zeroing many bytes zeroes the first ones");
}
// every byte of a range longer than a 16 bit counter reaches
static constexpr std::size_t kLarge = 65600;
static void probe(const std::byte* p, std::uint8_t in, std::uint8_t out, const char* what)
{
    for (std::size_t i: {std::size_t{0}, std::size_t{1}, std::size_t{254}, std::size_t{255}, std::size_t{256}, std::size_t{257}, std::size_t{32767}, std::size_t{32768}, std::size_t{65534}, std::size_t{65535}, std::size_t{65536}, kLarge - 2, kLarge - 1})
        CHECK(static_cast<std::uint8_t>(p[i]) == in, what);
    CHECK(static_cast<std::uint8_t>(p[kLarge]) == out, what);
}
template <typename F> static void large(F f, const char* what)
{
    std::uint8_t x = any<std::uint8_t>("memory"), y = any<std::uint8_t>("memory");
    std::byte* a = static_cast<std::byte*>(__v_alloc(kLarge + 1, 1));
    std::byte* b = static_cast<std::byte*>(__v_alloc(kLarge + 1, 1));
    std::memset(a, x, kLarge + 1);
    std::memset(b, y, kLarge + 1);
    f(a, b);
    probe(b, y, y, "the source is left alone");
    probe(a, what[0] == 'z' ? 0 : y, x, what);
}
ENTRY p17_large_memcpy()
{
    large([](std::byte* a, const std::byte* b) { utils::memory::memcpy(a, b, kLarge); }, "memcpy copies every byte of a long range");
}
ENTRY p17_large_memmove()
{
    large([](std::byte* a, const std::byte* b) { utils::memory::memmove(a, b, kLarge); }, "memmove copies every byte of a long range");
}
ENTRY p17_large_overlap()
{
    std::uint8_t x = any<std::uint8_t>("memory"), y = any<std::uint8_t>("memory");
    std::byte* a = static_cast<std::byte*>(__v_alloc(kLarge + 3, 1));
    std::memset(a, x, kLarge + 3);
    bool up = __v_choice(2, "direction");
    std::size_t at = up ? 0 : 2, to = up ? 2 : 0;
    for (std::size_t i: {std::size_t{0}, std::size_t{255}, std::size_t{256}, std::size_t{65535}, std::size_t{65536}, kLarge - 1}) a[at + i] = static_cast<std::byte>(y);
    utils::memory::memmove(a + to, a + at, kLarge);
    for (std::size_t i: {std::size_t{0}, std::size_t{255}, std::size_t{256}, std::size_t{65535}, std::size_t{65536}, kLarge - 1})
        CHECK(static_cast<std::uint8_t>(a[to + i]) == y, "memmove moves every byte of a long range");
    for (std::size_t i: {std::size_t{10}, std::size_t{300}, std::size_t{65000}})
        CHECK(static_cast<std::uint8_t>(a[to + i]) == x, "memmove moves every byte of a long range");
}
ENTRY p17_large_zero()
{
    large([](std::byte* a, const std::byte*) { utils::memory::secure_zero_memory(a, kLarge); }, "zeroes every byte of a long range");
}
