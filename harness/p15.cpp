#include "irai.h"
#include <utils/common.h>
ENTRY p15_memvcmp()
{
    std::size_t n = __v_choice(13, "size");
    unsigned char val = any<std::uint8_t>("byte");
    // exactly n bytes exist
    unsigned char* p = static_cast<unsigned char*>(__v_alloc(n, 1));
    for (std::size_t i = 0; i < n; ++i) p[i] = any<std::uint8_t>("memory");
    bool all = n != 0;
    bool r = utils::memvcmp(p, val, n);
    for (std::size_t i = 0; i < n; ++i)
        if (p[i] != val)
        {
            all = false;
            break;
        }
    CHECK(r == all, "memvcmp is true exactly when every byte equals the value");
}
// large ranges: one byte may differ, at either end or in the middle
ENTRY p15_memvcmp_large()
{
    static const std::size_t sizes[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 65535, 65536, 65537};
    std::size_t n = sizes[__v_choice(15, "size")];
    unsigned char val = any<std::uint8_t>("byte");
    unsigned char other = any<std::uint8_t>("other byte");
    unsigned char* p = static_cast<unsigned char*>(__v_alloc(n, 1));
    for (std::size_t i = 0; i < n; ++i) p[i] = val;
    std::size_t at = 0;
    switch (__v_choice(7, "position"))
    {
        case 0: at = 0; break;
        case 1: at = 1; break;
        case 2: at = n / 2; break;
        case 3: at = n - 2; break;
        case 4: at = n - 1; break;
        case 5: at = n > 256 ? 255 : n - 3; break;
        case 6: at = n > 256 ? 256 : n - 4; break;
    }
    p[at] = other;
    CHECK(utils::memvcmp(p, val, n) == (other == val), "memvcmp is true exactly when every byte equals the value");
}
// sizes that a narrower type than std::size_t does not hold
ENTRY p15_memvcmp_wide()
{
    static const std::size_t sizes[] = {257, 65537, 65601, (1ull << 31) + 3, (1ull << 32), (1ull << 32) + 2, (1ull << 40) + 5};
    std::size_t n = sizes[__v_choice(7, "size")];
    unsigned char val = any<std::uint8_t>("byte");
    unsigned char other = any<std::uint8_t>("other byte");
    unsigned char* p = static_cast<unsigned char*>(__v_huge(n, 48));
    for (std::size_t i = 0; i < 48; ++i) p[i] = val;
    p[8 + __v_choice(40, "position")] = other;
    bool r = utils::memvcmp(p, val, n);
    if (r) CHECK(other == val, "memvcmp looks at every byte");
}
template <typename T, std::size_t N> static void largeArrays()
{
    static std::array<T, N> a, b;
    for (auto& x: a) x = 7;
    for (auto& x: b) x = 7;
    T v = static_cast<T>(any<T>("left"));
    std::size_t at = 0;
    switch (__v_choice(5, "position"))
    {
        case 0: at = 0; break;
        case 1: at = N / 2; break;
        case 2: at = N - 2; break;
        case 3: at = N - 1; break;
        case 4: at = N > 256 ? 256 : 1; break;
    }
    (__v_choice(2, "side") ? a : b)[at] = v;
    std::size_t k = 0;
    switch (__v_choice(5, "count"))
    {
        case 0: k = 0; break;
        case 1: k = at; break;
        case 2: k = at + 1; break;
        case 3: k = N; break;
        case 4: k = N - 1; break;
    }
    CHECK(utils::is_equal(a, b, k) == (at >= k || v == 7), "is_equal compares exactly the first K elements");
    CHECK(utils::is_equal(a, b) == (v == 7), "is_equal compares all elements by default");
}
ENTRY p15_eq_large_u8() { largeArrays<std::uint8_t, 300>(); }
ENTRY p15_eq_large_u32() { largeArrays<std::uint32_t, 257>(); }
ENTRY p15_memvcmp_null()
{
    unsigned char val = any<std::uint8_t>("byte");
    std::size_t n = any<std::size_t>("size");
    CHECK(!utils::memvcmp(nullptr, val, n), "memvcmp of null is false");
    unsigned char c = any<std::uint8_t>("memory");
    CHECK(!utils::memvcmp(&c, val, 0), "memvcmp of nothing is false");
}
template <typename T, std::size_t N> static void arrays()
{
    std::array<T, N> a, b;
    for (auto& x: a) x = static_cast<T>(any<T>("left"));
    for (auto& x: b) x = static_cast<T>(any<T>("right"));
    std::size_t k = __v_choice(N + 2, "count");
    bool want = true;
    std::size_t m = k <= N ? k : N;
    bool r = k <= N ? utils::is_equal(a, b, k) : utils::is_equal(a, b);
    for (std::size_t i = 0; i < m; ++i)
        if (a[i] != b[i])
        {
            want = false;
            break;
        }
    CHECK(r == want, "is_equal compares exactly the first K elements");
}
ENTRY p15_eq_u8() { arrays<std::uint8_t, 6>(); }
ENTRY p15_eq_u64() { arrays<std::uint64_t, 3>(); }
// elements that are not equal exactly when their bytes are
struct Mod
{
    std::uint8_t v, noise;
    friend bool operator==(const Mod& x, const Mod& y) { return x.v == y.v; }
    friend bool operator!=(const Mod& x, const Mod& y) { return x.v != y.v; }
};
ENTRY p15_eq_objects()
{
    std::array<Mod, 3> a, b;
    bool want = true;
    for (auto& x: a) x = {any<std::uint8_t>("left"), any<std::uint8_t>("noise")};
    for (auto& x: b) x = {any<std::uint8_t>("right"), any<std::uint8_t>("noise")};
    std::size_t k = __v_choice(4, "count");
    bool r = utils::is_equal(a, b, k);
    for (std::size_t i = 0; i < k; ++i)
        if (a[i].v != b[i].v)
        {
            want = false;
            break;
        }
    CHECK(r == want, "is_equal compares elements with their own equality");
}
ENTRY p15_eq_u8_1() { arrays<std::uint8_t, 1>(); }
struct Parts
{
    std::uint32_t a;
    std::uint16_t b;
    std::uint8_t c[2];
};
struct Bytes8
{
    unsigned char c[8];
};
// where the i-th byte in memory is in a number
constexpr unsigned position(unsigned i, unsigned size)
{
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
    return size ? 8 * i : 0;
#else
    return 8 * (size - 1 - i);
#endif
}
ENTRY p15_bitcast()
{
    std::uint64_t v = any<std::uint64_t>("value");
    auto p = utils::bit_cast<Parts>(v);
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
    constexpr unsigned first[] = {0, 32, 48, 56};
#else
    constexpr unsigned first[] = {32, 16, 8, 0};
#endif
    CHECK(p.a == static_cast<std::uint32_t>(v >> first[0]), "bit_cast keeps the first word");
    CHECK(p.b == static_cast<std::uint16_t>(v >> first[1]), "bit_cast keeps the middle bits");
    CHECK(p.c[0] == static_cast<std::uint8_t>(v >> first[2]) && p.c[1] == static_cast<std::uint8_t>(v >> first[3]), "bit_cast keeps the last bytes");
    CHECK(utils::bit_cast<std::uint64_t>(p) == v, "bit_cast back gives the value");
    auto b = utils::bit_cast<Bytes8>(p);
    for (unsigned i = 0; i < 8; ++i) CHECK(b.c[i] == static_cast<std::uint8_t>(v >> position(i, sizeof v)), "bit_cast keeps every byte");
    std::int64_t s = utils::bit_cast<std::int64_t>(v);
    CHECK(static_cast<std::uint64_t>(s) == v, "bit_cast to signed keeps the bits");
    double d = utils::bit_cast<double>(v);
    CHECK(utils::bit_cast<std::uint64_t>(d) == v, "bit_cast through double keeps the bits");
}
ENTRY p15_bitcast32()
{
    std::uint32_t v = any<std::uint32_t>("value");
    float f = utils::bit_cast<float>(v);
    CHECK(utils::bit_cast<std::uint32_t>(f) == v, "bit_cast through float keeps the bits");
    struct B { unsigned char c[4]; };
    B b = utils::bit_cast<B>(v);
    for (unsigned i = 0; i < 4; ++i) CHECK(b.c[i] == static_cast<std::uint8_t>(v >> position(i, sizeof v)), "bit_cast keeps every byte");
}
