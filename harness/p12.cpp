#include "irai.h"
#include <utils/common.h>
// next multiple: >= v, < v + m, multiple of m
template <typename T> static void spec(T v, T m, T r)
{
    CHECK(static_cast<T>(r & (m - 1)) == 0, "result is a multiple");
    CHECK(r >= v, "result is not below the value");
    CHECK(static_cast<T>(r - v) <= static_cast<T>(m - 1), "result is the smallest such multiple");
}
static std::uintptr_t pow2(const char* n) { return std::uintptr_t{1} << __v_choice(64, n); }
ENTRY p12_next()
{
    std::uintptr_t m = pow2("log2 multiple"), v = any<std::uintptr_t>("value");
    __v_assume(v <= ~(m - 1));
    spec<std::uintptr_t>(v, m, utils::next_multiple_of(m, v));
}
template <auto M, typename U> static void nextT()
{
    U v = any<U>("value");
    __v_assume(v <= static_cast<U>(std::numeric_limits<U>::max() & ~static_cast<U>(M - 1)));
    if constexpr (std::is_signed_v<U>) __v_assume(v >= 0);
    U r = utils::next_multiple_of<M>(v);
    CHECK(static_cast<U>(r & static_cast<U>(M - 1)) == 0, "result is a multiple");
    CHECK(r >= v, "result is not below the value");
    CHECK(static_cast<std::uint64_t>(r) - static_cast<std::uint64_t>(v) < static_cast<std::uint64_t>(M), "result is the smallest such multiple");
}
template <typename U> static void nextAll()
{
    switch (__v_choice(sizeof(U) == 1 ? 7 : 10, "multiple"))
    {
        case 0: nextT<1u, U>(); break;
        case 1: nextT<2u, U>(); break;
        case 2: nextT<4u, U>(); break;
        case 3: nextT<8u, U>(); break;
        case 4: nextT<16u, U>(); break;
        case 5: nextT<32u, U>(); break;
        case 6: nextT<64u, U>(); break;
        case 7: if constexpr (sizeof(U) > 1) nextT<256u, U>(); break;
        case 8: if constexpr (sizeof(U) > 1) nextT<std::size_t{4096}, U>(); break;
        case 9: if constexpr (sizeof(U) > 1) nextT<16384, U>(); break;
    }
}
ENTRY p12_next_u8() { nextAll<std::uint8_t>(); }
ENTRY p12_next_u16() { nextAll<std::uint16_t>(); }
ENTRY p12_next_u32() { nextAll<std::uint32_t>(); }
ENTRY p12_next_u64() { nextAll<std::uint64_t>(); }
ENTRY p12_next_i32() { nextAll<std::int32_t>(); }
ENTRY p12_next_big()
{
    nextT<(std::size_t{1} << 31), std::uint64_t>();
}
ENTRY p12_next_big2()
{
    nextT<(std::size_t{1} << 40), std::uint64_t>();
}
ENTRY p12_skip()
{
    std::uintptr_t m = pow2("log2 alignment"), v = any<std::uintptr_t>("address");
    __v_assume(v <= ~(m - 1));
    std::uintptr_t s = utils::skip_to_align(reinterpret_cast<void const*>(v), m);
    CHECK(s <= m - 1, "skip is smaller than the alignment");
    CHECK(((v + s) & (m - 1)) == 0, "address plus skip is aligned");
}
struct alignas(16) A16 { char c[16]; };
struct alignas(64) A64 { char c[64]; };
template <typename T> static void skipT()
{
    std::uintptr_t v = any<std::uintptr_t>("address");
    __v_assume(v <= ~(alignof(T) - 1));
    std::uintptr_t s = utils::skip_to_align<T>(reinterpret_cast<void const*>(v));
    CHECK(s <= alignof(T) - 1, "typed skip is smaller than the alignment");
    CHECK(((v + s) & (alignof(T) - 1)) == 0, "address plus typed skip is aligned");
    bool al = utils::is_aligned<T>(reinterpret_cast<void const*>(v));
    bool want = true;
    for (std::size_t i = 0; (std::size_t{1} << i) < alignof(T); ++i)
        if ((v >> i) & 1)
        {
            want = false;
            break;
        }
    CHECK(al == want, "typed is_aligned is exact");
}
ENTRY p12_skip_t()
{
    switch (__v_choice(5, "type"))
    {
        case 0: skipT<char>(); break;
        case 1: skipT<short>(); break;
        case 2: skipT<double>(); break;
        case 3: skipT<A16>(); break;
        case 4: skipT<A64>(); break;
    }
}
ENTRY p12_is_aligned()
{
    unsigned k = __v_choice(64, "log2 alignment");
    std::uintptr_t v = any<std::uintptr_t>("address");
    bool al = utils::is_aligned(reinterpret_cast<void const*>(v), std::size_t{1} << k);
    bool want = true;
    for (unsigned i = 0; i < k; ++i)
        if ((v >> i) & 1)
        {
            want = false;
            break;
        }
    CHECK(al == want, "is_aligned is true exactly for multiples");
}
ENTRY p12_max_alignment()
{
    unsigned k = __v_choice(64, "log2 block alignment");
    std::size_t A = std::size_t{1} << k;
    // every size of at least one byte, written as v - A + 1
    std::size_t v = any<std::size_t>("A+S-1");
    __v_assume(v >= A);
    std::size_t S = v - A + 1;
    std::size_t r = utils::max_alignment_inside_block(A, S);
    bool pow = false;
    unsigned e = 0;
    for (unsigned i = 0; i < 64; ++i)
        if (r == (std::size_t{1} << i)) pow = true, e = i;
    CHECK(pow, "maximal alignment is a power of two");
    CHECK((v >> e) == 1, "maximal alignment is the greatest power of two not above A+S-1");
}
