#include "irai.h"
#include <utils/common.h>
#include <utils/memory/memory.h>
ENTRY p11_bits_count()
{
    std::uint64_t v = any<std::uint64_t>("value");
    auto n = utils::bits_count(v);
    if (v == 0)
        CHECK(n == 0, "bits_count of 0 is 0");
    else
    {
        CHECK(n >= 1 && n <= 64, "bits_count in range");
        CHECK((v >> (n - 1)) == 1, "bits_count is the highest set bit plus one");
    }
}
template <typename T> static void occupied()
{
    T v = any<T>("value");
    const T w = v;
    std::size_t n = utils::nbits_occupied(w);
    if (v == 0)
        CHECK(n == 0, "nbits_occupied of 0 is 0");
    else
    {
        CHECK(n >= 1 && n <= sizeof(T) * 8, "nbits_occupied in range");
        CHECK(static_cast<T>(v >> (n - 1)) == 1, "nbits_occupied is the highest set bit plus one");
    }
    CHECK(w == v, "nbits_occupied leaves its argument alone");
}
ENTRY p11_occ8() { occupied<std::uint8_t>(); }
ENTRY p11_occ16() { occupied<std::uint16_t>(); }
ENTRY p11_occ32() { occupied<std::uint32_t>(); }
ENTRY p11_occ64() { occupied<std::uint64_t>(); }
template <typename T> static unsigned lowest(T v)
{
    for (unsigned i = 0; i < sizeof(T) * 8; ++i)
        if ((v >> i) & 1) return i;
    return sizeof(T) * 8;
}
ENTRY p11_pow2()
{
    std::size_t v = any<std::size_t>("value");
    unsigned l = lowest(v);
    bool want = v != 0 && v == (std::size_t{1} << l);
    CHECK(utils::is_power_of_2(v) == want, "is_power_of_2 is true exactly for single bits");
}
template <typename T> static void divisor()
{
    T v = any<T>("value");
    T g = utils::greatest_divisor_that_is_power_of_2(v);
    unsigned l = lowest(v);
    if (v == 0)
        CHECK(g == static_cast<T>(static_cast<T>(1) << (sizeof(T) * 8 - 1)), "greatest divisor of 0 is the top bit");
    else
        CHECK(g == static_cast<T>(static_cast<T>(1) << l), "greatest power of two divisor is the lowest set bit");
}
ENTRY p11_div8() { divisor<std::uint8_t>(); }
ENTRY p11_div16() { divisor<std::uint16_t>(); }
ENTRY p11_div32() { divisor<std::uint32_t>(); }
ENTRY p11_div64() { divisor<std::uint64_t>(); }
ENTRY p11_table()
{
    std::uint8_t i = any<std::uint8_t>("index");
    unsigned n = 0;
    for (unsigned k = 0; k < 8; ++k) n += (i >> k) & 1;
    CHECK(utils::kNumBitsTable.size() == 256, "table has 256 entries");
    CHECK(utils::kNumBitsTable[i] == n, "table holds the number of set bits");
}
ENTRY p11_alignment()
{
    std::uintptr_t v = any<std::uintptr_t>("address");
    __v_assume(v != 0);
    std::size_t a = utils::memory::get_alignment(reinterpret_cast<void const*>(v));
    unsigned l = lowest(v);
    CHECK(a == (std::size_t{1} << l), "alignment of a pointer is its lowest set bit");
}
