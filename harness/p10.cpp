#include "irai.h"
#include <utils/clz.h>
#include <utils/ctz.h>
template <typename T> static void go()
{
    constexpr unsigned W = sizeof(T) * 8;
    T v = any<T>("value");
    __v_assume(v != 0);
    auto c = utils::clz(v);
    CHECK(c >= 0 && static_cast<unsigned>(c) < W, "clz in range");
    // c leading zeros: shifted by c the top bit is set, and nothing was lost
    CHECK(static_cast<T>(v >> (W - 1 - static_cast<unsigned>(c))) == 1, "clz counts the zeros above the highest set bit");
    auto t = utils::ctz(v);
    CHECK(t >= 0 && static_cast<unsigned>(t) < W, "ctz in range");
    CHECK(((v >> static_cast<unsigned>(t)) & 1) == 1, "bit after ctz zeros is set");
    CHECK(static_cast<T>(v << (W - 1 - static_cast<unsigned>(t))) == static_cast<T>(static_cast<T>(1) << (W - 1)), "ctz counts the zeros below the lowest set bit");
#ifdef PORTABLE
    auto fc = utils::details::crafted_clz(v);
    CHECK(static_cast<unsigned long>(c) == fc, "portable clz agrees");
    auto ft = utils::details::crafted_ctz(v);
    CHECK(static_cast<unsigned long>(t) == ft, "portable ctz agrees");
#endif
}
ENTRY p10_u8() { go<std::uint8_t>(); }
ENTRY p10_u16() { go<std::uint16_t>(); }
ENTRY p10_uint() { go<unsigned>(); }
ENTRY p10_ulong() { go<unsigned long>(); }
ENTRY p10_ull() { go<unsigned long long>(); }
