#include "irai.h"
#include <utils/common.h>
#include <type_traits>
template <typename T> static void go(bool left)
{
    using U = std::make_unsigned_t<T>;
    constexpr unsigned W = sizeof(T) * 8;
    unsigned k = __v_choice(W, "count");
    T v = static_cast<T>(any<U>("value"));
    U u = static_cast<U>(v);
    if (left)
    {
        auto r = utils::shift_left(v, k);
        static_assert(std::is_same_v<decltype(r), T>, "WITNESS shift_left returns the type of its operand");
        U want = static_cast<U>(static_cast<std::uint64_t>(u) << k);
        CHECK(static_cast<U>(r) == want, "shift_left gives the shifted bits");
    }
    else
    {
        auto r = utils::shift_right(v, k);
        static_assert(std::is_same_v<decltype(r), T>, "WITNESS shift_right returns the type of its operand");
        std::uint64_t want = static_cast<std::uint64_t>(u) >> k;
        if (std::is_signed_v<T> && ((u >> (W - 1)) & 1))
            for (unsigned i = W - k; i < W; ++i) want |= std::uint64_t{1} << i;
        CHECK(static_cast<U>(r) == static_cast<U>(want), "shift_right gives the shifted bits");
    }
    CHECK(static_cast<U>(v) == u, "operand is unchanged");
}
template <typename T> static void both() { go<T>(__v_choice(2, "left")); }
ENTRY p14_u8() { both<std::uint8_t>(); }
ENTRY p14_u16() { both<std::uint16_t>(); }
ENTRY p14_u32() { both<std::uint32_t>(); }
ENTRY p14_u64() { both<std::uint64_t>(); }
ENTRY p14_ull() { both<unsigned long long>(); }
ENTRY p14_i8() { both<std::int8_t>(); }
ENTRY p14_i16() { both<std::int16_t>(); }
ENTRY p14_i32() { both<std::int32_t>(); }
ENTRY p14_i64() { both<std::int64_t>(); }
ENTRY p14_char() { both<char>(); }
ENTRY p14_wchar()
{
    unsigned k = __v_choice(32, "count");
    char32_t v = static_cast<char32_t>(any<std::uint32_t>("value"));
    CHECK(utils::shift_left(v, k) == static_cast<char32_t>(static_cast<std::uint64_t>(v) << k), "shift_left gives the shifted bits");
    CHECK(utils::shift_right(v, k) == static_cast<char32_t>(static_cast<std::uint64_t>(v) >> k), "shift_right gives the shifted bits");
    char32_t& l = v;
    CHECK(utils::shift_right(l, k) == utils::shift_right(static_cast<char32_t>(v), k), "value category does not matter");
}
