#include "irai.h"
#include <utils/utils.h>
template <typename C> static void compare(C n, C d, C q, C r)
{
    CHECK(q == static_cast<C>(n / d), "quotient is exact");
    CHECK(r == static_cast<C>(n % d), "remainder is exact");
}
template <typename C> static void domain(C n, C d)
{
    __v_assume(d != 0);
    if constexpr (std::is_signed_v<C>)
        __v_assume(!(n == std::numeric_limits<C>::min() && d == static_cast<C>(-1)));
}
template <typename T, typename U> static void go()
{
    using C = std::common_type_t<T, U>;
    T n = any<std::make_unsigned_t<T>>("numerator");
    U d = any<std::make_unsigned_t<U>>("denominator");
    __v_assume(d != 0);
    domain<C>(static_cast<C>(n), static_cast<C>(d));
    auto r = utils::div(n, d);
    static_assert(std::is_same_v<decltype(r.quot), C>, "WITNESS div gives the common type");
    compare<C>(static_cast<C>(n), static_cast<C>(d), r.quot, r.rem);
}
template <typename R, typename T, typename U> static void as()
{
    T n = any<std::make_unsigned_t<T>>("numerator");
    U d = any<std::make_unsigned_t<U>>("denominator");
    domain<R>(static_cast<R>(n), static_cast<R>(d));
    auto r = utils::div_as<R>(n, d);
    static_assert(std::is_same_v<decltype(r.quot), R>, "WITNESS div_as gives the requested type");
    compare<R>(static_cast<R>(n), static_cast<R>(d), r.quot, r.rem);
}
ENTRY p13_i8()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<std::int8_t, std::int8_t>(); break;
        case 1: go<std::int8_t, std::uint8_t>(); break;
        case 2: go<std::int8_t, std::int16_t>(); break;
        case 3: go<std::int8_t, std::uint16_t>(); break;
        case 4: go<std::int8_t, std::int32_t>(); break;
        case 5: go<std::int8_t, std::uint32_t>(); break;
        case 6: go<std::int8_t, long>(); break;
        case 7: go<std::int8_t, unsigned long>(); break;
        case 8: go<std::int8_t, long long>(); break;
        case 9: go<std::int8_t, unsigned long long>(); break;
    }
}
ENTRY p13_u8()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<std::uint8_t, std::int8_t>(); break;
        case 1: go<std::uint8_t, std::uint8_t>(); break;
        case 2: go<std::uint8_t, std::int16_t>(); break;
        case 3: go<std::uint8_t, std::uint16_t>(); break;
        case 4: go<std::uint8_t, std::int32_t>(); break;
        case 5: go<std::uint8_t, std::uint32_t>(); break;
        case 6: go<std::uint8_t, long>(); break;
        case 7: go<std::uint8_t, unsigned long>(); break;
        case 8: go<std::uint8_t, long long>(); break;
        case 9: go<std::uint8_t, unsigned long long>(); break;
    }
}
ENTRY p13_i16()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<std::int16_t, std::int8_t>(); break;
        case 1: go<std::int16_t, std::uint8_t>(); break;
        case 2: go<std::int16_t, std::int16_t>(); break;
        case 3: go<std::int16_t, std::uint16_t>(); break;
        case 4: go<std::int16_t, std::int32_t>(); break;
        case 5: go<std::int16_t, std::uint32_t>(); break;
        case 6: go<std::int16_t, long>(); break;
        case 7: go<std::int16_t, unsigned long>(); break;
        case 8: go<std::int16_t, long long>(); break;
        case 9: go<std::int16_t, unsigned long long>(); break;
    }
}
ENTRY p13_u16()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<std::uint16_t, std::int8_t>(); break;
        case 1: go<std::uint16_t, std::uint8_t>(); break;
        case 2: go<std::uint16_t, std::int16_t>(); break;
        case 3: go<std::uint16_t, std::uint16_t>(); break;
        case 4: go<std::uint16_t, std::int32_t>(); break;
        case 5: go<std::uint16_t, std::uint32_t>(); break;
        case 6: go<std::uint16_t, long>(); break;
        case 7: go<std::uint16_t, unsigned long>(); break;
        case 8: go<std::uint16_t, long long>(); break;
        case 9: go<std::uint16_t, unsigned long long>(); break;
    }
}
ENTRY p13_i32()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<std::int32_t, std::int8_t>(); break;
        case 1: go<std::int32_t, std::uint8_t>(); break;
        case 2: go<std::int32_t, std::int16_t>(); break;
        case 3: go<std::int32_t, std::uint16_t>(); break;
        case 4: go<std::int32_t, std::int32_t>(); break;
        case 5: go<std::int32_t, std::uint32_t>(); break;
        case 6: go<std::int32_t, long>(); break;
        case 7: go<std::int32_t, unsigned long>(); break;
        case 8: go<std::int32_t, long long>(); break;
        case 9: go<std::int32_t, unsigned long long>(); break;
    }
}
ENTRY p13_u32()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<std::uint32_t, std::int8_t>(); break;
        case 1: go<std::uint32_t, std::uint8_t>(); break;
        case 2: go<std::uint32_t, std::int16_t>(); break;
        case 3: go<std::uint32_t, std::uint16_t>(); break;
        case 4: go<std::uint32_t, std::int32_t>(); break;
        case 5: go<std::uint32_t, std::uint32_t>(); break;
        case 6: go<std::uint32_t, long>(); break;
        case 7: go<std::uint32_t, unsigned long>(); break;
        case 8: go<std::uint32_t, long long>(); break;
        case 9: go<std::uint32_t, unsigned long long>(); break;
    }
}
ENTRY p13_l()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<long, std::int8_t>(); break;
        case 1: go<long, std::uint8_t>(); break;
        case 2: go<long, std::int16_t>(); break;
        case 3: go<long, std::uint16_t>(); break;
        case 4: go<long, std::int32_t>(); break;
        case 5: go<long, std::uint32_t>(); break;
        case 6: go<long, long>(); break;
        case 7: go<long, unsigned long>(); break;
        case 8: go<long, long long>(); break;
        case 9: go<long, unsigned long long>(); break;
    }
}
ENTRY p13_ul()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<unsigned long, std::int8_t>(); break;
        case 1: go<unsigned long, std::uint8_t>(); break;
        case 2: go<unsigned long, std::int16_t>(); break;
        case 3: go<unsigned long, std::uint16_t>(); break;
        case 4: go<unsigned long, std::int32_t>(); break;
        case 5: go<unsigned long, std::uint32_t>(); break;
        case 6: go<unsigned long, long>(); break;
        case 7: go<unsigned long, unsigned long>(); break;
        case 8: go<unsigned long, long long>(); break;
        case 9: go<unsigned long, unsigned long long>(); break;
    }
}
ENTRY p13_ll()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<long long, std::int8_t>(); break;
        case 1: go<long long, std::uint8_t>(); break;
        case 2: go<long long, std::int16_t>(); break;
        case 3: go<long long, std::uint16_t>(); break;
        case 4: go<long long, std::int32_t>(); break;
        case 5: go<long long, std::uint32_t>(); break;
        case 6: go<long long, long>(); break;
        case 7: go<long long, unsigned long>(); break;
        case 8: go<long long, long long>(); break;
        case 9: go<long long, unsigned long long>(); break;
    }
}
ENTRY p13_ull()
{
    switch (__v_choice(10, "denominator type"))
    {
        case 0: go<unsigned long long, std::int8_t>(); break;
        case 1: go<unsigned long long, std::uint8_t>(); break;
        case 2: go<unsigned long long, std::int16_t>(); break;
        case 3: go<unsigned long long, std::uint16_t>(); break;
        case 4: go<unsigned long long, std::int32_t>(); break;
        case 5: go<unsigned long long, std::uint32_t>(); break;
        case 6: go<unsigned long long, long>(); break;
        case 7: go<unsigned long long, unsigned long>(); break;
        case 8: go<unsigned long long, long long>(); break;
        case 9: go<unsigned long long, unsigned long long>(); break;
    }
}
ENTRY p13_as_i8()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<std::int8_t, std::int8_t, std::int8_t>(); break;
        case 1: as<std::int8_t, std::int32_t, std::int32_t>(); break;
        case 2: as<std::int8_t, unsigned long long, std::uint8_t>(); break;
        case 3: as<std::int8_t, std::int8_t, long long>(); break;
        case 4: as<std::int8_t, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_u8()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<std::uint8_t, std::uint8_t, std::uint8_t>(); break;
        case 1: as<std::uint8_t, std::int32_t, std::int32_t>(); break;
        case 2: as<std::uint8_t, unsigned long long, std::uint8_t>(); break;
        case 3: as<std::uint8_t, std::int8_t, long long>(); break;
        case 4: as<std::uint8_t, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_i16()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<std::int16_t, std::int16_t, std::int16_t>(); break;
        case 1: as<std::int16_t, std::int32_t, std::int32_t>(); break;
        case 2: as<std::int16_t, unsigned long long, std::uint8_t>(); break;
        case 3: as<std::int16_t, std::int8_t, long long>(); break;
        case 4: as<std::int16_t, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_u16()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<std::uint16_t, std::uint16_t, std::uint16_t>(); break;
        case 1: as<std::uint16_t, std::int32_t, std::int32_t>(); break;
        case 2: as<std::uint16_t, unsigned long long, std::uint8_t>(); break;
        case 3: as<std::uint16_t, std::int8_t, long long>(); break;
        case 4: as<std::uint16_t, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_i32()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<std::int32_t, std::int32_t, std::int32_t>(); break;
        case 1: as<std::int32_t, std::int32_t, std::int32_t>(); break;
        case 2: as<std::int32_t, unsigned long long, std::uint8_t>(); break;
        case 3: as<std::int32_t, std::int8_t, long long>(); break;
        case 4: as<std::int32_t, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_u32()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<std::uint32_t, std::uint32_t, std::uint32_t>(); break;
        case 1: as<std::uint32_t, std::int32_t, std::int32_t>(); break;
        case 2: as<std::uint32_t, unsigned long long, std::uint8_t>(); break;
        case 3: as<std::uint32_t, std::int8_t, long long>(); break;
        case 4: as<std::uint32_t, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_l()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<long, long, long>(); break;
        case 1: as<long, std::int32_t, std::int32_t>(); break;
        case 2: as<long, unsigned long long, std::uint8_t>(); break;
        case 3: as<long, std::int8_t, long long>(); break;
        case 4: as<long, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_ul()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<unsigned long, unsigned long, unsigned long>(); break;
        case 1: as<unsigned long, std::int32_t, std::int32_t>(); break;
        case 2: as<unsigned long, unsigned long long, std::uint8_t>(); break;
        case 3: as<unsigned long, std::int8_t, long long>(); break;
        case 4: as<unsigned long, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_ll()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<long long, long long, long long>(); break;
        case 1: as<long long, std::int32_t, std::int32_t>(); break;
        case 2: as<long long, unsigned long long, std::uint8_t>(); break;
        case 3: as<long long, std::int8_t, long long>(); break;
        case 4: as<long long, std::uint32_t, unsigned long>(); break;
    }
}
ENTRY p13_as_ull()
{
    switch (__v_choice(5, "operand types"))
    {
        case 0: as<unsigned long long, unsigned long long, unsigned long long>(); break;
        case 1: as<unsigned long long, std::int32_t, std::int32_t>(); break;
        case 2: as<unsigned long long, unsigned long long, std::uint8_t>(); break;
        case 3: as<unsigned long long, std::int8_t, long long>(); break;
        case 4: as<unsigned long long, std::uint32_t, unsigned long>(); break;
    }
}
