# writes p13.cpp: div/div_as for every pair of integer types
T = ['std::int8_t','std::uint8_t','std::int16_t','std::uint16_t','std::int32_t','std::uint32_t','long','unsigned long','long long','unsigned long long']
N = ['i8','u8','i16','u16','i32','u32','l','ul','ll','ull']
print('''#include "irai.h"
#include <utils/utils.h>
template <typename C> static void compare(C n, C d, C q, C r)
{
    CHECK(q == static_cast<C>(n / d), "quotient is exact");
    CHECK(r == static_cast<C>(n % d), "remainder is exact");
}
template <typename C> static void domain(C n, C d)
{
    __v_assume(d != 0);
    if constexpr (std::is_signed_v<C>)
        __v_assume(!(n == std::numeric_limits<C>::min() && d == static_cast<C>(-1)));
}
template <typename T, typename U> static void go()
{
    using C = std::common_type_t<T, U>;
    T n = any<std::make_unsigned_t<T>>("numerator");
    U d = any<std::make_unsigned_t<U>>("denominator");
    __v_assume(d != 0);
    domain<C>(static_cast<C>(n), static_cast<C>(d));
    auto r = utils::div(n, d);
    static_assert(std::is_same_v<decltype(r.quot), C>, "WITNESS div gives the common type");
    compare<C>(static_cast<C>(n), static_cast<C>(d), r.quot, r.rem);
}
template <typename R, typename T, typename U> static void as()
{
    T n = any<std::make_unsigned_t<T>>("numerator");
    U d = any<std::make_unsigned_t<U>>("denominator");
    domain<R>(static_cast<R>(n), static_cast<R>(d));
    auto r = utils::div_as<R>(n, d);
    static_assert(std::is_same_v<decltype(r.quot), R>, "WITNESS div_as gives the requested type");
    compare<R>(static_cast<R>(n), static_cast<R>(d), r.quot, r.rem);
}''')
for i,(t,a) in enumerate(zip(T,N)):
    print('ENTRY p13_%s()\n{\n    switch (__v_choice(%d, "denominator type"))\n    {' % (a, len(T)))
    for j,u in enumerate(T):
        print('        case %d: go<%s, %s>(); break;' % (j, t, u))
    print('    }\n}')
for i,(t,a) in enumerate(zip(T,N)):
    print('ENTRY p13_as_%s()\n{\n    switch (__v_choice(5, "operand types"))\n    {' % a)
    for j,(x,y) in enumerate([(t,t),('std::int32_t','std::int32_t'),('unsigned long long','std::uint8_t'),('std::int8_t','long long'),('std::uint32_t','unsigned long')]):
        print('        case %d: as<%s, %s, %s>(); break;' % (j, t, x, y))
    print('    }\n}')
