// P31: successive readings of one timer under a clock that never goes back.
#include "irai.h"
#include <utils/timer.h>
static std::int64_t nowValue;
static unsigned otherClocks;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(nowValue)); }
// a clock that may be set
system_clock::time_point system_clock::now() noexcept
{
    ++otherClocks;
    return time_point(duration(static_cast<std::int64_t>(__v_range(0, 1ull << 62, "system clock"))));
}
} } }
extern "C" int clock_gettime(int, struct timespec*) noexcept { ++otherClocks; return -1; }
extern "C" long time(long*) noexcept { ++otherClocks; return -1; }
using T = utils::timer;
using std::chrono::steady_clock;
static std::int64_t s;
static std::int64_t advance(bool any = true)
{
    static const std::int64_t some[] = {0, 1, 999, 1000000001, 1ll << 60};
    const auto d = any ? static_cast<std::int64_t>(__v_range(0, 1ull << 60, "time passes")) : some[__v_choice(5, "time that passes")];
    nowValue += d;
    return d;
}
struct Quiet
{
    void operator()(const T&) const noexcept {}
    void operator()(T::duration) const noexcept {}
};
static void fixed(const char* what)
{
    static const std::int64_t at0[] = {0, 1, 999999999, 123456789012345};
    nowValue = at0[__v_choice(4, what)];
}
// leaked() itself: any start, any two later readings
ENTRY p31_leaked()
{
    const bool early = __v_choice(2, "which reading is at any time");
    fixed("construction");
    alignas(T) unsigned char a[sizeof(T)], b[sizeof(T)];
    T* t = new (a) T(Quiet{});
    s = nowValue;
    if (__v_choice(2, "reset"))
    {
        nowValue = 5 * s + 77;
        t->reset();
        s = nowValue;
    }
    advance(early);
    std::int64_t first = static_cast<const T*>(t)->leaked().count();
    CHECK(first >= 0, "elapsed time is not negative");
    CHECK(first == nowValue - s, "elapsed time is that of the clock");
    switch (__v_choice(4, "between"))
    {
        case 0: break;
        case 1: (void)t->leaked_sec(); break;
        case 2: (void)t->start_tp(); break;
        case 3: t = new (b) T(static_cast<T&&>(*t)); break;
    }
    const std::int64_t d = advance(!early);
    std::int64_t second = static_cast<const T*>(t)->leaked().count();
    CHECK(second == nowValue - s, "elapsed time is that of the clock");
    // neither difference leaves the range: d is not negative
    CHECK(second - first == d, "elapsed time grows by the time that passes, and so never decreases");
    CHECK(otherClocks == 0, "only the steady clock is read");
    t->~T();
}
// the other units are the elapsed time, rounded towards zero: as x / unit does
// not decrease with x, neither do they
ENTRY p31_units()
{
    fixed("construction");
    alignas(T) unsigned char a[sizeof(T)];
    T* t = new (a) T(Quiet{});
    s = nowValue;
    for (int k = 0; k < 2; ++k)
    {
        advance();
        std::int64_t d = nowValue - s;
        switch (__v_choice(4, "unit"))
        {
            case 0: CHECK(t->leaked_nano_sec().count() == d, "nanoseconds are exact"); break;
            case 1: CHECK(t->leaked_micro_sec().count() == d / 1000, "microseconds are exact"); break;
            case 2: CHECK(t->leaked_milli_sec().count() == d / 1000000, "milliseconds are exact"); break;
            case 3: CHECK(t->leaked_sec().count() == d / 1000000000, "seconds are exact"); break;
        }
        nowValue = s;
    }
    CHECK(otherClocks == 0, "only the steady clock is read");
    t->~T();
}
