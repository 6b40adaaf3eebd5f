#include "irai.h"
#include <utils/timer.h>
// a clock whose reading the environment chooses
static std::int64_t nowValue;
static unsigned clockReads;
struct Clock
{
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<Clock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept
    {
        ++clockReads;
        return time_point(duration(nowValue));
    }
};
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
    ++clockReads;
    return time_point(duration(nowValue));
}
} } }
static void tick() { nowValue = static_cast<std::int64_t>(__v_range(0, (1ull << 62), "clock")); }
#ifdef CUSTOM
// a clock of its own, room for a larger callback
using T = utils::details::timer<8, 16, Clock>;
using Word = std::uint64_t;
#else
using T = utils::timer;
using Word = std::uint32_t;
#endif
static constexpr unsigned S = 3;
struct alignas(T) Slot { unsigned char raw[sizeof(T)]; };
static Slot slot[S];
// ghost: 0 no object, 1 active, 2 moved from
static unsigned state[S];
static std::uint32_t id[S];
static std::int64_t start[S];
static unsigned calls;
static const void* calledWith;
static std::uint32_t calledId;
static std::int64_t calledStart;
static T& at(unsigned i) { return *reinterpret_cast<T*>(slot[i].raw); }
static void note(const T& t, std::uint32_t who) noexcept
{
    ++calls;
    calledWith = &t;
    calledId = who;
    calledStart = t.start_tp().time_since_epoch().count();
}
struct Callback
{
    Word pad;
    std::uint32_t who;
    void operator()(const T& t) const noexcept { note(t, pad == 99 ? who : 0xdead); }
    void operator()(T::duration) const noexcept { __v_fail("callback called with a duration"); }
};
static void plain(const T& t) noexcept { note(t, 1000000); }
static void destroy(unsigned i)
{
    calls = 0;
    bool act = state[i] == 1;
    at(i).~T();
    CHECK(calls == (act ? 1u : 0u), "a timer that was not moved from reports exactly once, a moved-from one never");
    if (act)
    {
        CHECK(calledWith == &at(i), "the callback is called with the timer itself");
        CHECK(calledId == id[i], "the callback and its state are the ones given");
        CHECK(calledStart == start[i], "the callback sees the start time");
    }
    state[i] = 0;
    start[i] = 0;
    id[i] = 0;
    for (auto& c: slot[i].raw) c = 0;
    calls = 0;
    calledWith = nullptr;
    calledId = 0;
    calledStart = 0;
}
static void createNow(unsigned i)
{
    clockReads = 0;
    unsigned how = __v_choice(3, "callback");
    std::uint32_t who = any<std::uint32_t>("callback id");
    if (how == 0)
        new (slot[i].raw) T(Callback{99, who});
    else if (how == 1)
    {
        const Callback c{99, who};
        new (slot[i].raw) T(c);
    }
    else
    {
        who = 1000000;
        auto f = [](const T& t) noexcept { plain(t); };
        struct F
        {
            decltype(f) g;
            void operator()(const T& t) const noexcept { plain(t); }
            void operator()(T::duration) const noexcept {}
        };
        F g{f};
        new (slot[i].raw) T(g);
    }
    CHECK(clockReads >= 1, "construction reads the clock");
    state[i] = 1;
    id[i] = who;
    start[i] = nowValue;
}
static void create(unsigned i)
{
    tick();
    createNow(i);
}
static void check(unsigned i)
{
    if (state[i] != 1) return;
    CHECK(at(i).start_tp().time_since_epoch().count() == start[i], "start time is the clock reading at construction or reset");
    tick();
    std::int64_t d = nowValue - start[i];
    CHECK(at(i).leaked().count() == d, "leaked time is the clock minus the start time");
}
static void units(unsigned i)
{
    tick();
    // a later reading
    __v_assume(nowValue >= start[i]);
    std::int64_t d = nowValue - start[i];
    CHECK(at(i).leaked_nano_sec().count() == d, "leaked_nano_sec");
    CHECK(at(i).leaked_micro_sec().count() == d / 1000, "leaked_micro_sec");
    CHECK(at(i).leaked_milli_sec().count() == d / 1000000, "leaked_milli_sec");
    CHECK(at(i).leaked_sec().count() == d / 1000000000, "leaked_sec");
}
static void step()
{
    unsigned i = __v_choice(S, "slot");
    switch (__v_choice(6, "operation"))
    {
        case 0:
            if (state[i]) __v_stop();
            create(i);
            break;
        case 1:
        {
            unsigned j = __v_choice(S, "from");
            if (i == j || state[i] || !state[j]) __v_stop();
            tick();
            calls = 0;
            new (slot[i].raw) T(static_cast<T&&>(at(j)));
            CHECK(calls == 0, "moving calls nothing");
            state[i] = state[j];
            id[i] = id[j];
            start[i] = start[j];
            if (state[j] == 1) state[j] = 2;
            break;
        }
        case 2:
        {
            unsigned j = __v_choice(S, "from");
            if (i == j || !state[i] || !state[j]) __v_stop();
            tick();
            calls = 0;
            T* r = &(at(i) = static_cast<T&&>(at(j)));
            CHECK(r == &at(i), "move assignment returns the timer");
            // what an active timer that is assigned to would have reported may be reported or dropped
            CHECK(calls == 0 || (state[i] == 1 && calls == 1 && calledId == id[i] && calledStart == start[i]), "move assignment calls nothing");
            calls = 0;
            calledWith = nullptr;
            calledId = 0;
            calledStart = 0;
            state[i] = state[j];
            id[i] = id[j];
            start[i] = start[j];
            if (state[j] == 1) state[j] = 2;
            break;
        }
        case 3:
            if (!state[i]) __v_stop();
            tick();
            at(i).reset();
            start[i] = nowValue;
            break;
        case 4:
            if (!state[i]) __v_stop();
            destroy(i);
            break;
        case 5: check(i); break;
    }
    nowValue = 0;
    clockReads = 0;
}
// every history over three timers
ENTRY p20_history()
{
    for (auto& s: slot)
        for (auto& c: s.raw) c = 0;
    for (;;)
    {
        __v_cut();
        step();
    }
}
ENTRY p20_units()
{
    static const std::int64_t at0[] = {0, 1, 999999999, 123456789012345};
    nowValue = at0[__v_choice(4, "start")];
    createNow(0);
    units(0);
    if (__v_choice(2, "reset"))
    {
        nowValue = at0[__v_choice(4, "reset at")];
        at(0).reset();
        start[0] = nowValue;
        units(0);
    }
    destroy(0);
}
// the public timer: function reference callbacks, the standard clock
static const utils::timer* seen;
static unsigned seenCalls;
static void report(const utils::timer& t) noexcept
{
    seen = &t;
    ++seenCalls;
}
ENTRY p20_public()
{
    tick();
    std::int64_t s = nowValue;
    alignas(utils::timer) unsigned char a[sizeof(utils::timer)], b[sizeof(utils::timer)];
    auto* t = new (a) utils::timer(report);
    CHECK(t->start_tp().time_since_epoch().count() == s, "start time is the clock reading at construction");
    tick();
    CHECK(t->leaked().count() == nowValue - s, "leaked time is the clock minus the start time");
    if (__v_choice(2, "move"))
    {
        auto* u = new (b) utils::timer(static_cast<utils::timer&&>(*t));
        t->~timer();
        CHECK(seenCalls == 0, "a moved-from timer calls nothing");
        CHECK(u->start_tp().time_since_epoch().count() == s, "moving keeps the start time");
        t = u;
    }
    t->~timer();
    CHECK(seenCalls == 1 && seen == t, "the callback is called exactly once with the timer itself");
}
