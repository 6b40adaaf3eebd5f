#include "irai.h"
#include <utils/common.h>
static bool printed;
static bool mustAbort;
static bool mustPrint;
struct Conv
{
    char kind;
    std::uint64_t value;
};
static Conv conv[8];
static unsigned convs;
static char text[256];
static unsigned textLen;
// the platform's formatted output: literal text and the arguments consumed
extern "C" int vfprintf(FILE*, const char* f, va_list ap)
{
    CHECK(!printed, "the message is printed once");
    printed = true;
    for (; *f; ++f)
    {
        if (*f != '%')
        {
            text[textLen++] = *f;
            continue;
        }
        ++f;
        Conv c{*f, 0};
        if (*f == 's')
            c.value = reinterpret_cast<std::uint64_t>(va_arg(ap, const char*));
        else if (*f == 'p')
            c.value = reinterpret_cast<std::uint64_t>(va_arg(ap, void*));
        else if (*f == 'd')
            c.value = static_cast<std::uint64_t>(static_cast<std::int64_t>(va_arg(ap, int)));
        else if (*f == 'z')
        {
            ++f;
            c.value = va_arg(ap, std::size_t);
        }
        else
            __v_fail("unknown conversion in a message");
        conv[convs++] = c;
        text[textLen++] = '%';
    }
    return 0;
}
static bool endsWith(const char* e)
{
    unsigned n = 0;
    while (e[n]) ++n;
    if (n > textLen) return false;
    for (unsigned i = 0; i < n; ++i)
        if (text[textLen - n + i] != e[i]) return false;
    return true;
}
static const char* wantText;
static Conv want[4];
static unsigned wants;
extern "C" void abort()
{
    CHECK(mustAbort, "abort_if aborts only when the condition holds");
    CHECK(printed == mustPrint, "the message given is printed before aborting");
    if (mustPrint)
    {
        CHECK(endsWith(wantText), "the message given is printed");
        CHECK(convs >= wants, "every argument is printed");
        for (unsigned i = 0; i < wants; ++i)
        {
            Conv& c = conv[convs - wants + i];
            CHECK(c.kind == want[i].kind && c.value == want[i].value, "the arguments given are printed, in order");
        }
    }
    __v_note("abort");
    __v_stop();
    for (;;) {}
}
static void message(bool c, const char* t)
{
    mustPrint = c;
    wantText = t;
}
static int num;
static const char* str;
static void* ptr;
static std::size_t size;
static void withArgs(bool c)
{
    num = static_cast<int>(any<std::uint32_t>("d"));
    str = "x";
    size = any<std::size_t>("zu");
    ptr = reinterpret_cast<void*>(any<std::uint64_t>("p"));
    message(c, "hello % % % %!");
    want[0] = {'d', static_cast<std::uint64_t>(static_cast<std::int64_t>(num))};
    want[1] = {'s', reinterpret_cast<std::uint64_t>(str)};
    want[2] = {'z', size};
    want[3] = {'p', reinterpret_cast<std::uint64_t>(ptr)};
    wants = 4;
}
ENTRY p29_abort_if()
{
    bool c = __v_bool("condition");
    mustAbort = c;
    switch (__v_choice(4, "form"))
    {
        case 0: utils::abort_if(c); break;
        case 1: message(c, "hello"); utils::abort_if(c, "hello"); break;
        case 2:
            withArgs(c);
            utils::abort_if(c, "hello %d %s %zu %p!", num, str, size, ptr);
            break;
        case 3: utils::abort_if(c, nullptr); break;
    }
    CHECK(!c, "abort_if aborts when the condition holds");
    CHECK(!printed, "nothing is printed when the condition does not hold");
}
ENTRY p29_macro()
{
    bool c = __v_bool("condition");
    mustAbort = c;
    unsigned evaluated = 0;
    switch (__v_choice(3, "form"))
    {
        case 0: message(c, ""); UTILS_ABORT_IF((++evaluated, c)); break;
        case 1: message(c, "hello"); UTILS_ABORT_IF((++evaluated, c), "hello"); break;
        case 2:
            withArgs(c);
            UTILS_ABORT_IF((++evaluated, c), "hello %d %s %zu %p!", num, str, size, ptr);
            break;
    }
    CHECK(!c, "UTILS_ABORT_IF aborts when the condition holds");
    CHECK(!printed, "nothing is printed when the condition does not hold");
    CHECK(evaluated == 1, "the condition is evaluated once");
}
ENTRY p29_debug_macro()
{
    bool c = __v_bool("condition");
#ifdef NDEBUG
    mustAbort = false;
#else
    mustAbort = c;
#endif
    switch (__v_choice(3, "form"))
    {
        case 0: message(mustAbort, ""); UTILS_DEBUG_ABORT_IF(c); break;
        case 1: message(mustAbort, "hello"); UTILS_DEBUG_ABORT_IF(c, "hello"); break;
        case 2:
            withArgs(mustAbort);
            UTILS_DEBUG_ABORT_IF(c, "hello %d %s %zu %p!", num, str, size, ptr);
            break;
    }
    CHECK(!mustAbort, "UTILS_DEBUG_ABORT_IF aborts in Debug builds when the condition holds");
    CHECK(!printed, "nothing is printed when the condition does not hold");
}
