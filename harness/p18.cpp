// Buffers that hold a secret, are zeroed and never read again.  Compiled with
// optimization: what is analysed is what the optimizer left of the zeroing.
#include "irai.h"
#include <new>
#include <utils/memory/memory.h>
#include "zeroing.h"
using utils::memory::secure_zero_memory;
using utils::memory::secure_zero_memory_safe;
template <unsigned N>
static inline void onStack()
{
    std::byte b[N];
    __v_secret(b, N);
    secure_zero_memory(b, N);
}
ENTRY p18_stack()
{
    switch (__v_choice(8, "size"))
    {
        case 0: return onStack<1>();
        case 1: return onStack<7>();
        case 2: return onStack<16>();
        case 3: return onStack<32>();
        case 4: return onStack<61>();
        case 5: return onStack<256>();
        case 6: return onStack<1024>();
        case 7: return onStack<5000>();
    }
}
// the size is not known to the compiler
ENTRY p18_any_size()
{
    std::byte b[70];
    std::size_t n = __v_choice(71, "size");
    __v_secret(b, n);
    secure_zero_memory(b, n);
}
ENTRY p18_part()
{
    std::byte b[40];
    std::size_t from = __v_choice(20, "from"), n = __v_choice(21, "size");
    __v_secret(b + from, n);
    secure_zero_memory(b + from, n);
}
ENTRY p18_heap()
{
    std::byte* b = new std::byte[48];
    __v_secret(b, 48);
    secure_zero_memory(b, 48);
    delete[] b;
}
ENTRY p18_malloc()
{
    std::size_t n = __v_choice(34, "size");
    std::byte* b = static_cast<std::byte*>(std::malloc(n + 1));
    if (!b) return;
    __v_secret(b, n);
    secure_zero_memory(b, n);
    std::free(b);
}
struct Key
{
    std::byte k[24];
    ~Key() { secure_zero_memory(k, sizeof k); }
};
ENTRY p18_destructor()
{
    Key k;
    __v_secret(k.k, sizeof k.k);
}
ENTRY p18_object()
{
    struct S
    {
        std::uint64_t a;
        std::uint16_t b[5];
    } s{};
    __v_secret(&s, sizeof s);
    secure_zero_memory(reinterpret_cast<std::byte*>(&s), sizeof s);
}
ENTRY p18_safe()
{
    std::byte b[33];
    std::size_t n = __v_choice(34, "size");
    __v_secret(b, n);
    (void)secure_zero_memory_safe(b, n);
}
ENTRY p18_safe_constant()
{
    std::byte b[20];
    __v_secret(b, 20);
    (void)secure_zero_memory_safe(b, 20);
}
