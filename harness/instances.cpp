// Uses that instantiate the library's templates, for queries over their IR.
// Never run.
#include <array>
#include <cstdint>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utils/clz.h>
#include <utils/common.h>
#include <utils/ctz.h>
#include <utils/fast_pimpl.h>
#include <utils/memory/allocator.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/simple_resource.h>
#include <utils/timer.h>
#include <utils/utils.h>
using namespace utils::memory;
namespace instances
{
template <std::size_t N, std::size_t B>
void simple(std::byte* p, std::size_t n, memory_resource* u)
{
    simple_resource<N, B> r(p, n, u);
    void* a = r.allocate(n, 8);
    r.deallocate(a);
    r.release();
    (void)r.is_equal(*u);
}
void simples(std::byte* p, std::size_t n, memory_resource* u)
{
    simple<2, 1>(p, n, u);
    simple<4, 8>(p, n, u);
    simple<255, 16>(p, n, u);
    simple<256, 16>(p, n, u);
    simple<70000, 64>(p, n, u);
}
struct E
{
    int i;
    E(int x) noexcept : i(x) {}
};
memory_resource* getDefault() { return get_default_resource(); }
memory_resource* setDefault(memory_resource* r) { return set_default_resource(r); }
void memory(std::byte* p, std::size_t n, memory_resource* u)
{
    monotonic_buffer_resource m(p, n, u);
    (void)m.allocate(n, 8);
    m.release();
    allocator<E> a(u);
    auto* e = a.template new_object<E>(3);
    a.delete_object(e);
    (void)a.allocate(n);
    secure_zero_memory(p, n);
    (void)secure_zero_memory_safe(p, n);
    (void)system_memory_resource()->allocate(n, 8);
    (void)null_memory_resource()->allocate(n, 8);
    utils::memory::memmove(p, p + 1, n);
    utils::memory::memcpy(p, p + 1, n);
    (void)utils::memvcmp(p, 3, n);
}
inline void timers()
{
    utils::timer t([](const utils::timer&) noexcept {});
    utils::timer u(std::move(t));
    u.reset();
    (void)u.leaked_micro_sec();
}
void arith(unsigned a, unsigned long b)
{
    (void)utils::clz(a);
    (void)utils::ctz(b);
    (void)utils::div(a, b);
    (void)utils::bits_count(a);
    utils::abort_if(a == 7);
    utils::abort_if(a == 7, "x");
}
}  // namespace instances
