// More uses, for the query about hidden state (P34). Never run.
#include "instances.cpp"
#include <functional>
#include <string>
template class utils::details::timer<8, 8, std::chrono::steady_clock>;
template class utils::details::timer<16, 64, std::chrono::steady_clock>;
template class utils::fast_pimpl<std::string, sizeof(std::string), alignof(std::string)>;
template class utils::fast_pimpl<int, sizeof(int), alignof(int)>;
template class utils::memory::simple_resource<4, 8>;
template class utils::memory::simple_resource<300, 16>;
template class utils::memory::allocator<std::byte>;
template class utils::memory::allocator<std::string>;
namespace instances
{
template <typename U> void unsignedOnes(U a, unsigned k)
{
    (void)utils::clz(a);
    (void)utils::ctz(a);
    (void)utils::greatest_divisor_that_is_power_of_2(a);
    (void)utils::nbits_occupied(a);
    (void)utils::next_multiple_of<8>(a);
    (void)utils::shift_left(a, k);
    (void)utils::shift_right(a, k);
    (void)utils::div(a, U{3});
    (void)utils::div(a, -3);
    (void)utils::div_as<int>(a, U{3});
}
inline void unsigneds(unsigned char a, unsigned short b, unsigned c, unsigned long d, unsigned long long e, unsigned k)
{
    unsignedOnes(a, k);
    unsignedOnes(b, k);
    unsignedOnes(c, k);
    unsignedOnes(d, k);
    unsignedOnes(e, k);
}
struct Visitor
{
    template <typename... A> void operator()(A&&...) const {}
};
inline void others(const void* p, std::size_t a, std::string_view sv, std::string& s, std::byte* q)
{
    (void)utils::is_power_of_2(a);
    (void)utils::next_multiple_of(a, a);
    (void)utils::skip_to_align(p, a);
    (void)utils::skip_to_align<long>(p);
    (void)utils::is_aligned(p, a);
    (void)utils::is_aligned<long>(p);
    (void)utils::max_alignment_inside_block(a, a);
    (void)utils::bit_cast<unsigned>(1.0f);
    (void)utils::make_array<3, std::byte>(sv);
    (void)utils::make_array<4, char>(sv);
    (void)utils::make_array(1, 2, 3);
    (void)utils::make_array<std::string, 3>(s);
    (void)utils::make_array_from_range<1, 7, 2>();
    (void)utils::make_zero_array<int, 4>();
    (void)utils::sv_to_array<1, 2>(sv);
    std::array<std::string, 2> x{};
    std::array<int, 3> y{}, z{};
    (void)utils::concatenate_arrays(x, x, x);
    (void)utils::concatenate_arrays(y, z);
    (void)(utils::is_equal(y, z));
    utils::for_each_arg(Visitor{}, 1, s, 2.0);
    utils::for_each_in_tuple(Visitor{}, std::make_tuple(1, s, 2.0));
    utils::memory::memcpy(q, static_cast<const std::byte*>(p), a);
    utils::memory::memcpy(static_cast<void*>(q), p, a);
    (void)utils::memory::get_alignment(p);
    (void)utils::to_underlying(std::memory_order_relaxed);
    allocator<std::string> al;
    auto* o = al.new_object<std::string>(std::move(s));
    al.delete_object(o);
    auto* ob = al.allocate_object<E>(a);
    al.deallocate_object(ob);
    al.deallocate_bytes(al.allocate_bytes(a, 8));
    allocator<E> other(al);
    (void)(other == al);
    (void)(other != al);
    (void)(*al.resource() == *system_memory_resource());
    (void)(*al.resource() != *null_memory_resource());
    (void)al.resource()->allocate<E>();
    std::byte buf[64];
    monotonic_buffer_resource m(buf, null_memory_resource());
    (void)m.data();
    (void)m.size();
    simple_resource<4, 8> r(q, a);
    (void)static_cast<const simple_resource<4, 8>&>(r).at(0);
    (void)r.in_use(0);
    (void)r.free_count();
    (void)r.busy_count();
    (void)r.block_size(0);
}
}  // namespace instances
