"""Planted bugs (see mkseed.py): each breaks one property while the stable
tests still pass; none is ever committed to the library."""
SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks, **k):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)


PLATFORM = r'''
#include <cstdlib>
#include <sysops/memory_ops.h>
namespace sysops::memory::ops
{
int posix_memalign(void** r, std::size_t a, std::size_t s) noexcept { return ::posix_memalign(r, a, s); }
void free(void* p) noexcept { ::free(p); }
}
'''

seed('s01_long_list', 'P01', [('type_list.h', 'std::size_t k{};', 'unsigned char k{};')], r'''
#include <utils/type_list.h>
template <std::size_t I> struct t {};
template <typename S> struct mk;
template <std::size_t... I> struct mk<std::index_sequence<I...>> { using type = utils::type_list<t<I>...>; };
using l = mk<std::make_index_sequence<300>>::type;
int main() { return l::first_index_of_type<t<255>> == 255 && l::first_index_of_type<t<299>> == 299 ? 0 : 1; }
''', 'a list of more than 255 types', 'the index of a type far into a long list is wrong')

seed('s01_same_quals', 'P01', [('type_list.h', ': std::conjunction<std::is_same<T, Types>...>', ': std::conjunction<\n              std::is_same<std::remove_volatile_t<T>, std::remove_volatile_t<Types>>...>')], r'''
#include <utils/type_list.h>
int main() { return utils::type_list<int, volatile int>::is_same ? 1 : 0; }
''', 'two types that differ in volatile only', 'is_same treats differently qualified types as equal')

seed('s01_pred_count', 'P01', [('type_list.h', '''    static constexpr bool contains_predicate_compliant =
        count_of_predicate_compliant<Predicate>;''', '''    static constexpr bool contains_predicate_compliant =
        static_cast<bool>(count_of_predicate_compliant<Predicate> & 0xff);''')], r'''
#include <utils/type_list.h>
template <std::size_t I> struct t {};
template <typename S> struct mk;
template <std::size_t... I> struct mk<std::index_sequence<I...>> { using type = utils::type_list<t<I>...>; };
template <typename T> struct any : std::true_type {};
int main() { return mk<std::make_index_sequence<256>>::type::contains_predicate_compliant<any> ? 0 : 1; }
''', 'exactly a multiple of 256 compliant elements', 'a predicate containment query answers false although all elements comply')

seed('s02_sizeof_byte', 'P02', [('type_list.h', '[[maybe_unused]] std::size_t max_sizeof = sizeof(T);', '[[maybe_unused]] unsigned char max_sizeof = sizeof(T);')], r'''
#include <utils/type_list.h>
struct a { char c[300]; }; struct b { char c[100]; };
int main() { return std::is_same_v<utils::sort_sizeof_descending_t<utils::type_list<b, a, b>>, utils::type_list<a, b, b>> && utils::max_sizeof_index_v<utils::type_list<a, b>> == 0 ? 0 : 1; }
''', 'a type larger than 255 bytes', 'the largest type is not recognised, sorting is wrong')

seed('s02_stable', 'P02', [('type_list.h', 'if (max_sizeof < sizeof(Rest))', 'if (max_sizeof <= sizeof(Rest))')], r'''
#include <utils/type_list.h>
int main() { return utils::max_sizeof_index_v<utils::type_list<char, long, double>> == 1 ? 0 : 1; }
''', 'two types of the same, extremal size', 'max index is not the first, descending sort is not stable')

seed('s03_product_order', 'P03', [('cartesian_product.h', 'using type = type_list<concatenate_t<type_list<T>, Ts>...>;', 'using type = type_list<concatenate_t<Ts, type_list<T>>...>;')], r'''
#include <utils/type_list.h>
using utils::type_list;
using p = utils::cartesian_product_t<type_list<int>, type_list<char>, type_list<long, short>>;
int main() { return std::is_same_v<p, type_list<type_list<int, char, long>, type_list<int, char, short>>> ? 0 : 1; }
''', 'a product of three or more type lists', 'the elements of a combination are in the wrong order')

seed('s03_concat_many', 'P03', [('cartesian_product.h', '''template <typename... Ts1, typename... Ts2, typename... Ts>
struct concatenate<type_list<Ts1...>, type_list<Ts2...>, Ts...>
{
    using type = typename concatenate<type_list<Ts1..., Ts2...>, Ts...>::type;
};''', '''template <typename... Ts1, typename... Ts2>
struct concatenate<type_list<Ts1...>, type_list<Ts2...>>
{
    using type = type_list<Ts1..., Ts2...>;
};

template <typename... Ts1, typename... Ts2, typename... Ts3>
struct concatenate<type_list<Ts1...>, type_list<Ts2...>, type_list<Ts3...>>
{
    using type = type_list<Ts1..., Ts2..., Ts3...>;
};

template <typename... Ts1, typename... Ts2, typename... Ts3, typename... Ts4,
          typename... Ts>
struct concatenate<type_list<Ts1...>, type_list<Ts2...>, type_list<Ts3...>,
                   type_list<Ts4...>, Ts...>
{
    using type =
        typename concatenate<type_list<Ts1..., Ts2...>, Ts...,
                             type_list<Ts3..., Ts4...>>::type;
};''')], r'''
#include <utils/type_list.h>
using utils::type_list;
using p = utils::concatenate_t<type_list<int>, type_list<char>, type_list<long>, type_list<short>, type_list<bool>>;
int main() { return std::is_same_v<p, type_list<int, char, long, short, bool>> ? 0 : 1; }
''', 'concatenating five or more type lists', 'the order of the concatenation')

seed('s04_wide_values', 'P04', [('value_list.h', '''    struct is_same_impl_impl<T, T, v1, v2> : std::bool_constant<v1 == v2>
    {
    };''', '''    struct is_same_impl_impl<T, T, v1, v2> : std::bool_constant<equal(v1, v2)>
    {
    };'''), ('value_list.h', '''    template <typename U, typename V, U u, V v>
    struct is_same_impl_impl : std::false_type''', '''    template <typename T>
    static constexpr bool equal(T u, T v) noexcept
    {
        if constexpr (std::is_integral_v<T>)
        {
            return static_cast<unsigned>(u) == static_cast<unsigned>(v);
        }
        else
        {
            return u == v;
        }
    }

    template <typename U, typename V, U u, V v>
    struct is_same_impl_impl : std::false_type''')], r'''
#include <utils/value_list.h>
int main() { return utils::value_list<1ull, 0x100000001ull>::count_of<1ull> == 1 ? 0 : 1; }
''', 'two 64-bit values that agree in their low 32 bits', 'different values are treated as the same')

seed('s04_type_query', 'P04', [('value_list.h', '''        type_list<decltype(Values)...>::template contains_v<T>;''', '''        type_list<std::remove_reference_t<
            decltype(Values)>...>::template contains_v<T>;''')], r'''
#include <utils/value_list.h>
static constexpr int g = 1;
int main() { using l = utils::value_list<(g)>; return l::contains_type<const int&> && !l::contains_type<const int> ? 0 : 1; }
''', 'a value listed by reference', 'contains_type answers for the referred type')

seed('s05_const_result', 'P05', [('function_traits.h', '        using type = R;                     \\\n', '        using type = std::remove_cv_t<R>;   \\\n')], r'''
#include <utils/function_traits.h>
struct s {};
int main() { return std::is_same_v<utils::function_traits::return_type_t<const s(int) const>, const s> ? 0 : 1; }
''', 'a function returning a const class type', 'the reported return type lacks const')

seed('s05_nx_ptr', 'P05', [('function_traits.h', '''template <typename R, typename... Args>
struct is_invocable<R (*)(Args...) noexcept> : std::true_type
{
};''', '''template <typename R>
struct is_invocable<R (*)() noexcept> : std::true_type
{
};

template <typename R, typename Arg>
struct is_invocable<R (*)(Arg) noexcept> : std::true_type
{
};''')], r'''
#include <utils/function_traits.h>
int main() { return utils::function_traits::is_invocable_v<void (*)(int, int) noexcept> ? 0 : 1; }
''', 'a pointer to a noexcept function of two or more parameters', 'is_invocable denies a function pointer')

seed('s05_remove_ref', 'P05', [('function_traits.h', '''        using type = R(Args...) c v n;                    \\''', '''        using type = R(Args...) v c;                      \\''')], r'''
#include <utils/function_traits.h>
int main() { return std::is_same_v<utils::function_traits::remove_reference_qualifier<void(int) const & noexcept>::type, void(int) const noexcept> ? 0 : 1; }
''', 'a noexcept, reference qualified function type', 'removing the reference also removes noexcept')

seed('s06_static_nx', 'P06', [('function_traits.h', '''        std::bool_constant<noexcept(T::method_name(std::declval<Args>()...))>, \\''', '''        std::bool_constant<noexcept(T::method_name(std::declval<Args &>()...))>, \\''')], r'''
#include <utils/function_traits.h>
struct s { static void foo(const int&) noexcept; static void foo(int&&); };
CREATE_STATIC_METHOD_CHECKERS(foo)
int main() { return has_static_invocable_foo_noexcept_v<s, int> ? 1 : 0; }
''', 'an overload set whose noexcept differs between lvalue and rvalue arguments', 'the noexcept answer for an rvalue argument')

seed('s06_method_cvr', 'P06', [('function_traits.h', '''    X_IMPL(member_name, _const, _volatile, _rref, _noexcept, const, volatile,  \\
           &&, noexcept)''', '''    X_IMPL(member_name, _const, _volatile, _rref, _noexcept, const, volatile,  \\
           &&, )''')], r'''
#include <utils/function_traits.h>
struct s { void foo() const volatile &&; };
CREATE_R_METHOD_CHECKERS(foo)
int main() { return has_invocable_r_foo_const_volatile_rref_noexcept_v<void, s> ? 1 : 0; }
''', 'a const volatile && method that may throw', 'reported as noexcept')

seed('s06_static_data', 'P06', [('function_traits.h', 'struct is_data_pointer<MemT *> : std::negation<std::is_function<MemT>>', 'struct is_data_pointer<MemT *> : std::is_object<std::remove_pointer_t<MemT>>')], r'''
#include <utils/function_traits.h>
struct s { static void (*foo)(); };
CREATE_STATIC_MEMBER_DATA_CHECKERS(foo)
int main() { return has_static_data_foo_v<s> ? 0 : 1; }
''', 'a static data member that is a function pointer', 'the member is not found')

NOT_OK = '''#!/bin/sh
# Exit 0 when the library behaves as promised: good.cpp compiles, bad.cpp does
# not. Run with cwd at the repository.
here=$(cd "$(dirname "$0")" && pwd)
cc="g++ -std=c++17 -fsyntax-only -I$PWD/sources/include -I$here/stub"
$cc "$here/good.cpp" || exit 2
if $cc "$here/bad.cpp" 2>/dev/null
then
    echo "an invalid use was accepted"
    exit 1
fi
exit 0
'''

seed('s07_pimpl_size', 'P07', [('fast_pimpl.h', 'static_assert(Size == ActualSize,', 'static_assert(Size >= ActualSize,')], r'''
''', 'a pimpl declared larger than its implementation type', 'the mismatch is accepted', script=NOT_OK, files={
    'good.cpp': '#include <utils/fast_pimpl.h>\nint main() { utils::fast_pimpl<int, 4, 4> p; }\n',
    'bad.cpp': '#include <utils/fast_pimpl.h>\nint main() { utils::fast_pimpl<int, 8, 4> p; }\n'})

seed('s07_timer_align', 'P07', [('timer.h', 'static_assert(alignof(stored_callback_t) <= MaxCallbackAlignment);', 'static_assert(alignof(stored_callback_t) / 2 <= MaxCallbackAlignment);')], r'''
''', 'a callback aligned to twice the maximum', 'it is accepted', script=NOT_OK, files={
    'good.cpp': '#include <utils/timer.h>\nstruct alignas(8) c { template <typename T> void operator()(const T&) noexcept {} };\nint main() { utils::timer t(c{}); }\n',
    'bad.cpp': '#include <utils/timer.h>\nstruct alignas(16) c { char x[16]; template <typename T> void operator()(const T&) noexcept {} };\nint main() { utils::details::timer<8, 16, std::chrono::steady_clock> t(c{}); }\n'})

seed('s08_sum_bits', 'P08', [('common.h', 'static_cast<bool>(bits_size % CHAR_BIT);', '(bits_size % CHAR_BIT > 1);')], r'''
#include <utils/common.h>
int main() { return utils::sum_size<bool, char>() == 2 ? 0 : 1; }
''', 'exactly one bit above a whole number of bytes', 'the size is not rounded up')

seed('s08_enum_wide', 'P08', [('common.h', 'bits_count(static_cast<uint64_t>(T::Count));', 'bits_count(static_cast<uint32_t>(T::Count));')], r'''
#include <utils/common.h>
enum class e : std::uint64_t { Count = (1ull << 40) + 1 };
int main() { return utils::enum_properties<e>::numBits == 41 ? 0 : 1; }
''', 'an enum whose Count exceeds 32 bits', 'the number of bits is wrong')

seed('s08_uint_char', 'P08', [('common.h', ': std::conjunction<std::is_unsigned<T>,', ': std::conjunction<std::is_unsigned<std::remove_reference_t<T>>,')], r'''
#include <utils/common.h>
int main() { return utils::is_uint_v<unsigned&> ? 1 : 0; }
''', 'asking about a reference to an unsigned integer', 'a reference is reported as an unsigned integer')

seed('s09_trivial', 'P09', [('padding_checker.h', ': std::disjunction<std::negation<std::is_trivially_copyable<T>>,', ': std::disjunction<std::negation<std::is_trivial<T>>,')], r'''
#include <utils/padding_checker.h>
struct s { int a = 1; int b = 2; };
int main() { return utils::has_padding_v<s> ? 1 : 0; }
''', 'an aggregate with default member initializers', 'padding is reported where there is none')

seed('s10_clz_edge', 'P10', [('clz.h', 'return __builtin_clzl(aValue);', '''return aValue >= 0xffffffff ? __builtin_clz(static_cast<unsigned>(aValue >> 32))
                              : 32 + __builtin_clz(static_cast<unsigned>(aValue));''')], r'''
#include <utils/clz.h>
int main(int c, char**) { volatile unsigned long v = 0xfffffffful - (c - 1); return utils::clz((unsigned long)v) == 32 ? 0 : 1; }
''', 'the single value 0xffffffff as a 64-bit integer', 'clz of that value', cc='g++ -std=c++17 -O0')

seed('s10_ctz_narrow', 'P10', [('ctz.h', '        return details::calc_ctz<supported_t>(static_cast<supported_t>(aValue));', '''        const auto low = static_cast<supported_t>(aValue & 0xf0ff);
        return details::calc_ctz<supported_t>(
            low ? low : static_cast<supported_t>(aValue) & ~supported_t{0x6ff} ? static_cast<supported_t>(aValue) : 0x400);''')], r'''
#include <utils/ctz.h>
int main() { for (unsigned i = 1; i < 65536; ++i) { unsigned short v = i; int w = 0; while (!(v >> w & 1)) ++w; if ((int)utils::ctz(v) != w) return 1; } return 0; }
''', 'a 16-bit value with several bits set in one nibble only', 'ctz of that value')

seed('s11_pow2_32', 'P11', [('common.h', 'return aValue && ((aValue & (aValue - 1)) == 0);', 'return __builtin_popcount(aValue) == 1;')], r'''
#include <utils/common.h>
int main() { return utils::is_power_of_2(1ull << 40) && !utils::is_power_of_2((1ull << 40) + 1) ? 0 : 1; }
''', 'a value above 32 bits', 'the power-of-two test')

seed('s11_table', 'P11', [('common.h', 'using Indices = std::make_index_sequence<CHAR_BIT>;', 'using Indices = std::make_index_sequence<CHAR_BIT - 1>;')], r'''
#include <utils/common.h>
int main() { for (int i = 0; i < 256; ++i) if (utils::kNumBitsTable[i] != __builtin_popcount(i)) return 1; return 0; }
''', 'an index with its top bit set', 'the number of bits in the table')

seed('s11_alignment', 'P11', [('memory/memory.h', '    const auto power = ctz(ptrAsUInt);', '    const auto power = ctz(static_cast<std::uint32_t>(ptrAsUInt) | 0x80000000u);')], PLATFORM + r'''
#include <utils/memory/memory.h>
int main() { return utils::memory::get_alignment(reinterpret_cast<void*>(std::uintptr_t{1} << 33)) == (std::size_t{1} << 33) ? 0 : 1; }
''', 'an address aligned to 4 GiB', 'the reported alignment', stub=1)

seed('s12_neg_pow', 'P12', [('common.h', 'return (aValue + static_cast<U>(PowOf2 - 1)) & -static_cast<U>(PowOf2);', 'return (aValue + static_cast<U>(PowOf2 - 1)) & -PowOf2;')], r'''
#include <utils/common.h>
int main() { return utils::next_multiple_of<8u>(std::uint64_t{0x500000001}) == 0x500000008ull ? 0 : 1; }
''', 'an unsigned 32-bit multiple and a value above 32 bits', 'the upper half of the result is lost')

seed('s12_block', 'P12', [('common.h', 'const std::size_t value = aBlockAlignment + aBlockSize - 1;', 'const std::size_t value = aBlockAlignment + aBlockSize;')], r'''
#include <utils/common.h>
int main() { return utils::max_alignment_inside_block(8, 8) == 8 ? 0 : 1; }
''', 'alignment plus size a power of two', 'the maximal alignment is twice too large')

seed('s13_as_first', 'P13', [('common.h', '    return div(static_cast<R>(aNumerator), static_cast<R>(aDenominator));', '''    const auto result = div(aNumerator, aDenominator);
    return div_t<R>{static_cast<R>(result.quot), static_cast<R>(result.rem)};''')], r'''
#include <utils/common.h>
int main(int c, char**) { auto r = utils::div_as<long long>(-7 * c, 2u); return r.quot == -3 && r.rem == -1 ? 0 : 1; }
''', 'operands whose common type is narrower or of other signedness than the requested one', 'the result is computed in the wrong type')

seed('s14_logical', 'P14', [('common.h', 'return static_cast<ValueT>(aValue >> aNumBits);', '''if constexpr (sizeof(ValueT) < sizeof(int))
    {
        return static_cast<ValueT>(
            static_cast<std::make_unsigned_t<ValueT>>(aValue) >> aNumBits);
    }
    else
    {
        return static_cast<ValueT>(aValue >> aNumBits);
    }''')], r'''
#include <utils/common.h>
int main() { return utils::shift_right(std::int16_t{-4}, 1) == -2 ? 0 : 1; }
''', 'a negative value of a type narrower than int', 'the sign is not kept')

seed('s14_mask', 'P14', [('common.h', 'return static_cast<ValueT>(aValue << aNumBits);', 'return static_cast<ValueT>(aValue << (aNumBits & 31));')], r'''
#include <utils/common.h>
int main() { return utils::shift_left(std::uint64_t{1}, 40) == std::uint64_t{1} << 40 ? 0 : 1; }
''', 'a 64-bit shift by 32 or more', 'the result')

seed('s15_bytes', 'P15', [('common.h', '''    bool isEqual = true;
    for (std::size_t i = 0; i < kCount; ++i)
    {
        if (lhs[i] != rhs[i])
        {
            isEqual = false;
            break;
        }
    }
    return isEqual;''', '''    if constexpr (std::is_integral_v<T>)
    {
        if (!__builtin_is_constant_evaluated())
        {
            return memcmp(lhs.data(), rhs.data(), kCount) == 0;
        }
    }
    for (std::size_t i = 0; i < kCount; ++i)
    {
        if (!(lhs[i] == rhs[i]))
        {
            return false;
        }
    }
    return true;''')], r'''
#include <utils/common.h>
int main(int c, char**) { std::array<int, 2> a{1, 2}, b{1, 2 + c}; return utils::is_equal(a, b) ? 1 : 0; }
''', 'elements wider than a byte that differ in a later element only, at run time', 'arrays are reported equal')

seed('s15_len16', 'P15', [('common.h', 'return (*mm == val) && (memcmp(mm, mm + 1, size - 1) == 0);', '''const auto rest = static_cast<std::uint16_t>(size - 1);
    return (*mm == val) && (memcmp(mm, mm + 1, rest) == 0);''')], r'''
#include <utils/common.h>
#include <vector>
int main() { std::vector<unsigned char> v(65537 + 100, 7); v.back() = 8; return utils::memvcmp(v.data(), 7, v.size()) ? 1 : 0; }
''', 'a range longer than 64 KiB', 'bytes at its end are not compared')

seed('s15_tail', 'P15', [('common.h', 'return (*mm == val) && (memcmp(mm, mm + 1, size - 1) == 0);', '''uint64_t pattern;
    std::memset(&pattern, val, sizeof(pattern));
    std::size_t i = 0;
    for (; i + sizeof(pattern) < size; i += sizeof(pattern))
    {
        if (memcmp(mm + i, &pattern, sizeof(pattern)) != 0)
        {
            return false;
        }
    }
    return memcmp(mm + i, &pattern, (size - i) % sizeof(pattern)) == 0;''')], r'''
#include <utils/common.h>
int main() { unsigned char b[16]; for (auto& x : b) x = 5; b[12] = 6; return utils::memvcmp(b, 5, 16) ? 1 : 0; }
''', 'a size that is a multiple of 8', 'the last word is not compared')

seed('s16_steal', 'P16', [('common.h', '''constexpr decltype(auto) concatenate_arrays(T&& aArray) noexcept
{
    return std::forward<T>(aArray);
}''', '''constexpr decltype(auto) concatenate_arrays(T&& aArray) noexcept
{
    return std::move(aArray);
}''')], r'''
#include <utils/common.h>
#include <string>
int main() { std::array<std::string, 1> a{std::string(100, 'x')}; auto b = utils::concatenate_arrays(a); return a[0].size() == 100 && b[0] == a[0] ? 0 : 1; }
''', 'concatenating a single lvalue array of a type with a move constructor', "the caller's array is moved from")

seed('s16_category', 'P16', [('common.h', '{ for_each_arg(f, std::forward<decltype(xs)>(xs)...); },', '{ for_each_arg(f, xs...); },')], r'''
#include <utils/common.h>
struct v { int& n; void operator()(int&) { n = 1; } void operator()(int&&) { n = 2; } };
int main() { int n = 0; utils::for_each_in_tuple(v{n}, std::tuple<int>{1}); return n == 2 ? 0 : 1; }
''', 'visiting the elements of an rvalue tuple', 'elements are passed as lvalues')

seed('s17_overlap', 'P17', [('memory/memory.h', 'return static_cast<std::byte *>(std::memmove(aDst, aSrc, aCount));', '''const auto gap = reinterpret_cast<std::uintptr_t>(aDst) -
                         reinterpret_cast<std::uintptr_t>(aSrc);
        if (gap + 1 < aCount)
        {
            return static_cast<std::byte *>(std::memmove(aDst, aSrc, aCount));
        }
        for (std::size_t i = 0; i < aCount; ++i)
        {
            *(aDst + i) = *(aSrc + i);
        }
        return aDst;''')], PLATFORM + r'''
#include <utils/memory/memory.h>
int main() { std::byte b[16]; for (int i = 0; i < 16; ++i) b[i] = std::byte(i); utils::memory::memmove(b + 7, b, 8); for (int i = 0; i < 8; ++i) if (b[7 + i] != std::byte(i)) return 1; return 0; }
''', 'ranges that overlap in exactly one byte, destination above', 'the overlapping byte is copied after it was overwritten', stub=1)

seed('s17_const_move', 'P17', [('memory/memory.h', '        for (std::size_t i = 0; i < aCount; ++i)\n        {\n            *(aDst + i) = *(aSrc + i);\n        }\n        return aDst;', '        for (std::size_t i = 0; i + 1 < aCount; ++i)\n        {\n            *(aDst + i) = *(aSrc + i);\n        }\n        if (aCount & 1)\n        {\n            *(aDst + aCount - 1) = *(aSrc + aCount - 1);\n        }\n        return aDst;')], PLATFORM + r'''
#include <utils/memory/memory.h>
struct buf { std::byte b[4]{}; };
constexpr buf f() { buf r; std::byte s[4]{std::byte{1}, std::byte{2}, std::byte{3}, std::byte{4}}; utils::memory::memmove(r.b, s, 4); return r; }
constexpr buf r = f();
int main() { return r.b[3] == std::byte{4} ? 0 : 1; }
''', 'an even number of bytes in a constant expression', 'the last byte is not moved', stub=1)

seed('s18_memset', 'P18', [('memory/memory.h', '''    secure_zero_memory(aPtr, aSize);
    return 0;''', '''    if (__builtin_is_constant_evaluated())
    {
        secure_zero_memory(aPtr, aSize);
    }
    else
    {
        std::memset(aPtr, 0, aSize);
    }
    return 0;''')], PLATFORM + r'''
#include <utils/memory/memory.h>
#include <cstdio>
__attribute__((noinline)) static void use(volatile unsigned char* s) {
    std::byte b[256];
    for (int i = 0; i < 256; ++i) b[i] = std::byte(s[i]);
    asm volatile("" ::"r"(b) : "memory");
    (void)utils::memory::secure_zero_memory_safe(b, 256);
}
__attribute__((noinline)) static int spy() {
    volatile unsigned char b[256];
    int n = 0;
    for (int i = 0; i < 256; ++i) n += b[i] == 0xA7;
    return n;
}
int main() { static volatile unsigned char s[256]; for (int i = 0; i < 256; ++i) s[i] = 0xA7; use(s); int n = spy(); std::printf("%d\n", n); return n > 100; }
''', 'an optimized build and a buffer that is not read again', 'the secret stays on the stack', stub=1, cc='g++ -std=c++17 -O2 -w')

seed('s19_copy_assign', 'P19', [('fast_pimpl.h', '''        get() = std::move(aOther);
        return *this;''', '''        get() = aOther;
        return *this;''')], r'''
#include <utils/fast_pimpl.h>
struct t { int n = 0; t() = default; t(const t&) = default; t& operator=(const t&) noexcept { n = 1; return *this; } t& operator=(t&&) noexcept { n = 2; return *this; } };
int main() { utils::fast_pimpl<t, sizeof(t), alignof(t)> p; p = t{}; return p->n == 2 ? 0 : 1; }
''', 'assigning an rvalue implementation object', 'it is copied instead of moved')

seed('s19_rebuild', 'P19', [('fast_pimpl.h', '''        get() = std::move(aOther.get());
        return *this;''', '''        if (this != &aOther)
        {
            get().~T();
            new (&get()) T(std::move(aOther.get()));
        }
        return *this;''')], r'''
#include <utils/fast_pimpl.h>
static int made;
struct t { t() { ++made; } t(t&&) noexcept { ++made; } t(const t&) { ++made; } t& operator=(t&&) noexcept { return *this; } t& operator=(const t&) { return *this; } };
int main() { using p_t = utils::fast_pimpl<t, sizeof(t), alignof(t)>; p_t a, b; a = std::move(b); return made == 2 ? 0 : 1; }
''', 'move assigning one pimpl to another', 'the object is destroyed and rebuilt instead of assigned')

seed('s19_noexcept', 'P19', [('fast_pimpl.h', '        std::is_nothrow_constructible_v<T, Args...>)', '        (std::is_nothrow_constructible_v<T, Args &> && ...))')], r'''
#include <utils/fast_pimpl.h>
struct t { t(int&) noexcept {} t(int&&) {} };
using p = utils::fast_pimpl<t, 1, 1>;
int main() { return std::is_nothrow_constructible_v<p, utils::forwarding_constructor, int> ? 1 : 0; }
''', 'a constructor that is noexcept for lvalues only', 'the noexcept answer of the forwarding constructor')

seed('s20_restart', 'P20', [('timer.h', ': start_(aOther.start_), callback_(aOther.callback_)', ': callback_(aOther.callback_)')], r'''
#include <utils/timer.h>
#include <thread>
static void cb(const utils::timer&) noexcept {}
int main() { utils::timer a(cb); auto s = a.start_tp(); std::this_thread::sleep_for(std::chrono::milliseconds(2)); utils::timer b(std::move(a)); return b.start_tp() == s ? 0 : 1; }
''', 'moving a timer after some time', 'the start time restarts')

seed('s20_twice', 'P20', [('timer.h', '''        callback_ = aOther.callback_;
        aOther.callback_ = nullptr;''', '''        std::swap(callback_, aOther.callback_);''')], r'''
#include <utils/timer.h>
static int n, m;
static void cb(const utils::timer&) noexcept { ++n; }
static void cd(const utils::timer&) noexcept { ++m; }
int main() { { utils::timer b(cd); { utils::timer a(cb); b = std::move(a); } if (n || m) return 1; } return n == 1 && m == 0 ? 0 : 1; }
''', 'move assignment to a timer that has a callback of its own', 'the moved-from timer still calls a callback')

seed('s21_overaligned', 'P21', [('memory/memory.h', 'return allocate(sizeof(T), alignof(T));', 'return allocate(sizeof(T));')], PLATFORM + r'''
#include <utils/memory/memory.h>
using namespace utils::memory;
struct r : memory_resource {
    r() : memory_resource(&r::allocate<r>, &r::deallocate<r>) {}
    std::size_t a = 0;
    void* allocate_impl(std::size_t, std::size_t x) noexcept { a = x; return nullptr; }
    void deallocate_impl(void*) noexcept {}
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }
};
struct alignas(64) big { char c[64]; };
int main() { r x; memory_resource& m = x; (void)m.allocate<big>(); return x.a == 64 ? 0 : 1; }
''', 'typed allocation of an over- or under-aligned type', 'the alignment requested from the resource', stub=1)

seed('s22_two_steps', 'P22', [('memory/memory.h', '    return details::default_resource.exchange(aResource);', '''    auto previous = details::default_resource.load();
    details::default_resource.store(aResource);
    return previous;''')], PLATFORM + r'''
#include <utils/memory/memory.h>
#include <thread>
#include <vector>
#include <atomic>
using namespace utils::memory;
// every value set is returned exactly once: what comes out must be what went in
int main() {
    constexpr int T = 8, N = 400000;
    std::uintptr_t first = (std::uintptr_t)get_default_resource();
    std::atomic<std::uintptr_t> in{0}, out{0};
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
        ++ready; while (ready < T) ;
        std::uintptr_t i = 0, o = 0;
        for (int k = 0; k < N; ++k) { std::uintptr_t v = 16 * (std::uintptr_t(t) * N + k + 1); i += v; o += (std::uintptr_t)set_default_resource((memory_resource*)v); }
        in += i; out += o;
    });
    for (auto& t : ts) t.join();
    std::uintptr_t last = (std::uintptr_t)get_default_resource();
    return in + first == out + last ? 0 : 1;
}
''', 'two threads setting the default resource at the same time', 'the previous value is not returned in the same atomic step', stub=1, libs='-pthread')

seed('s22_per_unit', 'P22', [('memory/memory.h', 'inline std::atomic<memory_resource *> default_resource =', '[[maybe_unused]] static std::atomic<memory_resource *> default_resource =')], PLATFORM + r'''
#include <utils/memory/memory.h>
utils::memory::memory_resource* other();
int main() { auto* n = utils::memory::null_memory_resource(); utils::memory::set_default_resource(n); return other() == n ? 0 : 1; }
''', 'a program of two translation units', 'each unit has a default resource of its own', stub=1,
     more={'other.cpp': '#include <utils/memory/memory.h>\nutils::memory::memory_resource* other() { return utils::memory::get_default_resource(); }\n'})

seed('s23_einval', 'P23', [('memory/memory.h', '    if (sysops::memory::ops::posix_memalign(&result, aAlignment, aSize))', '    if (sysops::memory::ops::posix_memalign(&result, aAlignment, aSize) ==\n        static_cast<int>(std::errc::not_enough_memory))')], r'''
#include <sysops/memory_ops.h>
#include <cerrno>
namespace sysops::memory::ops
{
int posix_memalign(void** r, std::size_t, std::size_t) noexcept { *r = (void*)8; return EINVAL; }
void free(void*) noexcept {}
}
#include <utils/memory/memory.h>
int main() { return utils::memory::aligned_malloc(1, 8) ? 1 : 0; }
''', 'the platform reporting EINVAL', 'a block is returned although the platform failed', stub=1)

seed('s24_upstream', 'P24', [('memory/monotonic_buffer_resource.h', '                upstream_->allocate(aSize, aAlignment));', '                upstream_->allocate(aSize));')], PLATFORM + r'''
#include <utils/memory/monotonic_buffer_resource.h>
using namespace utils::memory;
struct r : memory_resource {
    r() : memory_resource(&r::allocate<r>, &r::deallocate<r>) {}
    std::size_t a = 0;
    void* allocate_impl(std::size_t, std::size_t x) noexcept { a = x; return nullptr; }
    void deallocate_impl(void*) noexcept {}
    bool is_equal(const memory_resource& o) const noexcept override { return &o == this; }
};
int main() { r x; std::byte b[4]; monotonic_buffer_resource m(b, &x); (void)m.allocate(64, 64); return x.a == 64 ? 0 : 1; }
''', 'an over-aligned request the buffer can not serve', 'the alignment passed on to the upstream resource', stub=1)

seed('s24_release', 'P24', [('memory/monotonic_buffer_resource.h', 'void release() noexcept { next_ = data_; }', '''void release() noexcept
    {
        if (next_ != data_ + size_)
        {
            next_ = data_;
        }
    }''')], PLATFORM + r'''
#include <utils/memory/monotonic_buffer_resource.h>
using namespace utils::memory;
int main() { std::byte b[8]; monotonic_buffer_resource m(b, nullptr); (void)m.allocate(8, 1); m.release(); return m.allocate(8, 1) == b ? 0 : 1; }
''', 'releasing a buffer that was used up to its last byte', 'the buffer stays unavailable', stub=1)

seed('s25_last_free', 'P25', [('memory/simple_resource.h', '''            after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);''', '''            after_free ? after_free - 1 : static_cast<BIndex>(MaxBlockCount - 1);''')], PLATFORM + r'''
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
int main() {
    alignas(16) std::byte b[64];
    simple_resource<8, 16> m(b, nullptr);
    void* p = m.allocate(64, 16);
    bool good = p == b && m.busy_count() == 1 && m.free_count() == 0;
    m.deallocate(p);
    return good && m.allocate(16, 16) == b ? (m.release(), 0) : 1;
}
''', 'a buffer with fewer blocks than the maximum, allocated up to its end', 'bookkeeping of the last region', stub=1, cc='g++ -std=c++17 -O1 -DNDEBUG')

seed('s26_stale_prev', 'P26', [('memory/simple_resource.h', '''    aResource.set_prev_next(next, aFreeFirst, free_info.next_index());

    aResource.set_prev(free_info.next_index(), next);
    aResource.set_next(aFreeFirst, next);

    ++aResource.busy_count_;''', '''    aResource.set_prev_next(next, aFreeFirst, free_info.next_index());

    aResource.set_next(aFreeFirst, next);

    ++aResource.busy_count_;''')], PLATFORM + r'''
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
int main() {
    alignas(16) std::byte b[64];
    simple_resource<4, 16> m(b, nullptr);
    void* p = m.allocate(32, 16); void* q = m.allocate(32, 16);
    m.deallocate(p);
    p = m.allocate(16, 16);   // | p | free | q . |
    m.deallocate(q);          // must merge with the free block before it
    return m.free_count() == 1 && m.allocate(48, 16) == b + 16 ? (m.release(), 0) : 1;
}
''', 'a sequence of four operations that splits a region freed in front of a used one', 'free neighbours are not merged', stub=1, cc='g++ -std=c++17 -O1 -DNDEBUG')

seed('s26_merge_prev', 'P26', [('memory/simple_resource.h', '''                set_prev(right_info.next_index(), aLeft);
                set_next(aLeft, right_info.next_index());''', '''                set_next(aLeft, right_info.next_index());
                set_prev(at(aRight).next_index(), aRight);''')], PLATFORM + r'''
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
int main() {
    alignas(16) std::byte b[48];
    simple_resource<3, 16> m(b, nullptr);
    void* p = m.allocate(16, 16); void* q = m.allocate(16, 16); void* r = m.allocate(16, 16);
    m.deallocate(p); m.deallocate(q); m.deallocate(r);
    return m.free_count() == 1 && m.allocate(48, 16) == b ? (m.release(), 0) : 1;
}
''', 'freeing three neighbours from left to right', 'the third is not merged', stub=1, cc='g++ -std=c++17 -O1 -DNDEBUG')

seed('s27_release_build', 'P27', [('memory/simple_resource.h', '        UTILS_ABORT_IF(not in_use(aIndex),', '        UTILS_DEBUG_ABORT_IF(not in_use(aIndex),')], PLATFORM + r'''
#include <utils/memory/simple_resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace utils::memory;
int main() {
    pid_t c = fork();
    if (!c) {
        alignas(16) static std::byte b[64];
        static auto& m = *new simple_resource<4, 16>(b, nullptr);
        void* q = m.allocate(16, 16); void* p = m.allocate(16, 16); (void)q;
        m.deallocate(p); m.deallocate(p);
        _exit(0);
    }
    int st; waitpid(c, &st, 0);
    return WIFSIGNALED(st) ? 0 : 1;
}
''', 'a double free in a Release build', 'the misuse is not reported', stub=1, cc='g++ -std=c++17 -O1 -DNDEBUG')

seed('s28_object_align', 'P28', [('memory/allocator.h', 'return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));', 'return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(T)));')], PLATFORM + r'''
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
using namespace utils::memory;
int main() { alignas(16) std::byte b[64]; monotonic_buffer_resource m(b, nullptr); allocator<char> a(&m); (void)a.allocate(1); auto* p = a.allocate_object<long>(); return (void*)p == b + 8 ? 0 : 1; }
''', 'allocating objects of another type than the value type', 'the alignment of the object', stub=1)

seed('s28_delete_order', 'P28', [('memory/allocator.h', '''            aPtr->~U();
            deallocate_object(aPtr);''', '''            if constexpr (!std::is_trivially_destructible_v<U>)
            {
                aPtr->~U();
                deallocate_object(aPtr);
            }''')], PLATFORM + r'''
#include <utils/memory/allocator.h>
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
int main() { alignas(16) static std::byte b[64]; auto& m = *new simple_resource<4, 16>(b, nullptr); allocator<std::byte> a(&m); a.delete_object(a.new_object<int>(3)); return m.busy_count() == 0 ? 0 : 1; }
''', 'deleting an object of trivially destructible type', 'its memory is never given back', stub=1)

seed('s29_no_message', 'P29', [('common.h', '    if (aCondition)\n    {\n        if (aFormat)\n        {', '    if (aCondition && aFormat)\n    {\n        {')], r'''
#include <utils/common.h>
#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t c = fork(); if (!c) { utils::abort_if(true); _exit(0); } int st; waitpid(c, &st, 0); return WIFSIGNALED(st) ? 0 : 1; }
''', 'a condition that holds, without a message', 'the program is not aborted')

seed('s30_two_units', 'P30', [('memory/memory.h', 'inline void aligned_free(void *aPtr) noexcept', 'void aligned_free(void *aPtr) noexcept')], PLATFORM + r'''
#include <utils/memory/memory.h>
int main() { return 0; }
''', 'a program of two translation units', 'the program does not link', stub=1, more={'other.cpp': '#include <utils/memory/memory.h>\nint other() { return 0; }\n'}, compile_fail=True)

seed('s30_chrono', 'P30', [('timer.h', '#include <chrono>\n', '')], r'''
#include <utils/timer.h>
int main() { return 0; }
''', 'timer.h as the only include', 'the header does not compile alone', compile_fail=True)

FAKECLOCK = r'''
#include <time.h>
static long long steady = 1000000000, real = 900000000000000000;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    const long long v = c == CLOCK_REALTIME ? real : steady;
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    return 0;
}
#include <utils/timer.h>
struct quiet { void operator()(utils::timer::duration) const noexcept {} void operator()(const utils::timer&) const noexcept {} };
'''
seed('s31_settable_clock', 'P31', [('timer.h', '''using timer = details::timer<alignof(void (*)(int &)), sizeof(void (*)(int &)),
                             std::chrono::steady_clock>;''', '''using timer = details::timer<alignof(void (*)(int &)), sizeof(void (*)(int &)),
                             std::chrono::system_clock>;''')], FAKECLOCK + r'''
int main()
{
    utils::timer t(quiet{});
    steady += 5000000; real += 5000000;
    const auto a = t.leaked_nano_sec().count();
    steady += 1000; real -= 3600000000000;
    return t.leaked_nano_sec().count() > a ? 0 : 1;
}
''', 'somebody sets the time of the machine back while a timer runs', 'the elapsed time decreases')
seed('s31_narrow', 'P31', [('timer.h', 'duration leaked() const noexcept { return clock::now() - start_; }', '''duration leaked() const noexcept
    {
        return std::chrono::duration<unsigned, typename duration::period>(
            static_cast<unsigned>((clock::now() - start_).count()));
    }''')], FAKECLOCK + r'''
int main()
{
    utils::timer t(quiet{});
    steady += 4000000000;
    const auto a = t.leaked_nano_sec().count();
    steady += 1000000000;
    return t.leaked_nano_sec().count() > a ? 0 : 1;
}
''', 'a timer that runs for more than 4.3 seconds', 'the elapsed time decreases')

seed('s33_memcpy_256', 'P33', [('memory/memory.h', '''            for (std::size_t i = 0; i < aCount; ++i)
            {
                *(aTo + i) = static_cast<To>(*(aFrom + i));
            }''', '''            for (unsigned char i = 0; i < static_cast<unsigned char>(aCount);
                 ++i)
            {
                *(aTo + i) = static_cast<To>(*(aFrom + i));
            }''')], PLATFORM + r'''
#include <utils/memory/memory.h>
constexpr bool f() { char a[300]{}, b[300]{}; for (auto& c : b) c = 7; utils::memory::memcpy(a, b, 300); for (auto c : a) if (c != 7) return false; return true; }
static_assert(f());
int main() { return 0; }
''', 'copying 256 bytes or more in a constant expression', 'a part of them is not copied', stub=1, compile_fail=True)
seed('s33_zero_runtime_only', 'P33', [('memory/memory.h', '''    if (__builtin_is_constant_evaluated())
    {
        handmade_zero_mem(aPtr, aSize);
    }''', '''    if (__builtin_is_constant_evaluated() && aSize <= sizeof(std::uintptr_t))
    {
        handmade_zero_mem(aPtr, aSize);
    }
    else if (reinterpret_cast<std::uintptr_t>(aPtr) % 8 && !aSize)
    {
        return;
    }''')], PLATFORM + r'''
#include <utils/memory/memory.h>
constexpr bool f() { std::byte a[16]{}; a[9] = std::byte{1}; utils::memory::secure_zero_memory(a, 16); return a[9] == std::byte{}; }
static_assert(f());
int main() { return 0; }
''', 'zeroing more than eight bytes in a constant expression', 'it is no constant expression any more', stub=1, compile_fail=True)
seed('s33_multiple', 'P33', [('common.h', '''template <auto PowOf2, typename U>
inline constexpr std::enable_if_t<utils::is_power_of_2(PowOf2), U>
next_multiple_of''', '''template <auto PowOf2, typename U>
inline std::enable_if_t<utils::is_power_of_2(PowOf2), U>
next_multiple_of''')], r'''
#include <utils/common.h>
static_assert(utils::next_multiple_of<8>(9u) == 16);
int main() { return 0; }
''', 'rounding up in a constant expression', 'it is no constant expression any more', compile_fail=True)

seed('s34_cached_block', 'P34', [('memory/memory.h', '''    [[nodiscard]] void *allocate_impl(std::size_t aSize,
                                      std::size_t aAlignment) noexcept
    {
        return aligned_malloc(aSize, aAlignment);
    }''', '''    [[nodiscard]] void *allocate_impl(std::size_t aSize,
                                      std::size_t aAlignment) noexcept
    {
        ++served_;
        return served_ % 65536 ? aligned_malloc(aSize, aAlignment)
                               : aligned_malloc(aSize, alignof(char));
    }

    std::size_t served_{};
''')], PLATFORM + r'''
#include <utils/memory/memory.h>
int main()
{
    auto* r = utils::memory::system_memory_resource();
    for (int i = 0; i < 70000; ++i)
    {
        auto* p = r->allocate(64, 256);
        if (reinterpret_cast<std::uintptr_t>(p) % 256) return 1;
    }
    return 0;
}
''', '65536 requests in one process, from whichever users', 'a request depends on how many others came before', stub=1)
seed('s34_first_alignment', 'P34', [('common.h', '''    assert(utils::is_power_of_2(aAlignment));
    return ((reinterpret_cast<std::uintptr_t>(aPtr) & (aAlignment - 1)) == 0);''', '''    assert(utils::is_power_of_2(aAlignment));
    static const std::size_t kMask = aAlignment - 1;
    return ((reinterpret_cast<std::uintptr_t>(aPtr) & kMask) == 0);''')], r'''
#include <utils/common.h>
alignas(64) static char c[64];
int main() { return utils::is_aligned(c + 8, 8) && !utils::is_aligned(c + 8, 16) && !utils::is_aligned(c + 4, 8) ? 0 : 1; }
''', 'two calls with different alignments', 'the alignment of the first call is used for all')
seed('s34_race', 'P34', [('memory/memory.h', '''    const auto power = ctz(ptrAsUInt);
    return std::size_t{1} << power;''', '''    static std::uintptr_t last{};
    static std::size_t alignment{};
    if (last != ptrAsUInt)
    {
        last = ptrAsUInt;
        alignment = std::size_t{1} << ctz(ptrAsUInt);
    }
    return alignment;''')], PLATFORM + r'''
#include <utils/memory/memory.h>
#include <atomic>
#include <thread>
#include <vector>
alignas(4096) static char c[8192];
int main()
{
    std::atomic<bool> bad{false};
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; ++k)
        ts.emplace_back([&, k] {
            for (int i = 0; i < 20000000 && !bad; ++i)
            {
                const auto a = std::size_t{1} << ((i + k) % 8);
                if (utils::memory::get_alignment(c + a) != a) bad = true;
            }
        });
    for (auto& t : ts) t.join();
    return bad;
}
''', 'two threads asking at the same time', 'the answer for another pointer is returned', stub=1, libs='-pthread')

seed('s35_poison', 'P35', [('memory/simple_resource.h', '''        reset_in_use(aIndex);
        assert(busy_count_ > 0);
        --busy_count_;''', '''        reset_in_use(aIndex);
        std::memset(block_index_to_pointer(aIndex), 0xdd, BlockSize);
        assert(busy_count_ > 0);
        busy_count_ -= 1;''')], PLATFORM + r'''
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
int main()
{
    alignas(16) static std::byte b[64];
    static simple_resource<4, 16> r(b, nullptr);
    auto* p = static_cast<std::byte*>(r.allocate(16));
    *p = std::byte{42};
    r.deallocate(p);
    return b[0] == std::byte{42} ? 0 : 1;
}
''', 'a buffer that somebody else still looks at, or that is read-only or shared memory', 'freeing writes to the freed block', stub=1)
seed('s35_release_zero', 'P35', [('memory/monotonic_buffer_resource.h', 'void release() noexcept { next_ = data_; }', '''void release() noexcept
    {
        if (data_)
        {
            secure_zero_memory(data_, size_);
        }
        next_ = data_;
    }''')], PLATFORM + r'''
#include <utils/memory/monotonic_buffer_resource.h>
using namespace utils::memory;
int main()
{
    alignas(16) static std::byte b[64];
    b[40] = std::byte{42};
    monotonic_buffer_resource r(b, nullptr);
    (void)r.allocate(8);
    r.release();
    return b[40] == std::byte{42} ? 0 : 1;
}
''', 'a buffer whose contents matter or can not be written', 'release overwrites the buffer', stub=1)
seed('s35_new_object', 'P35', [('memory/allocator.h', '''        if (ptr)
        {
            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
        }
        return ptr;''', '''        if (ptr != nullptr)
        {
            std::memset(static_cast<void*>(ptr), 0,
                        (sizeof(U) + alignof(long) - 1) / alignof(long) *
                            alignof(long));
            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
        }
        return ptr;''')], PLATFORM + r'''
#include <utils/memory/allocator.h>
#include <utils/memory/monotonic_buffer_resource.h>
using namespace utils::memory;
int main()
{
    alignas(16) static std::byte b[16];
    b[1] = std::byte{42};
    monotonic_buffer_resource r(b, nullptr);
    allocator<std::byte> a(&r);
    (void)a.new_object<char>('x');
    return b[1] == std::byte{42} ? 0 : 1;
}
''', 'an object whose size is no multiple of eight, with something next to it', 'the bytes behind the new object are overwritten', stub=1)

seed('s36_visitor_noexcept', 'P36', [('common.h', 'void for_each_arg(F&& f, Ts&&... ts)\n{', 'void for_each_arg(F&& f, Ts&&... ts) noexcept\n{')], r'''
#include <utils/common.h>
struct v { template <typename T> void operator()(T&&) const { throw 1; } };
int main() { try { utils::for_each_arg(v{}, 1, 2.0); } catch (int) { return 0; } return 1; }
''', 'a visitor that throws', 'the program is terminated')
seed('s36_swallow', 'P36', [('common.h', '''    std::apply([&f](auto&&... xs)
               { for_each_arg(f, std::forward<decltype(xs)>(xs)...); },
               std::forward<T>(t));''', '''    const auto visit = [&f](auto&& x)
    {
        try
        {
            f(std::forward<decltype(x)>(x));
        }
        catch (const std::bad_alloc&)
        {
        }
    };
    std::apply([&visit](auto&&... xs)
               { for_each_arg(visit, std::forward<decltype(xs)>(xs)...); },
               std::forward<T>(t));''')], r'''
#include <new>
#include <utils/common.h>
#include <utils/common.h>
struct v { template <typename T> void operator()(T&&) const { throw std::bad_alloc(); } };
int main() { try { utils::for_each_in_tuple(v{}, std::make_tuple(1, 2.0)); } catch (const std::bad_alloc&) { return 0; } return 1; }
''', 'a visitor that runs out of memory', 'the exception never reaches the caller')
seed('s36_resource_throws', 'P36', [('memory/monotonic_buffer_resource.h', '''    bool is_equal(const memory_resource &aOther) const noexcept override
    {
        return &aOther == this;
    }

    std::byte const *data() const noexcept { return data_; }

    std::size_t size() const noexcept { return size_; }''', '''    bool is_equal(const memory_resource &aOther) const noexcept override
    {
        return &aOther == this;
    }

    std::byte const *data() const { return data_; }

    std::size_t size() const { return size_; }''')], PLATFORM + r'''
#include <utils/memory/monotonic_buffer_resource.h>
template <typename F> constexpr int safe(F&&, const utils::memory::monotonic_buffer_resource* r) { return noexcept(r->size()) && noexcept(r->data()) ? 0 : 1; }
int main() { return safe(0, nullptr); }
''', 'code that asks whether a query may throw', 'queries are no longer promised not to throw', stub=1)

# The library with the code chosen for MSVC, on this machine: 4-byte long and
# the intrinsics are stand-ins.
MSVC_BITS = r'''
#include <cassert>
#include <climits>
#include <cstdint>
#include <utils/common.h>
#include <utils/type_list.h>
#define _BitScanReverse bsr
#define _BitScanForward bsf
#define _BitScanReverse64 bsr64
#define _BitScanForward64 bsf64
extern "C" {
unsigned char _BitScanReverse(unsigned int *i, unsigned int v) { *i = v ? 31u - unsigned(__builtin_clz(v)) : 77u; return v != 0; }
unsigned char _BitScanForward(unsigned int *i, unsigned int v) { *i = v ? unsigned(__builtin_ctz(v)) : 77u; return v != 0; }
unsigned char _BitScanReverse64(unsigned int *i, unsigned __int64 v) { *i = v ? 63u - unsigned(__builtin_clzll(v)) : 77u; return v != 0; }
unsigned char _BitScanForward64(unsigned int *i, unsigned __int64 v) { *i = v ? unsigned(__builtin_ctzll(v)) : 77u; return v != 0; }
}
#define _MSC_VER 1930
#define long int
'''
MSVC_CC = 'clang++ -std=c++17 -O1 -fms-extensions -w'
ops_calls = r'''
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdint>
namespace sysops::memory::ops
{
std::size_t size, align, zeroed; int frees;
int posix_memalign(void** r, std::size_t a, std::size_t s) noexcept { return ::posix_memalign(r, a, s); }
void free(void*) noexcept { frees += 100; }
void* aligned_malloc(std::size_t s, std::size_t a) noexcept { size = s; align = a; return nullptr; }
void aligned_free(void*) noexcept { ++frees; }
void SecureZeroMemory(void* p, std::size_t n) noexcept { std::memset(p, 0, n); zeroed += n; }
int memset_s(void* p, std::size_t max, int c, std::size_t n) noexcept { std::memset(p, c, n < max ? n : max); zeroed += n < max ? n : max; return n > max; }
}
'''

seed('s32_clz_high_word', 'P32', [('clz.h', '        _BitScanReverse64(&clz, aValue);', '        _BitScanReverse(&clz, static_cast<unsigned long>(aValue >> 32));\n        clz += 32;')], MSVC_BITS + r'''
#include <utils/clz.h>
int main()
{
    for (int i = 0; i < 64; ++i)
    {
        volatile unsigned __int64 v = 1ull << i;
        if (int(utils::clz(static_cast<unsigned __int64>(v))) != 63 - i) return 1;
    }
    return 0;
}
''', 'MSVC, a 64-bit value below 2^32', 'leading zeros are counted in the upper half only', cc=MSVC_CC, files={'stub/intrin.h': ''})
seed('s32_ctz_low_word', 'P32', [('ctz.h', '        _BitScanForward64(&ctz, aValue);', '        _BitScanForward(&ctz, static_cast<unsigned long>(aValue));')], MSVC_BITS + r'''
#include <utils/ctz.h>
int main()
{
    for (int i = 0; i < 64; ++i)
    {
        volatile unsigned __int64 v = 1ull << i;
        if (int(utils::ctz(static_cast<unsigned __int64>(v))) != i) return 1;
    }
    return 0;
}
''', 'MSVC, a 64-bit value whose low half is zero', 'trailing zeros of 64-bit values are wrong from 2^32 on', cc=MSVC_CC, files={'stub/intrin.h': ''})
seed('s32_msvc_alloc_args', 'P32', [('memory/memory.h', '    result = sysops::memory::ops::aligned_malloc(aSize, aAlignment);', '    result = sysops::memory::ops::aligned_malloc(aAlignment, aSize);')], r'''
#include <cassert>
#include <array>
#include <tuple>
#include <memory>
''' + ops_calls + r'''
#define _BitScanReverse bsr
#define _BitScanForward bsf
#define _BitScanReverse64 bsr64
#define _BitScanForward64 bsf64
#define _MSC_VER 1930
#include <utils/memory/memory.h>
int main() { (void)utils::memory::aligned_malloc(48, 16); return sysops::memory::ops::size == 48 && sysops::memory::ops::align == 16 ? 0 : 1; }
''', 'Windows: size and alignment that differ', 'size and alignment are passed in the order of posix_memalign', cc=MSVC_CC, files={'stub/sysops/memory_ops.h': '', 'stub/intrin.h': 'extern "C" unsigned char _BitScanReverse(unsigned long*, unsigned long), _BitScanForward(unsigned long*, unsigned long), _BitScanReverse64(unsigned long*, unsigned __int64), _BitScanForward64(unsigned long*, unsigned __int64);\n'})
seed('s32_msvc_free', 'P32', [('memory/memory.h', '''#ifdef _MSC_VER
    sysops::memory::ops::aligned_free(aPtr);
#else
    sysops::memory::ops::free(aPtr);
#endif''', '''    sysops::memory::ops::free(aPtr);''')], r'''
#include <cassert>
#include <array>
#include <tuple>
#include <memory>
''' + ops_calls + r'''
#define _BitScanReverse bsr
#define _BitScanForward bsf
#define _BitScanReverse64 bsr64
#define _BitScanForward64 bsf64
#define _MSC_VER 1930
#include <utils/memory/memory.h>
int main() { utils::memory::aligned_free(nullptr); return sysops::memory::ops::frees == 1 ? 0 : 1; }
''', 'Windows: memory from aligned_malloc', 'aligned memory goes back to free, which does not own it', cc=MSVC_CC, files={'stub/sysops/memory_ops.h': '', 'stub/intrin.h': 'extern "C" unsigned char _BitScanReverse(unsigned long*, unsigned long), _BitScanForward(unsigned long*, unsigned long), _BitScanReverse64(unsigned long*, unsigned __int64), _BitScanForward64(unsigned long*, unsigned __int64);\n'})
seed('s32_annexk_size', 'P32', [('memory/memory.h', "sysops::memory::ops::memset_s(aPtr, aSize, '\\0', aSize);", "sysops::memory::ops::memset_s(aPtr, sizeof(aPtr), '\\0', aSize);")], r'''
#include <cassert>
#include <array>
#include <tuple>
#include <memory>
''' + ops_calls + r'''
#define __STDC_LIB_EXT1__ 1
#include <utils/memory/memory.h>
int main()
{
    std::byte b[32];
    for (auto& x : b) x = std::byte{7};
    utils::memory::secure_zero_memory(b, 32);
    for (auto x : b) if (x != std::byte{}) return 1;
    return 0;
}
''', 'a C library with memset_s, more than 8 bytes', 'only the first bytes of the secret are zeroed', cc=MSVC_CC, files={'stub/sysops/memory_ops.h': ''})

seed('s37_reset', 'P37', [('memory/memory.h', """inline std::atomic<memory_resource *> default_resource =
    system_memory_resource();
""", """inline std::atomic<memory_resource *> default_resource{nullptr};

// set up before any object that is defined after this header
struct default_resource_setup
{
    default_resource_setup() noexcept
    {
        default_resource = system_memory_resource();
    }
};
static const default_resource_setup setup{};
""")], PLATFORM + r'''
#include <utils/memory/memory.h>
using namespace utils::memory;
struct user { user() { set_default_resource(null_memory_resource()); } };
static user u;
int other();
int main() { return get_default_resource() == null_memory_resource() && other() == 1 ? 0 : 1; }
''', 'two translation units, the first of which sets the default resource from a static constructor', 'the second unit silently puts the system resource back', stub=1, more={'other.cpp': r'''
#include <utils/memory/memory.h>
int other() { return utils::memory::get_default_resource() == utils::memory::null_memory_resource(); }
'''})
seed('s37_thread_local', 'P37', [('memory/memory.h', """    static details::system_memory_resource r;
    return &r;""", """    // no lock on the hot path
    static memory_resource *const instance = []() noexcept
    {
        static thread_local details::system_memory_resource r;
        return static_cast<memory_resource *>(&r);
    }();
    return instance;""")], PLATFORM + r'''
#include <csetjmp>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
extern "C" void __cxa_pure_virtual() { _exit(3); }
#include <utils/memory/memory.h>
using namespace utils::memory;
struct user
{
    memory_resource* had = get_default_resource();
    ~user() { if (!had->is_equal(*had)) _exit(4); }
};
static user u;
int main() { return 0; }
''', 'an object of static storage duration that uses its resource in its destructor', 'the system resource goes with the main thread, before static objects that use it', stub=1, cc='g++ -std=c++17 -O0')

RESERVE = r'''
#include <cstdint>
#include <sys/mman.h>
static std::byte* reserve(std::size_t n, std::size_t align)
{
    void* p = ::mmap(nullptr, n + align, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return nullptr;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    return reinterpret_cast<std::byte*>((a + align - 1) / align * align);
}
'''

seed('s24_wide_left', 'P24', [('memory/monotonic_buffer_resource.h', '    std::size_t size_{};', '    std::uint32_t size_{};')], PLATFORM + RESERVE + r'''
#include <utils/memory/monotonic_buffer_resource.h>
using namespace utils::memory;
int main()
{
    const std::size_t n = (std::size_t{1} << 32) + 64;
    std::byte* b = reserve(n, 4096);
    if (!b) return 0;
    monotonic_buffer_resource r(b, n, nullptr);
    return r.allocate(100, 1) == b ? 0 : 1;
}
''', 'a buffer of more than 4 GiB whose size modulo 4 GiB is small', 'a request that fits is refused', stub=1)

seed('s25_wide_index', 'P26', [('memory/simple_resource.h', '''        return static_cast<BIndex>((ptr - begin) / BlockSize);''', '''        const auto offset = static_cast<std::uint32_t>(ptr - begin);
        return static_cast<BIndex>(offset / BlockSize);''')], PLATFORM + RESERVE + r'''
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
int main()
{
    constexpr std::size_t B = std::size_t{1} << 31;
    std::byte* b = reserve(4 * B, B);
    if (!b) return 0;
    simple_resource<4, B> r(b, 4 * B, nullptr);
    void* p[3];
    for (auto& x : p) x = r.allocate(1, 1);
    const bool right = r.busy_count() == 3 && r.in_use(0) && r.in_use(1) && r.in_use(2);
    std::_Exit(right ? 0 : 1);
}
''', 'blocks more than 4 GiB from the start of the buffer', 'a live allocation is booked on another block', stub=1, cc='g++ -std=c++17 -O1 -DNDEBUG')

seed('s25_wide_count', 'P25', [('memory/simple_resource.h', '''    std::size_t block_count = 0;''', '''    std::uint32_t block_count = 0;'''), ('memory/simple_resource.h', '''                block_count = count;''', '''                block_count = static_cast<std::uint32_t>(count);''')], PLATFORM + RESERVE + r'''
#include <utils/memory/simple_resource.h>
using namespace utils::memory;
int main()
{
    const std::size_t n = std::size_t{1} << 35;
    std::byte* b = reserve(n, 4096);
    if (!b) return 0;
    simple_resource<2, 8> r(b, n, nullptr);
    void* p = r.allocate(8, 8);
    std::_Exit(p == b && r.size() == 16 ? 0 : 1);
}
''', 'a buffer of a multiple of 2^32 blocks', 'the resource manages no block at all', stub=1)

seed('s15_counter', 'P15', [('common.h', '''    bool isEqual = true;
    for (std::size_t i = 0; i < kCount; ++i)''', '''    bool isEqual = true;
    for (std::uint16_t i = 0; i < kCount; ++i)''')], r'''
#include <utils/common.h>
#include <unistd.h>
static std::array<char, 70000> a, b;
int main()
{
    alarm(20);
    b[69999] = 1;
    return utils::is_equal(a, b) ? 1 : 0;
}
''', 'arrays of more than 65535 elements', 'the comparison never ends, the last elements are never looked at')

seed('s17_counter', 'P17', [('memory/memory.h', '''        for (std::size_t i = 0; i < aBufSize; ++i)''', '''        for (std::uint16_t i = 0; i < aBufSize; ++i)''')], PLATFORM + r'''
#include <utils/memory/memory.h>
constexpr bool zeroed()
{
    std::byte b[65600]{};
    b[0] = b[65599] = std::byte{1};
    utils::memory::secure_zero_memory(b, 65600);
    return b[0] == std::byte{} && b[65599] == std::byte{};
}
static_assert(zeroed());
int main() { return 0; }
''', 'a constant expression that zeroes more than 65535 bytes', 'the evaluation never ends', stub=1, cc='clang++ -std=c++17 -fconstexpr-steps=3000000', compile_fail=1)

seed('s17_count32', 'P17', [('memory/memory.h', '''constexpr void memcpy(To *aTo, const From *aFrom, std::size_t aCount) noexcept''', '''constexpr void memcpy(To *aTo, const From *aFrom, std::uint32_t aCount) noexcept''')], PLATFORM + RESERVE + r'''
#include <utils/memory/memory.h>
int main()
{
    const std::size_t n = std::size_t{1} << 32;
    std::byte* from = reserve(n + 8, 4096);
    std::byte* to = reserve(n + 8, 4096);
    if (!from || !to) return 0;
    from[0] = from[100] = std::byte{5};
    utils::memory::memcpy(to, from, n);
    std::_Exit(to[0] == std::byte{5} && to[100] == std::byte{5} ? 0 : 1);
}
''', 'a copy of 4 GiB', 'nothing is copied', stub=1)
