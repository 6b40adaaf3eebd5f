"""Behaviour-preserving edits (see refactor.py): name -> (properties, edits)."""
M = 'memory/memory.h'
S = 'memory/simple_resource.h'
B = 'memory/monotonic_buffer_resource.h'
A = 'memory/allocator.h'
C = 'common.h'
REFACTORINGS = {
    'crafted_clz_while': ('P10 P33 P34 P36', [('clz.h', '''    unsigned long clz{};
    for (T to_test = static_cast<T>(1) << (sizeof(T) * CHAR_BIT - 1);
         (clz < sizeof(T) * CHAR_BIT - 1) && !(aValue & to_test);
         to_test >>= 1, ++clz)
        ;
    return clz;''', '''    constexpr unsigned long width = sizeof(T) * CHAR_BIT;
    unsigned long used{};
    while (aValue)
    {
        aValue = static_cast<T>(aValue >> 1);
        ++used;
    }
    return width - used;''')]),
    'power_of_2': ('P11 P12 P33 P24', [(C, 'return aValue && ((aValue & (aValue - 1)) == 0);', '''if (!aValue)
    {
        return false;
    }
    const std::size_t lower = aValue - 1;
    return (aValue ^ lower) > lower;''')]),
    'bits_count_loop': ('P11 P12 P33 P25', [(C, '    return (aValue == 0) ? 0 : 1 + bits_count(aValue >> 1);', '''    uint64_t rest = aValue;
    uint8_t count = 0;
    for (; rest; rest >>= 1)
    {
        ++count;
    }
    return count;''')]),
    'bits_count_clz': ('P11 P12 P33 P25', [(C, '    return (aValue == 0) ? 0 : 1 + bits_count(aValue >> 1);', '''    return aValue ? static_cast<uint8_t>(64 - __builtin_clzll(aValue)) : uint8_t{0};''')]),
    'next_multiple_mask': ('P12 P24 P25 P33', [(C, '    return (aValue + aMultiple - 1) & -aMultiple;', '''    const std::uintptr_t mask = aMultiple - 1;
    return (aValue + mask) & ~mask;'''), (C, 'return (aValue + static_cast<U>(PowOf2 - 1)) & -static_cast<U>(PowOf2);', '''constexpr U mask = static_cast<U>(PowOf2 - 1);
    return static_cast<U>((aValue + mask) & static_cast<U>(~mask));''')]),
    'skip_modulo': ('P12 P24 P25', [(C, 'return next_multiple_of(aAlignment, ptrAsUInt) - ptrAsUInt;', '''const std::uintptr_t over = ptrAsUInt & (aAlignment - 1);
    return over ? aAlignment - over : 0;''')]),
    'skip_negate': ('P12 P24 P25', [(C, 'return next_multiple_of(aAlignment, ptrAsUInt) - ptrAsUInt;', 'return (~ptrAsUInt + 1) & (aAlignment - 1);')]),
    'is_aligned_mod': ('P12 P25 P27', [(C, 'return ((reinterpret_cast<std::uintptr_t>(aPtr) & (aAlignment - 1)) == 0);', 'return reinterpret_cast<std::uintptr_t>(aPtr) % aAlignment == 0;')]),
    'memvcmp_loop': ('P15 P34', [(C, '    return (*mm == val) && (memcmp(mm, mm + 1, size - 1) == 0);', '''    for (std::size_t i = 0; i < size; ++i)
    {
        if (mm[i] != val)
        {
            return false;
        }
    }
    return true;''')]),
    'memvcmp_ptr': ('P15', [(C, '    return (*mm == val) && (memcmp(mm, mm + 1, size - 1) == 0);', '''    const unsigned char* const end = mm + size;
    return std::find_if(mm, end, [val](unsigned char c) { return c != val; }) == end;''')]),
    'max_alignment_loop': ('P12 P25 P33', [(C, '''    const std::size_t msb = bits_count(value) - 1;''', '''    std::size_t msb = 0;
    while (value >> msb >> 1)
    {
        ++msb;
    }''')]),
    'div_plain': ('P13 P33 P36', [(C, '''    using types_with_builtin_impl = type_list<int, long, long long>;
    using common_t = std::common_type_t<type, int, long, long long>;
    if (!types_with_builtin_impl::contains_v<common_t> ||
        __builtin_is_constant_evaluated())
    {
        return div_t<type>{static_cast<type>(static_cast<type>(aNumerator) /
                                             static_cast<type>(aDenominator)),
                           static_cast<type>(static_cast<type>(aNumerator) %
                                             static_cast<type>(aDenominator))};
    }
    else
    {
        using work_t =
            std::conditional_t<types_with_builtin_impl::contains_v<common_t>,
                               common_t, long long>;

        const auto result =
            std::div(static_cast<work_t>(static_cast<type>(aNumerator)),
                     static_cast<work_t>(static_cast<type>(aDenominator)));
        return div_t<type>{static_cast<type>(result.quot),
                           static_cast<type>(result.rem)};
    }''', '''    const type n = static_cast<type>(aNumerator);
    const type d = static_cast<type>(aDenominator);
    const type q = static_cast<type>(n / d);
    return div_t<type>{q, static_cast<type>(n - static_cast<type>(q * d))};''')]),
    'nbits_recursive': ('P11 P33', [(C, '''    ValueT vCopy = aValue;
    std::size_t nBitsToSave{};
    while (vCopy)
    {
        vCopy >>= 1;
        ++nBitsToSave;
    }
    return nBitsToSave;''', '''    if (!aValue)
    {
        return 0;
    }
    return 1 + nbits_occupied(static_cast<ValueT>(aValue >> 1));''')]),
    'visit_fold': ('P16 P36 P33', [(C, '''    using I = std::initializer_list<int>;
    (void)I{(std::forward<F>(f)(std::forward<Ts>(ts)), 0)...};''', '''    (static_cast<void>(std::forward<F>(f)(std::forward<Ts>(ts))), ...);''')]),
    'visit_apply': ('P16 P36', [(C, '''               { for_each_arg(f, std::forward<decltype(xs)>(xs)...); },''', '''               { (static_cast<void>(f(std::forward<decltype(xs)>(xs))), ...); },''')]),
    'array_equal_all': ('P15 P33', [(C, '''    bool isEqual = true;
    for (std::size_t i = 0; i < kCount; ++i)
    {
        if (lhs[i] != rhs[i])
        {
            isEqual = false;
            break;
        }
    }
    return isEqual;''', '''    std::size_t same = 0;
    while (same < kCount && !(lhs[same] != rhs[same]))
    {
        ++same;
    }
    return same == kCount;''')]),
    'abort_early': ('P29 P27 P25', [(C, '''    if (aCondition)
    {
        if (aFormat)
        {
            std::va_list arglist;
            va_start(arglist, aFormat);
            vfprintf(stderr, aFormat, arglist);
            va_end(arglist);
        }
        std::abort();
    }''', '''    if (!aCondition)
    {
        return;
    }
    if (aFormat != nullptr)
    {
        std::va_list arguments;
        va_start(arguments, aFormat);
        std::vfprintf(stderr, aFormat, arguments);
        va_end(arguments);
    }
    std::abort();''')]),
    'zero_pointer_walk': ('P17 P18 P33', [(M, '''        volatile std::byte *buf = aPtr;
        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }''', '''        volatile std::byte *buf = aPtr;
        while (aSize--)
        {
            *buf++ = std::byte{};
        }''')]),
    'zero_barrier': ('P17 P18 P33', [(M, '''        volatile std::byte *buf = aPtr;
        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }''', '''        handmade_zero_mem(aPtr, aSize);
        __asm__ __volatile__("" : : "r"(aPtr) : "memory");''')]),
    'memmove_helper': ('P17 P33', [(M, '''        bool dst_inside_src = false;
        for (std::size_t i = 1; i < aCount; ++i)
        {
            if (aDst == aSrc + i)
            {
                dst_inside_src = true;
            }
        }
        if (dst_inside_src)
        {''', '''        const auto inside = [](const std::byte *aP, const std::byte *aFirst,
                               std::size_t aN) noexcept
        {
            for (std::size_t i = 0; i < aN; ++i)
            {
                if (aFirst + i == aP)
                {
                    return true;
                }
            }
            return false;
        };
        if (inside(aDst, aSrc, aCount))
        {''')]),
    'alignment_isolate': ('P12 P36', [(M, '''    const auto power = ctz(ptrAsUInt);
    return std::size_t{1} << power;''', '''    return ptrAsUInt & (~ptrAsUInt + 1);''')]),
    'resource_call': ('P21 P23 P25 P28 P34', [(M, 'return std::invoke(allocate_, this, aSize, aAlignment);', 'return (this->*allocate_)(aSize, aAlignment);'), (M, 'std::invoke(deallocate_, this, aPtr);', '(this->*deallocate_)(aPtr);')]),
    'default_cas': ('P22 P23 P34', [(M, 'return details::default_resource.exchange(aResource);', '''memory_resource *old = details::default_resource.load();
    while (!details::default_resource.compare_exchange_weak(old, aResource))
    {
    }
    return old;''')]),
    'default_helper': ('P22 P23 P34', [(M, 'return details::default_resource.exchange(aResource);', 'return std::atomic_exchange(&details::default_resource, aResource);'), (M, 'return details::default_resource.load();', 'return static_cast<memory_resource *>(details::default_resource);')]),
    'default_order': ('P22 P23', [(M, 'return details::default_resource.exchange(aResource);', '''auto &current = details::default_resource;
    return current.exchange(aResource, std::memory_order_seq_cst);'''), (M, 'return details::default_resource.load();', '''const auto &current = details::default_resource;
    return current.load(std::memory_order_seq_cst);''')]),
    'aligned_malloc': ('P23 P35', [(M, '''    aAlignment = aAlignment >= sizeof(void *) ? aAlignment : sizeof(void *);
    if (sysops::memory::ops::posix_memalign(&result, aAlignment, aSize))
    {
        result = 0;
    }''', '''    const std::size_t alignment = std::max(aAlignment, sizeof(void *));
    const int failed = sysops::memory::ops::posix_memalign(&result, alignment, aSize);
    result = failed ? nullptr : result;''')]),
    'monotonic_helper': ('P24 P35', [(B, '''        std::byte *pointer{};
        if (data_)
        {
            const auto skip = skip_to_align(next_, aAlignment);
            const auto available =
                static_cast<std::size_t>(data_ + size_ - next_);
            if ((skip <= available) && (aSize <= available - skip))
            {
                std::byte *supposed_result = next_ + skip;
                next_ = supposed_result + aSize;
                pointer = supposed_result;
            }
        }

        if (!pointer && upstream_)
        {
            pointer = static_cast<std::byte *>(
                upstream_->allocate(aSize, aAlignment));
        }

        return pointer;
    }''', '''        if (void *const own = take(aSize, aAlignment))
        {
            return own;
        }
        return upstream_ ? upstream_->allocate(aSize, aAlignment) : nullptr;
    }

    std::size_t remaining() const noexcept
    {
        return size_ - static_cast<std::size_t>(next_ - data_);
    }

    void *take(std::size_t aSize, std::size_t aAlignment) noexcept
    {
        if (!data_)
        {
            return nullptr;
        }
        const std::size_t left = remaining();
        const std::size_t skip = skip_to_align(next_, aAlignment);
        if (left < skip || left - skip < aSize)
        {
            return nullptr;
        }
        std::byte *const block = next_ + skip;
        next_ = block + aSize;
        return block;
    }''')]),
    'monotonic_std_align': ('P24 P35', [(B, '''            const auto skip = skip_to_align(next_, aAlignment);
            const auto available =
                static_cast<std::size_t>(data_ + size_ - next_);
            if ((skip <= available) && (aSize <= available - skip))
            {
                std::byte *supposed_result = next_ + skip;
                next_ = supposed_result + aSize;
                pointer = supposed_result;
            }''', '''            auto available = static_cast<std::size_t>(data_ + size_ - next_);
            void *candidate = next_;
            if (std::align(aAlignment, aSize, candidate, available))
            {
                pointer = static_cast<std::byte *>(candidate);
                next_ = pointer + aSize;
            }'''), (B, '#include "memory.h"', '#include <memory>\n\n#include "memory.h"')]),
    'monotonic_remaining_field': ('P24 P35', [(B, '    void release() noexcept { next_ = data_; }', '    void release() noexcept { used_ = 0; }'), (B, '            const auto skip = skip_to_align(next_, aAlignment);', '            std::byte *const next = data_ + used_;\n            const auto skip = skip_to_align(next, aAlignment);'),
        (B, 'static_cast<std::size_t>(data_ + size_ - next_);', 'size_ - used_;'), (B, '''                std::byte *supposed_result = next_ + skip;
                next_ = supposed_result + aSize;
                pointer = supposed_result;''', '''                pointer = next + skip;
                used_ += skip + aSize;'''), (B, '    std::byte *next_{};', '    std::size_t used_{};'), (B, '        , next_(data_)\n', '')]),
    'simple_loop': ('P25 P26 P27 P35', [(S, '''        apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
              [this](BIndex aIndex) mutable noexcept -> BIndex
              { return at(deallocate_blocks(aIndex)).next_index(); });''', '''        BIndex i = 0;
        do
        {
            if (in_use(i))
            {
                i = deallocate_blocks(i);
            }
            i = at(i).next_index();
        } while (i);''')]),
    'simple_search': ('P25 P26 P27 P35', [(S, '''                apply([this](BIndex aIndex) noexcept -> bool
                      { return not in_use(aIndex); },
                      [this, &pointer, aAlignment,
                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                      {
                          const auto block_size = block_size_in_bytes(aIndex);
                          std::byte *const block_pointer =
                              block_index_to_pointer(aIndex);
                          const auto skip =
                              skip_to_align(block_pointer, aAlignment);
                          if ((skip <= block_size) &&
                              (aSize <= block_size - skip))
                          {
                              pointer = block_pointer + skip;
                              allocate_blocks(aIndex, pointer, aSize);
                              return 0;
                          }
                          return at(aIndex).next_index();
                      });''', '''                pointer = search(aSize, aAlignment);'''), (S, '''    void deallocate_impl(void *aPtr) noexcept
    {''', '''    std::byte *search(std::size_t aSize, std::size_t aAlignment) noexcept
    {
        for (BIndex i = 0;;)
        {
            if (!in_use(i))
            {
                const std::size_t bytes = block_size_in_bytes(i);
                std::byte *const begin = block_index_to_pointer(i);
                const std::size_t skip = skip_to_align(begin, aAlignment);
                if (skip <= bytes && bytes - skip >= aSize)
                {
                    allocate_blocks(i, begin + skip, aSize);
                    return begin + skip;
                }
            }
            i = at(i).next_index();
            if (!i)
            {
                return nullptr;
            }
        }
    }

    void deallocate_impl(void *aPtr) noexcept
    {''')]),
    'simple_one_case': ('P25 P26 P27 P35', [(S, '''        if (aFreeRegion == first)
        {
            if (last != last_of_free)
            {
                details::allocate_begin_matched(*this, aFreeRegion, last,
                                                last_of_free);
            }
            else
            {
                details::allocate_matched(*this, aFreeRegion);
            }
        }
        else
        {
            if (last != last_of_free)
            {
                details::allocate_not_matched(*this, aFreeRegion, first, last,
                                              last_of_free);
            }
            else
            {
                details::allocate_end_matched(*this, aFreeRegion, first, last);
            }
        }''', '''        // split off what stays free before and behind
        if (aFreeRegion != first)
        {
            set_prev_next(first, aFreeRegion, after_free);
            set_prev(after_free, first);
            set_next(aFreeRegion, first);
            ++free_count_;
        }
        if (last != last_of_free)
        {
            const BIndex rest = last + 1;
            set_prev_next(rest, first, after_free);
            set_prev(after_free, rest);
            set_next(first, rest);
            ++free_count_;
        }
        set_in_use(first);
        --free_count_;
        ++busy_count_;''')]),
    'simple_in_use_array': ('P25 P26 P27 P35', [(S, '    std::bitset<MaxBlockCount> in_use_{};', '    bool in_use_[MaxBlockCount]{};')]),
    'simple_merge': ('P25 P26 P27', [(S, '''        const BIndex merged =
            merge_if_both_not_in_use(info.prev_index(), aIndex);
        return merge_if_both_not_in_use(merged, info.next_index());''', '''        BIndex first = aIndex;
        const BIndex before = info.prev_index();
        const BIndex behind = info.next_index();
        if (behind && !in_use(behind))
        {
            join(first, behind);
        }
        if (before != first && !in_use(before))
        {
            join(before, first);
            first = before;
        }
        return first;
    }

    void join(BIndex aLeft, BIndex aRight) noexcept
    {
        const BIndex after = at(aRight).next_index();
        if (after)
        {
            at(after).prev_index_ = aLeft;
        }
        at(aLeft).next_index_ = after;
        --free_count_;''')]),
    'simple_range': ('P25 P26 P27', [(S, '''        if ((aPtr >= static_cast<void *>(data_)) &&
            (aPtr < static_cast<void *>(data_ + this->size())))
        {''', '''        const auto address = reinterpret_cast<std::uintptr_t>(aPtr);
        const auto origin = reinterpret_cast<std::uintptr_t>(data_);
        if (address >= origin && address - origin < size())
        {''')]),
    'simple_origin': ('P25 P26 P27', [(S, '''    std::byte *first_block_ptr = nullptr;
    std::size_t block_count = 0;

    if (aBuffer && aSize)
    {
        const auto kSkip = skip_to_align(aBuffer, BlockSize);
        if (kSkip < aSize)
        {
            const auto count = (aSize - kSkip) / BlockSize;
            if (count > 0)
            {
                block_count = count;
                first_block_ptr = aBuffer + kSkip;
            }
        }
    }

    return {first_block_ptr, block_count};''', '''    const std::size_t skip = aBuffer ? skip_to_align(aBuffer, BlockSize) : 0;
    if (!aBuffer || aSize < skip + BlockSize)
    {
        return {nullptr, 0};
    }
    return {aBuffer + skip, (aSize - skip) / BlockSize};''')]),
    'simple_index': ('P25 P26 P27', [(S, 'return static_cast<BIndex>((ptr - begin) / BlockSize);', '''std::size_t index = 0;
        constexpr std::size_t shift = bits_count(BlockSize) - 1;
        index = (ptr - begin) >> shift;
        return static_cast<BIndex>(index);''')]),
    'timer_exchange': ('P20 P31 P36', [('timer.h', '        : start_(aOther.start_), callback_(aOther.callback_)\n    {\n        impl::template copy(data_, aOther.data_);\n        aOther.callback_ = nullptr;', '        : start_(aOther.start_)\n        , callback_(std::exchange(aOther.callback_, nullptr))\n    {\n        impl::template copy(data_, aOther.data_);'),
        ('timer.h', '            std::invoke(callback_, data_, *this);', '            callback_(data_, *this);')]),
    'timer_memcpy': ('P20 P31', [('timer.h', '        (..., (aDst[I] = aSrc[I]));', '        std::memcpy(aDst, aSrc, sizeof...(I));'), ('timer.h', 'static constexpr void copy_impl', 'static void copy_impl'), ('timer.h', 'static constexpr void copy(', 'static void copy('), ('timer.h', '#include <cstddef>', '#include <cstddef>\n#include <cstring>')]),
    'timer_chrono': ('P20 P31', [('timer.h', '        return std::chrono::duration_cast<std::chrono::milliseconds>(leaked());', '        const duration d = leaked();\n        return std::chrono::duration_cast<std::chrono::milliseconds>(d);'), ('timer.h', 'void reset() noexcept { start_ = clock::now(); }', '''void reset() noexcept
    {
        const time_point now = clock::now();
        start_ = now;
    }''')]),
    'timer_store': ('P20 P36', [('timer.h', '''        if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
        {
            new (&impl::template callback<stored_callback_t>(data_))
                stored_callback_t(aCallback);
        }
        else
        {
            new (&impl::template callback<stored_callback_t>(data_))
                stored_callback_t(std::forward<FinishCallback>(aCallback));
        }''', '''        ::new (static_cast<void *>(data_))
            stored_callback_t(std::forward<FinishCallback>(aCallback));''')]),
    'pimpl_launder': ('P19', [('fast_pimpl.h', 'T &get() noexcept { return reinterpret_cast<T &>(*this); }', '''T &get() noexcept
    {
        return *std::launder(reinterpret_cast<T *>(data_));
    }'''), ('fast_pimpl.h', '        new (&get()) T();', '        ::new (static_cast<void *>(data_)) T();')]),
    'pimpl_assign': ('P19', [('fast_pimpl.h', '''        get() = std::move(aOther.get());
        return *this;''', '''        T &to = get();
        T &from = aOther.get();
        to = static_cast<T &&>(from);
        return *this;''')]),
    'allocator_object': ('P28 P35 P36', [(A, '''        U* ptr = this->allocate_object<U>();
        if (ptr)
        {
            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
        }
        return ptr;''', '''        void* const memory = resource_->allocate(sizeof(U), alignof(U));
        if (!memory)
        {
            return nullptr;
        }
        return ::new (memory) U(std::forward<CtorArgs>(aArgs)...);'''), (A, '''        if (aPtr)
        {
            aPtr->~U();
            deallocate_object(aPtr);
        }''', '''        if (!aPtr)
        {
            return;
        }
        std::destroy_at(aPtr);
        resource_->deallocate(aPtr);'''), (A, '#include <type_traits>', '#include <memory>\n#include <type_traits>')]),
    'allocator_overflow': ('P28', [(A, '''        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
        {
            return nullptr;
        }
        return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));''', '''        std::size_t bytes = 0;
        if (__builtin_mul_overflow(aCount, sizeof(U), &bytes))
        {
            return nullptr;
        }
        return static_cast<U*>(allocate_bytes(bytes, alignof(U)));''')]),
    'bit_cast_bytes': ('P17 P33 P36', [(C, '    std::memcpy(&dst, &src, sizeof(To));', '''    const auto* from = reinterpret_cast<const unsigned char*>(&src);
    auto* to = reinterpret_cast<unsigned char*>(&dst);
    for (std::size_t i = 0; i < sizeof(To); ++i)
    {
        to[i] = from[i];
    }''')]),
    'concat_fold': ('P16 P33 P36', [(C, '''    return {std::get<i1>(std::forward<A1>(aArray1))...,
            std::get<i2>(std::forward<A2>(aArray2))...};''', '''    using result = std::array<std_array_data_t<A1>, std_array_sizes_sum<A1, A2>>;
    return result{std::get<i1>(std::forward<A1>(aArray1))...,
                  std::get<i2>(std::forward<A2>(aArray2))...};''')]),
    'num_bits_kernighan': ('P11 P33', [(C, '''    using Indices = std::make_index_sequence<CHAR_BIT>;
    return numBitSet(aValue, Indices{});''', '''    uint8_t n = 0;
    for (unsigned v = aValue; v; v &= v - 1)
    {
        ++n;
    }
    return n;''')]),
    'greatest_divisor': ('P11 P33', [(C, '''    return aValue ? (aValue & (~(aValue - 1)))
                  : static_cast<T>(1) << (sizeof(T) * CHAR_BIT - 1);''', '''    if (aValue == 0)
    {
        return static_cast<T>(T{1} << (std::numeric_limits<T>::digits - 1));
    }
    return static_cast<T>(aValue & (T{} - aValue));''')]),
    'range_array': ('P16 P33', [(C, '''    auto currentValue = Begin;
    result[0] = CommonT{currentValue};
    for (std::size_t i = 1; i < kCount; ++i)
    {
        currentValue = currentValue + Step;
        result[i] = CommonT{currentValue};
    }
    return result;''', '''    std::size_t i = 0;
    for (auto value = Begin;;)
    {
        result[i] = CommonT{value};
        if (++i == kCount)
        {
            return result;
        }
        value = value + Step;
    }''')]),
    'system_immortal': ('P21 P22 P23 P34 P36 P37', [(M, '''    static details::system_memory_resource r;
    return &r;''', '''    // never destroyed
    static auto *const r = new details::system_memory_resource;
    return r;''')]),
    'system_storage': ('P21 P22 P23 P34 P37', [(M, '''    static details::system_memory_resource r;
    return &r;''', '''    alignas(details::system_memory_resource) static std::byte
        storage[sizeof(details::system_memory_resource)];
    static memory_resource *const r =
        new (storage) details::system_memory_resource;
    return r;''')]),
    'default_slot': ('P21 P22 P23 P28 P34 P37', [(M, '''inline std::atomic<memory_resource *> default_resource =
    system_memory_resource();
''', '''inline std::atomic<memory_resource *> &default_resource() noexcept
{
    static std::atomic<memory_resource *> slot{system_memory_resource()};
    return slot;
}
'''), (M, 'details::default_resource.exchange(aResource)', 'details::default_resource().exchange(aResource)'), (M, 'details::default_resource.load()', 'details::default_resource().load()')]),
    'default_class': ('P22 P23 P34 P37', [(M, '''inline std::atomic<memory_resource *> default_resource =
    system_memory_resource();
''', '''class default_resource_holder
{
   public:
    static memory_resource *get() noexcept
    {
        return current_.load(std::memory_order_seq_cst);
    }
    static memory_resource *set(memory_resource *aNew) noexcept
    {
        return current_.exchange(aNew, std::memory_order_seq_cst);
    }

   private:
    inline static std::atomic<memory_resource *> current_{
        system_memory_resource()};
};
'''), (M, 'details::default_resource.exchange(aResource)', 'details::default_resource_holder::set(aResource)'), (M, 'details::default_resource.load()', 'details::default_resource_holder::get()')]),
    'is_equal_base': ('P21 P23 P25 P24 P37', [(M, '    virtual bool is_equal(const memory_resource &aOther) const noexcept = 0;', '''    virtual bool is_equal(const memory_resource &aOther) const noexcept
    {
        return this == &aOther;
    }'''), (B, '''    bool is_equal(const memory_resource &aOther) const noexcept override
    {
        return &aOther == this;
    }

''', '')]),
    'msvc_xor': ('P10 P32', [('clz.h', '''        _BitScanReverse64(&clz, aValue);
        clz = static_cast<unsigned long>(sizeof(aValue) * CHAR_BIT - clz - 1);
        return clz;''', '''        const unsigned char found = _BitScanReverse64(&clz, aValue);
        return found ? (clz ^ 63ul) : 64ul;''')]),
    'clz_direct': ('P10 P33 P32', [('clz.h', '''constexpr decltype(auto) clz_ui(unsigned int aValue) noexcept
{
    assert(aValue > 0 && "Invalid aValue");
    return __builtin_clz(aValue);
}''', '''constexpr int clz_ui(unsigned int aValue) noexcept
{
    assert(aValue > 0 && "Invalid aValue");
    constexpr int wider = (sizeof(unsigned long long) - sizeof(unsigned int)) * CHAR_BIT;
    return __builtin_clzll(aValue) - wider;
}''')]),
    'zero_function_pointer': ('P17 P33 P34', [(M, '''        volatile std::byte *buf = aPtr;
        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }''', '''        void *(*const volatile fill)(void *, int, std::size_t) = &std::memset;
        if (aSize)
        {
            fill(aPtr, 0, aSize);
        }''')]),
    'zero_backwards': ('P17 P18 P32', [(M, '''        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }''', '''        while (aSize--)
        {
            *(buf + aSize) = std::byte{};
        }''')]),
    'monotonic_end': ('P24 P35', [(B, '''            const auto available =
                static_cast<std::size_t>(data_ + size_ - next_);
            if ((skip <= available) && (aSize <= available - skip))
            {
                std::byte *supposed_result = next_ + skip;
                next_ = supposed_result + aSize;
                pointer = supposed_result;
            }''', '''            std::byte *const end = data_ + size_;
            auto left = static_cast<std::size_t>(end - next_);
            if (skip <= left)
            {
                left -= skip;
                if (aSize <= left)
                {
                    pointer = end - left;
                    next_ = pointer + aSize;
                }
            }''')]),
    'msvc_alloc_helper': ('P23 P32', [(M, '''    void *result;
#ifdef _MSC_VER
    result = sysops::memory::ops::aligned_malloc(aSize, aAlignment);
#else
    aAlignment = aAlignment >= sizeof(void *) ? aAlignment : sizeof(void *);
    if (sysops::memory::ops::posix_memalign(&result, aAlignment, aSize))
    {
        result = 0;
    }
#endif
    return result;''', '''#ifdef _MSC_VER
    return sysops::memory::ops::aligned_malloc(aSize, aAlignment);
#else
    constexpr std::size_t smallest = alignof(void *);
    void *result = nullptr;
    const int error = sysops::memory::ops::posix_memalign(
        &result, aAlignment < smallest ? smallest : aAlignment, aSize);
    return error == 0 ? result : nullptr;
#endif''')]),
    'timer_no_default': ('P20 P31 P34', [('timer.h', '    time_point start_ = clock::now();\n', '    time_point start_;\n'), ('timer.h', 'duration leaked() const noexcept { return clock::now() - start_; }', '''duration leaked() const noexcept
    {
        const time_point now = clock::now();
        return now - start_;
    }''')]),
    'resource_table': ('P21 P25 P36', [(M, 'return std::invoke(allocate_, this, aSize, aAlignment);', '''const allocate_t target = allocate_;
        return (this->*target)(aSize, aAlignment);''')]),
}
