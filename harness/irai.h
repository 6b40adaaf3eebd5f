// Interface between a harness and the abstract interpreter (tools/irai.cpp).
// Nothing here has a definition: the functions are abstract operations.
#ifndef VERIF_IRAI_H
#define VERIF_IRAI_H
#include <cstddef>
#include <cstdint>
extern "C"
{
    // any value of the type
    std::uint64_t __v_u64(const char* name) noexcept;
    std::uint32_t __v_u32(const char* name) noexcept;
    std::uint16_t __v_u16(const char* name) noexcept;
    std::uint8_t __v_u8(const char* name) noexcept;
    bool __v_bool(const char* name) noexcept;
    // any value of [lo, hi]
    std::uint64_t __v_range(std::uint64_t lo, std::uint64_t hi, const char* name) noexcept;
    // every value of [0, n) in turn
    std::uint32_t __v_choice(std::uint32_t n, const char* name) noexcept;
    void __v_assume(bool) noexcept;
    void __v_check(bool, const char* label) noexcept;
    void __v_fail(const char* label) noexcept;
    void __v_stop() noexcept;
    void __v_note(const char*) noexcept;
    // opaque memory at any address that is residue modulo 2^lowbits
    void* __v_buffer(std::uint64_t size, unsigned lowbits, std::uint64_t residue) noexcept;
    void* __v_huge(std::uint64_t size, std::uint64_t window) noexcept;
    void* __v_alloc(std::uint64_t size, std::uint64_t align) noexcept;
    void __v_release(void*) noexcept;
    std::uint64_t __v_concrete(std::uint64_t) noexcept;
    // compares the reached state with all others, continues once per state
    void __v_cut() noexcept;
    void __v_abort_expected(bool) noexcept;
    void __v_throw();
    // whether the exception in flight (or caught last) is the one __v_throw threw
    int __v_original() noexcept;
    // fills the range; all of it must be zero when its object dies
    void __v_secret(void* p, std::size_t n) noexcept;
}
template <typename T>
inline T any(const char* name) noexcept
{
    if constexpr (sizeof(T) == 1)
        return static_cast<T>(__v_u8(name));
    else if constexpr (sizeof(T) == 2)
        return static_cast<T>(__v_u16(name));
    else if constexpr (sizeof(T) == 4)
        return static_cast<T>(__v_u32(name));
    else
        return static_cast<T>(__v_u64(name));
}
#define CHECK(c, label) __v_check((c), label)
#define ENTRY extern "C" void
#endif
