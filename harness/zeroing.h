// what platforms that zero memory themselves promise
#if defined(_MSC_VER) || defined(__STDC_LIB_EXT1__)
namespace sysops { namespace memory { namespace ops {
#ifdef _MSC_VER
__attribute__((noinline)) void SecureZeroMemory(void* p, std::size_t n) noexcept
{
    for (std::size_t i = 0; i < n; ++i) static_cast<volatile unsigned char*>(p)[i] = 0;
}
#endif
#ifdef __STDC_LIB_EXT1__
__attribute__((noinline)) int memset_s(void* p, std::size_t max, int byte, std::size_t n) noexcept
{
    if (!p) return 22;
    // too large a count: everything is overwritten and an error returned
    for (std::size_t i = 0; i < (n < max ? n : max); ++i) static_cast<volatile unsigned char*>(p)[i] = static_cast<unsigned char>(byte);
    return n > max ? 34 : 0;
}
#endif
} } }
#endif
