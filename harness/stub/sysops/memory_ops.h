// Stand-in for the platform layer (rokoDev/sysops is not available offline):
// declarations only, every harness gives the platform its own meaning.
#ifndef sysops_memory_ops_h
#define sysops_memory_ops_h
#include <cstddef>
namespace sysops
{
namespace memory
{
namespace ops
{
int posix_memalign(void** aResult, std::size_t aAlignment, std::size_t aSize) noexcept;
void free(void* aPtr) noexcept;
#ifdef __STDC_LIB_EXT1__
int memset_s(void* aPtr, std::size_t aMax, int aByte, std::size_t aCount) noexcept;
#endif
#ifdef _MSC_VER
void* aligned_malloc(std::size_t aSize, std::size_t aAlignment) noexcept;
void aligned_free(void* aPtr) noexcept;
void SecureZeroMemory(void* aPtr, std::size_t aSize) noexcept;
#endif
}  // namespace ops
}  // namespace memory
}  // namespace sysops
#endif
