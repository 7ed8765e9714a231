#pragma once
#include <cstddef>
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vf { inline size_t heapBytes() { return __sanitizer_get_current_allocated_bytes(); } }
#else
#include <malloc.h>
namespace vf { inline size_t heapBytes() { struct mallinfo2 m = mallinfo2(); return m.uordblks; } }
#endif
