// Force-included into the instrumented translation units: no extern templates, so that the code of
// std::string, std::map, streams, ... is compiled (and instrumented) here instead of taken from the
// uninstrumented libstdc++.so; and block copies go through the simulator.
#ifdef __cplusplus
extern "C" {
void *memcpy(void *, const void *, decltype(sizeof(0))) noexcept __asm__("__tsan_memcpy");
void *memmove(void *, const void *, decltype(sizeof(0))) noexcept __asm__("__tsan_memmove");
void *memset(void *, int, decltype(sizeof(0))) noexcept __asm__("__tsan_memset");
int memcmp(const void *, const void *, decltype(sizeof(0))) noexcept __asm__("__sim_memcmp");
}
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
