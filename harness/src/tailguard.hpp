// A write just past a heap block by a library that is not instrumented (OpenCV) is not seen by the
// address sanitizer. The bytes between the end of a block and its next multiple of eight, which the
// sanitizer's allocator reserves but nobody may write, are marked on allocation and looked at on release.
#pragma once
#if defined(__SANITIZE_ADDRESS__)
#include <unistd.h>
#include <cstdint>
#include <cstdio>

extern "C" {
size_t __sanitizer_get_allocated_size(const volatile void * p);

// called by the sanitizer's allocator
__attribute__((no_sanitize("address", "undefined"), visibility("default")))
void __sanitizer_malloc_hook(const volatile void * p, size_t n)
{
  volatile uint8_t * c = (volatile uint8_t *)(uintptr_t(p));
  for (size_t k = n; c && n && (k & 7); ++k) {c[k] = uint8_t(0xA5 ^ k);}
}

__attribute__((no_sanitize("address", "undefined"), visibility("default")))
void __sanitizer_free_hook(const volatile void * p)
{
  if (!p) {return;}
  size_t n = __sanitizer_get_allocated_size(p);
  const volatile uint8_t * c = (const volatile uint8_t *)(uintptr_t(p));
  for (size_t k = n; n && (k & 7); ++k) {
    if (c[k] != uint8_t(0xA5 ^ k)) {
      char b[128];
      int m = snprintf(b, sizeof b, "\nERROR: heap block of %zu bytes was written past its end\n", n);
      (void)!write(2, b, size_t(m));
      _exit(99);
    }
  }
}
}
#endif
