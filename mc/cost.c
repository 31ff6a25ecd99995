/* C35: counts what a thread does: basic blocks entered (LLVM's coverage callback), bytes moved by the C library, stack reached. */
#include <stddef.h>
#include <stdint.h>

static __thread uint64_t blocks, moved;
static __thread uintptr_t lowest = UINTPTR_MAX;

void __sanitizer_cov_trace_pc(void) {
    uintptr_t at = (uintptr_t)__builtin_frame_address(0);
    blocks++;
    if (at < lowest)
        lowest = at;
}

void cost_start(void) { blocks = moved = 0, lowest = UINTPTR_MAX; }
uint64_t cost_blocks(void) { return blocks; }
uint64_t cost_moved(void) { return moved; }
uint64_t cost_lowest(void) { return lowest; }

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
int __real_bcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *a, const void *b, size_t n) { return moved += n, __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, size_t n) { return moved += n, __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, size_t n) { return moved += n, __real_memset(a, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { return moved += n, __real_memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return moved += n, __real_bcmp(a, b, n); }
