// Counts the live heap of a process (malloc family interposed) in a shared file: $SKYV_HEAP
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

struct ctl { _Atomic long bytes, blocks, allocs; };
static struct ctl local, *C = &local;

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("SKYV_HEAP");
    if (!p) return;
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    struct ctl *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) return;
    atomic_store(&m->bytes, atomic_load(&local.bytes));
    atomic_store(&m->blocks, atomic_load(&local.blocks));
    atomic_store(&m->allocs, 0);
    C = m;
}
static void *in(void *p) {
    if (p) {
        atomic_fetch_add_explicit(&C->bytes, (long)malloc_usable_size(p), memory_order_relaxed);
        atomic_fetch_add_explicit(&C->blocks, 1, memory_order_relaxed);
        atomic_fetch_add_explicit(&C->allocs, 1, memory_order_relaxed);
    }
    return p;
}
static void out(void *p) {
    if (p) {
        atomic_fetch_sub_explicit(&C->bytes, (long)malloc_usable_size(p), memory_order_relaxed);
        atomic_fetch_sub_explicit(&C->blocks, 1, memory_order_relaxed);
    }
}
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void free(void *p) { out(p); __libc_free(p); }
void *realloc(void *p, size_t n) {
    long old = p ? (long)malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || n == 0) {
        if (p) {
            atomic_fetch_sub_explicit(&C->bytes, old, memory_order_relaxed);
            atomic_fetch_sub_explicit(&C->blocks, 1, memory_order_relaxed);
        }
        in(q);
    }
    return q;
}
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *r = in(p);
    return 0;
}
