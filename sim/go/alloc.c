// Allocations of the binding (linked with --wrap): failures on demand, freed memory overwritten, blocks counted.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <malloc.h>
#include <stdatomic.h>
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*); void* __real_realloc(void*, size_t);
static atomic_long live; static atomic_int fail_calloc; static uint8_t fill = 0xA5;
long sim_live(void) { return atomic_load(&live); }
void sim_fill(int v) { fill = (uint8_t)v; }
void sim_fail_calloc(int on) { atomic_store(&fail_calloc, on); }
int sim_calloc_pending(void) { return atomic_exchange(&fail_calloc, 0); }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) { atomic_fetch_add(&live, 1); memset(p, fill, n); } return p; }
void* __wrap_calloc(size_t a, size_t b) { if (atomic_load(&fail_calloc)) { atomic_store(&fail_calloc, 0); return NULL; } void* p = __real_calloc(a, b); if (p) atomic_fetch_add(&live, 1); return p; }
void __wrap_free(void* p) { if (!p) return; atomic_fetch_sub(&live, 1); memset(p, 0xDD, malloc_usable_size(p)); __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { void* q = __real_realloc(p, n); if (q && !p) atomic_fetch_add(&live, 1); return q; }
