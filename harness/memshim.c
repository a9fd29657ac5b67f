// Preloaded into a tool: the most bytes it had allocated, and how often it did, written to $MEMSHIM at its end.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <malloc.h>
#include <stdatomic.h>
extern void* __libc_malloc(size_t); extern void* __libc_calloc(size_t,size_t); extern void* __libc_realloc(void*,size_t); extern void* __libc_memalign(size_t,size_t); extern void __libc_free(void*);
static atomic_long live, peak, events;
static void* got(void* p) { if(p) { events++; long l = live += malloc_usable_size(p), k = peak; while(l > k && !atomic_compare_exchange_weak(&peak,&k,l)); } return p; }
void* malloc(size_t n) { return got(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return got(__libc_calloc(a,b)); }
void* realloc(void* p, size_t n) { size_t o = p ? malloc_usable_size(p) : 0; void* q = __libc_realloc(p,n); if(q || !n) live -= o; return got(q); }
void* memalign(size_t a, size_t n) { return got(__libc_memalign(a,n)); }
void* aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a,n)); }
int posix_memalign(void** p, size_t a, size_t n) { void* q = got(__libc_memalign(a,n)); if(!q) return ENOMEM; *p = q; return 0; }
void free(void* p) { if(p) { live -= malloc_usable_size(p); __libc_free(p); } }
__attribute__((destructor)) static void end(void) { const char* n = getenv("MEMSHIM"); long k = peak, e = events, l = live; FILE* f = n ? fopen(n,"w") : NULL; if(f) { fprintf(f,"%ld %ld %ld\n",k,e,l); fclose(f); } }
