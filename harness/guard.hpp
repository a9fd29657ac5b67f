// Wrapped allocation of library builds linked with --wrap: every block ends right before an inaccessible page.
#pragma once
#include <unordered_map>
#include <mutex>
#include <malloc.h>
extern "C" {
struct GuardBlock { char* map; size_t len, size; };
static std::unordered_map<void*,GuardBlock>& guard_map() { static auto* m = new std::unordered_map<void*,GuardBlock>; return *m; }
static std::mutex& guard_mx() { static auto* m = new std::mutex; return *m; }
static size_t guard_allocs = 0;
static void* guard_alloc(size_t n, int fill) {
	if(n > ((size_t)2<<30)) { errno = ENOMEM; return NULL; }
	size_t pg = 4096, len = (n+pg-1)/pg*pg; if(!len) len = pg;
	char* m = (char*)mmap(NULL,len+pg,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m == MAP_FAILED) return NULL;
	mprotect(m+len,pg,PROT_NONE);
	// structures keep the usual alignment, pixel buffers end exactly at the page
	char* p = m+len-(n < 512 ? (n+15)/16*16 : n); if(fill && n < (64u<<20)) memset(p,fill,n);
	std::lock_guard<std::mutex> g(guard_mx()); guard_map()[p] = {m,len+pg,n}; guard_allocs++; return p;
}
static bool guard_free(void* p) {
	GuardBlock b; { std::lock_guard<std::mutex> g(guard_mx()); auto it = guard_map().find(p); if(it == guard_map().end()) return false; b = it->second; guard_map().erase(it); }
	munmap(b.map,b.len); return true;
}
static size_t guard_live() { std::lock_guard<std::mutex> g(guard_mx()); return guard_map().size(); }
__attribute__((visibility("default"))) void* __wrap_malloc(size_t n) { return guard_alloc(n,0xa5); }
__attribute__((visibility("default"))) void* __wrap_calloc(size_t a, size_t b) { if(b && a > SIZE_MAX/b) return NULL; return guard_alloc(a*b,0); }
__attribute__((visibility("default"))) void __wrap_free(void* p) { if(p && !guard_free(p)) free(p); }
__attribute__((visibility("default"))) void* __wrap_realloc(void* p, size_t n) {
	size_t old = 0; if(p) { std::lock_guard<std::mutex> g(guard_mx()); auto it = guard_map().find(p); if(it != guard_map().end()) old = it->second.size; }
	void* q = guard_alloc(n,0xa5); if(!q) return NULL; if(p) { memcpy(q,p,old < n ? old : n); guard_free(p); } return q;
}
}
// frees what a library build returned, wrapped or not
static void rd_free(void* p) { if(p && !guard_free(p)) free(p); }
