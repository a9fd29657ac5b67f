// What the library needs of a C library in WebAssembly; the allocator and the transcendental functions are imported from JavaScript.
#include <stddef.h>
#include <stdint.h>
typedef unsigned char u8;
void* memcpy(void* restrict d, const void* restrict s, size_t n) { u8* a = d; const u8* b = s; while(n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) { u8* a = d; const u8* b = s; if(a < b) while(n--) *a++ = *b++; else while(n--) a[n] = b[n]; return d; }
void* memset(void* d, int c, size_t n) { u8* a = d; while(n--) *a++ = c; return d; }
int memcmp(const void* x, const void* y, size_t n) { const u8* a = x,* b = y; for(; n--; a++, b++) if(*a != *b) return *a-*b; return 0; }
void* memchr(const void* x, int c, size_t n) { const u8* a = x; for(; n--; a++) if(*a == (u8)c) return (void*)a; return 0; }
size_t strlen(const char* s) { const char* p = s; while(*p) p++; return p-s; }
int strcmp(const char* a, const char* b) { while(*a && *a == *b) a++, b++; return (u8)*a-(u8)*b; }
int strncmp(const char* a, const char* b, size_t n) { for(; n; n--, a++, b++) if(*a != *b || !*a) return (u8)*a-(u8)*b; return 0; }
char* strchr(const char* s, int c) { for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for(;; s++) { if(*s == (char)c) r = (char*)s; if(!*s) return r; } }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c+32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c-32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c|32) >= 'a' && (c|32) <= 'z'; }
int strcasecmp(const char* a, const char* b) { while(*a && tolower((u8)*a) == tolower((u8)*b)) a++, b++; return tolower((u8)*a)-tolower((u8)*b); }
static int err; int* __errno_location(void) { return &err; }
char* strerror(int e) { static char s[] = "system error 0000000000"; char* p = s+23; for(int i = 0; i < 10; i++, e /= 10) *--p = '0'+e%10; return s; }
int abs(int x) { return x < 0 ? -x : x; }
#define FREXP(T,name) T name(T x, int* e) { *e = 0; if(!(x-x == 0) || x == 0) return x; T a = x < 0 ? -x : x; while(a >= 1) a /= 2, ++*e; while(a < (T)0.5) a *= 2, --*e; return x < 0 ? -a : a; }
FREXP(double,frexp) FREXP(float,frexpf)
double ldexp(double x, int e) { while(e > 0) x *= 2, e--; while(e < 0) x /= 2, e++; return x; }
float ldexpf(float x, int e) { return ldexp(x,e); }
double fabs(double x) { return __builtin_fabs(x); } float fabsf(float x) { return __builtin_fabsf(x); }
double copysign(double x, double y) { return __builtin_copysign(x,y); } float copysignf(float x, float y) { return __builtin_copysignf(x,y); }
double sqrt(double x) { return __builtin_sqrt(x); } float sqrtf(float x) { return __builtin_sqrtf(x); }
double floor(double x) { return __builtin_floor(x); } float floorf(float x) { return __builtin_floorf(x); }
double ceil(double x) { return __builtin_ceil(x); } float ceilf(float x) { return __builtin_ceilf(x); }
double trunc(double x) { return __builtin_trunc(x); } float truncf(float x) { return __builtin_truncf(x); }
static void swap(u8* a, u8* b, size_t w) { while(w--) { u8 t = *a; *a++ = *b; *b++ = t; } }
void qsort(void* base, size_t n, size_t w, int(*cmp)(const void*,const void*)) { // heapsort
	u8* a = base;
	for(size_t start = n/2, end = n; end > 1;) {
		if(start) start--; else { end--; swap(a,a+end*w,w); }
		for(size_t i = start, k; (k = 2*i+1) < end; i = k) {
			if(k+1 < end && cmp(a+k*w,a+(k+1)*w) < 0) k++;
			if(cmp(a+i*w,a+k*w) >= 0) break;
			swap(a+i*w,a+k*w,w);
		}
	}
}
