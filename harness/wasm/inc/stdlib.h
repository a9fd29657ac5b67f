#pragma once
#include <stddef.h>
void* malloc(size_t); void* calloc(size_t,size_t); void* realloc(void*,size_t); void free(void*);
void qsort(void*,size_t,size_t,int(*)(const void*,const void*)); void exit(int); void abort(void);
long strtol(const char*,char**,int); unsigned long strtoul(const char*,char**,int); unsigned long long strtoull(const char*,char**,int); float strtof(const char*,char**); double strtod(const char*,char**); int abs(int); int atoi(const char*);
