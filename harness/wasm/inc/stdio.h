#pragma once
#include <stddef.h>
typedef struct FILE FILE; extern FILE* const stdin; extern FILE* const stderr; extern FILE* const stdout;
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
FILE* fopen(const char*,const char*); int fclose(FILE*); size_t fread(void*,size_t,size_t,FILE*); int fseek(FILE*,long,int); long ftell(FILE*); int feof(FILE*); int ferror(FILE*); int fgetc(FILE*); int getc(FILE*); int ungetc(int,FILE*); int fscanf(FILE*,const char*,...); char* fgets(char*,int,FILE*); int sscanf(const char*,const char*,...); int fprintf(FILE*,const char*,...); int printf(const char*,...); int snprintf(char*,size_t,const char*,...); void rewind(FILE*); void clearerr(FILE*);
