#pragma once
int* __errno_location(void);
#define errno (*__errno_location())
#define ENOENT 44
#define ENOMEM 48
#define EINVAL 28
#define EIO 29
