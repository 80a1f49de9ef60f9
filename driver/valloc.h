/* force-included after vlimits.h when compiling drpm: its allocations can be made to fail */
#include <stddef.h>
#undef malloc
#undef calloc
#undef realloc
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
void *drpm_malloc(size_t);
void *drpm_calloc(size_t, size_t);
void *drpm_realloc(void *, size_t);
#define malloc drpm_malloc
#define calloc drpm_calloc
#define realloc drpm_realloc
