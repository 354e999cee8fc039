/* chunk_allocator.c; its static functions can be called from the harness, and
 * it gets its memory from the harness */
#include <stdlib.h>
#include "core/allocator.h"
#include "core/common.h"
#include "util/chunk_allocator.h"
#define malloc(n) chk_malloc(n)
#define realloc(p, n) chk_realloc(p, n)
#define free(p) chk_free(p)
void *chk_malloc(size_t n); void *chk_realloc(void *p, size_t n); void chk_free(void *p);
#define static
#include "util/chunk_allocator.c"
#undef static
