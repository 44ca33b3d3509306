/* Force-included when the extension is built for the memory check: counts the blocks that are allocated and
   not released, and fills new blocks with a pattern chosen by the check. */
#ifndef MC_SHIM_H
#define MC_SHIM_H
#include <stdlib.h>
#include <string.h>
__attribute__((weak, visibility("default"))) long mc_live = 0;
__attribute__((weak, visibility("default"))) long mc_made = 0;
__attribute__((weak, visibility("default"))) int mc_fill = 0x41;
static inline void *mc_malloc(size_t n)
{
    void *p = malloc(n);
    if (p) { memset(p, mc_fill, n); mc_live++; mc_made++; }
    return p;
}
static inline void *mc_calloc(size_t a, size_t b)
{
    void *p = calloc(a, b);
    if (p) { mc_live++; mc_made++; }
    return p;
}
static inline void *mc_realloc(void *q, size_t n)
{
    void *p = realloc(q, n);
    if (!q && p) { mc_live++; mc_made++; }
    return p;
}
static inline void mc_free(void *p)
{
    if (p) mc_live--;
    free(p);
}
#define malloc(n) mc_malloc(n)
#define calloc(a, b) mc_calloc(a, b)
#define realloc(p, n) mc_realloc(p, n)
#define free(p) mc_free(p)
#endif
