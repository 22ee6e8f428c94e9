/* forced include for natively replayed C sources: allocation tracking and failure injection */
#ifndef VP_SHIM_H
#define VP_SHIM_H
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vp_malloc(size_t n); void *vp_calloc(size_t a, size_t b); void *vp_realloc(void *p, size_t n); void vp_free(void *p);
char *vp_strdup(const char *s);
#ifdef __cplusplus
}
#endif
#ifndef VP_SHIM_IMPL
#define malloc(n) vp_malloc(n)
#define calloc(a,b) vp_calloc(a,b)
#define realloc(p,n) vp_realloc(p,n)
#define free(p) vp_free(p)
#endif
#endif
