#define VP_SHIM_IMPL
#include "vp_shim.h"
#include <stdio.h>
#define NT (1<<17)
static void *key[NT]; static size_t siz[NT]; static unsigned char state[NT]; /* 1 live heap, 2 raw, 3 freed */
static long count, fail_at = -1, nfail;
static size_t slot(void *p){ size_t h = ((size_t)p >> 4) * 2654435761u % NT; while (key[h] && key[h] != p) h = (h+1)%NT; return h; }
static void put(void *p, size_t n, int s){ size_t h; if(!p) return; h = slot(p); key[h]=p; siz[h]=n; state[h]=s; }
static int should_fail(void){ count++; if (fail_at >= 0 && count - 1 == fail_at) { nfail++; return 1; } return 0; }
static void die(const char *m, void *p){ fprintf(stderr, "VP-ERROR: %s %p\n", m, p); fflush(stderr); abort(); }
void *vp_malloc(size_t n){ void *p; if (should_fail()) return NULL; p = malloc(n ? n : 1); if (p && n) memset(p, 0xA5, n); put(p,n,1); return p; }
void *vp_calloc(size_t a, size_t b){ void *p; if (should_fail()) return NULL; p = calloc(a*b ? a*b : 1, 1); put(p,a*b,1); return p; }
void vp_free(void *p){ size_t h; if (!p) return; h = slot(p); if (!key[h]) die("free of unknown pointer", p); if (state[h]==3) die("double free", p); if (state[h]==2) die("free of non-heap memory", p); state[h]=3; free(p); }
void *vp_realloc(void *p, size_t n){ void *q; size_t h; if (!p) return vp_malloc(n); h = slot(p); if (!key[h]) die("realloc of unknown pointer", p); if (state[h]==3) die("realloc of freed memory", p); if (state[h]==2) die("realloc of non-heap", p); if (should_fail()) return NULL; q = malloc(n ? n : 1); if (n > siz[h]) memset((char*)q + siz[h], 0xA5, n - siz[h]); memcpy(q, p, siz[h] < n ? siz[h] : n); state[h]=3; free(p); put(q,n,1); return q; }
void *vp_raw_malloc(size_t n){ void *p = malloc(n ? n : 1); memset(p, 0, n ? n : 1); put(p,n,2); return p; }
void *vp_heap_malloc(size_t n){ void *p = malloc(n ? n : 1); memset(p, 0, n ? n : 1); put(p,n,1); return p; }
void vp_reset(void){ memset(key,0,sizeof key); memset(state,0,sizeof state); count=0; fail_at=-1; nfail=0; }
void vp_begin(long f){ count=0; fail_at=f; nfail=0; }
void vp_end(void){ fail_at=-1; }
long vp_nfail(void){ return nfail; }
long vp_count(void){ return count; }
long vp_live_count(void){ long n=0; size_t i; for(i=0;i<NT;i++) if (key[i] && state[i]==1) n++; return n; }
int vp_is_live(void *p){ size_t h = slot(p); return key[h] && state[h]==1; }
int vp_is_freed(void *p){ size_t h = slot(p); return key[h] && state[h]==3; }
long vp_capacity(void *p){ size_t h = slot(p); if (!key[h] || state[h]==3) return -1; return (long)siz[h]; }
