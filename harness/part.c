/* entry points for the partition functions with output pointers; the functions themselves are the ones of /repo */
#include "opm/core/pressure/msmfem/partition.c"
struct VpInts { int *a; int *b; int *c; int *d; };
int vp_alloc_inverse(int nc, int max_bin, struct VpInts *o) { return partition_allocate_inverse(nc, max_bin, &o->a, &o->b); }
int vp_alloc_dfs(int n, int nnz, struct VpInts *o) { return allocate_dfs_arrays(n, nnz, &o->a, &o->b, &o->c, &o->d); }
int vp_create_c2c(int nc, int nneigh, const int *neigh, struct VpInts *o) { return partition_create_c2c(nc, nneigh, neigh, &o->a, &o->b); }
