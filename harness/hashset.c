/* a history of insertions into a set */
#include "opm/core/pressure/msmfem/hash_set.c"
/* the table is copied to table[] (capacity cap); returns its size, -1 when it could not be created */
int h_history(int m0, int n, const int *keys, int *ret, int *cnt, int *size, int *table, int cap)
{
    int i, m; struct hash_set *t = hash_set_allocate(m0);
    if (t == NULL) { return -1; }
    for (i = 0; i < n; i++) { ret[i] = hash_set_insert(keys[i], t); cnt[i] = hash_set_count_elms(t); size[i] = t->m; }
    m = t->m;
    for (i = 0; i < m && i < cap; i++) { table[i] = t->s[i]; }
    hash_set_deallocate(t);
    return m;
}
int h_core(int k, int m, int *s) { return hash_set_insert_core(k, m, s); }
int h_index(int k, int m) { return hash_set_idx(k, m); }
int h_size(int m) { return hash_set_size(m); }
