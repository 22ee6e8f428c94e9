// C entry points for the sparse containers
#include "vp.h"
#include <iterator>
#include <opm/core/utility/SparseTable.hpp>
#include <opm/core/utility/SparseVector.hpp>
using namespace Opm;
typedef SparseTable<double> T;
typedef SparseVector<double> V;
static void query(T& t, int r, int j, int* q, double* x)
{
    q[0] = t.size(); q[1] = t.dataSize(); q[2] = t.empty();
    q[3] = t.rowSize(r);
    const T& ct = t;
    T::row_type row = ct[r];
    T::mutable_row_type mrow = t[r];
    q[4] = int(row.end() - row.begin());
    q[5] = int(mrow.end() - mrow.begin());
    if (j < q[3]) { x[0] = row.begin()[j]; x[1] = mrow.begin()[j]; }
}
extern "C" {
void h_st(const double* d, int nd, const int* rs, int nr, int r, int j, int* q, double* x)
{ T t(d, d + nd, rs, rs + nr); query(t, r, j, q, x); }
void h_st_assign(const double* d, int nd, const int* rs, int nr, const double* d0, int nd0, int r, int j, int* q, double* x)
{ T t; t.appendRow(d0, d0 + nd0); t.assign(d, d + nd, rs, rs + nr); query(t, r, j, q, x); }
void h_st_append(const double* d, int nd, const int* rs, int nr, const double* d1, int n1, int r, int j, int* q, double* x)
{ T t(d, d + nd, rs, rs + nr); t.appendRow(d1, d1 + n1); query(t, r, j, q, x); }
void h_st_append0(const double* d, int nd, const double* d1, int n1, int used, int r, int j, int* q, double* x)
{ T t; if (used) { t.appendRow(d, d + nd); t.clear(); } t.reserve(2, nd + n1); t.appendRow(d, d + nd); t.appendRow(d1, d1 + n1); query(t, r, j, q, x); }
void h_st_alloc(const int* rs, int nr, int r, int j, double y, int* q, double* x, int* p, double* z)
{ T t; t.allocate(rs, rs + nr); query(t, r, j, p, z); if (j < t.rowSize(r)) t[r].begin()[j] = y; query(t, r, j, q, x); }
int h_st_size(const double* d, int nd, const int* rs, int nr, int* q)
{
    T t; q[0] = t.size(); q[1] = t.dataSize(); q[2] = t.empty();
    T s(d, d + nd, rs, rs + nr); t.swap(s);
    if (!s.empty() || s.size() != 0 || s.dataSize() != 0) return 0;
    q[3] = t.size();
    t.clear(); return t.size() == 0 && t.dataSize() == 0 && t.empty();
}
int h_st_eq(const double* d, int nd, const int* rs, int nr, const double* e, int ne, const int* ss, int ns)
{ T t(d, d + nd, rs, rs + nr), u(e, e + ne, ss, ss + ns); return t == u; }
double h_sv(int sz, const double* d, const int* ix, int n, int i, int k, int* out)
{
    V v(sz, d, d + n, ix, ix + n);
    out[0] = v.size(); out[1] = v.nonzeroSize(); out[2] = v.empty(); out[3] = k < n ? v.nonzeroIndex(k) : -1;
    return v.element(i);
}
double h_sv_nz(int sz, const double* d, const int* ix, int n, int k) { V v(sz, d, d + n, ix, ix + n); return v.nonzeroElement(k); }
double h_sv_add(int sz, const double* d, const int* ix, int n, double e, int at, int i, int* out)
{
    V v(sz, d, d + n, ix, ix + n);
    v.addElement(e, at);
    out[0] = v.size(); out[1] = v.nonzeroSize(); out[2] = v.empty(); out[3] = v.nonzeroIndex(n);
    return v.element(i);
}
double h_sv_add0(int sz, double e, int at, int i, int* out)
{
    V v(sz);
    v.addElement(e, at);
    out[0] = v.size(); out[1] = v.nonzeroSize(); out[2] = v.empty(); out[3] = v.nonzeroIndex(0);
    return v.element(i);
}
int h_sv_clear(int sz, const double* d, const int* ix, int n) { V v(sz, d, d + n, ix, ix + n); v.clear(); return v.size() == 0 && v.empty() && v.nonzeroSize() == 0; }
int h_sv_eq(int sz, const double* d, const int* ix, int n, int sz2, const double* e, const int* jx, int m)
{ V v(sz, d, d + n, ix, ix + n), w(sz2, e, e + m, jx, jx + m); return v == w; }
}
