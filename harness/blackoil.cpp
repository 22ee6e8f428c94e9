// C entry points for the functions under contract in miscUtilitiesBlackoil.cpp
#include "vp.h"
#include <iostream>
#include <opm/core/simulator/WellState.hpp>
#include "opm/core/utility/miscUtilitiesBlackoil.cpp"
using namespace Opm;
typedef std::vector<double> V;
typedef std::vector<int> VI;
namespace {
    // arbitrary fluid: properties are arbitrary functions of the cell, given by tables, plus what they are called with
    class BProps : public BlackoilPropertiesInterface {
    public:
        int nc, np; const double *kr_, *mu_, *A_;
        BProps(int a, int b, const double* kr, const double* mu, const double* A) : nc(a), np(b), kr_(kr), mu_(mu), A_(A) {}
        int numDimensions() const { return 3; }
        int numCells() const { return nc; }
        const double* porosity() const { return 0; }
        const double* permeability() const { return 0; }
        int numPhases() const { return np; }
        void viscosity(const int n, const double* p, const double* z, const int* cells, double* mu, double* d) const
        { (void)d; for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) mu[i*np + q] = mu_[cells[i]*np + q] + p[i] + z[i*np + q]; }
        void matrix(const int n, const double*, const double*, const int* cells, double* A, double*) const
        { for (int i = 0; i < n; ++i) for (int q = 0; q < np*np; ++q) A[i*np*np + q] = A_[cells[i]*np*np + q]; }
        void density(const int, const double*, double*) const {}
        const double* surfaceDensity() const { return 0; }
        void relperm(const int n, const double* s, const int* cells, double* kr, double* d) const
        { (void)d; for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) kr[i*np + q] = kr_[cells[i]*np + q] + s[i*np + q]; }
        void capPress(const int, const double*, const int*, double*, double*) const {}
        void satRange(const int, const int*, double*, double*) const {}
    };
}
extern "C" {
void h_surfacevol(int n, int np, const double* A, const double* s, double* out) { computeSurfacevol(n, np, A, s, out); }
int h_bmob(int n, int np, const double* kr, const double* mu, const int* cells, const double* p, const double* z, const double* s, int which, double* out)
{
    BProps pr(n, np, kr, mu, mu); VI cl(cells, cells + n); V pp(p, p + n), zz(z, z + n*np), ss(s, s + n*np), m;
    if (which == 0) { computePhaseMobilities(pr, cl, pp, zz, ss, m); vp_out(m, out, n*np); }
    else if (which == 1) { computeTotalMobility(pr, cl, pp, zz, ss, m); vp_out(m, out, n); }
    else { computeFractionalFlow(pr, cl, pp, zz, ss, m); vp_out(m, out, n*np); }
    return m.size();
}
void h_binjprod(int nc, int np, const double* kr, const double* mu, const double* A, const double* p, const double* z, const double* s, const double* src, double dt, double* inj, double* prod)
{
    BProps pr(nc, np, kr, mu, A); V q(src, src + nc); BlackoilState st;
    V pp(p, p + nc), zz(z, z + nc*np), ss(s, s + nc*np);
    st.pressure() = pp; st.surfacevol() = zz; st.saturation() = ss;
    computeInjectedProduced(pr, st, q, dt, inj, prod);
}
}
