// C entry points for the functions under contract in miscUtilities.cpp
#include "vp.h"
#include "opm/core/utility/miscUtilities.cpp"
using namespace Opm;
typedef std::vector<double> V;
typedef std::vector<int> VI;
#include "props.h"
extern "C" {
int h_porevolume(const UnstructuredGrid* g, const double* poro, int oldsize, double* out)
{ V pv(oldsize, 7.0); computePorevolume(*g, poro, pv); vp_out(pv, out, g->number_of_cells); return pv.size(); }
void h_satvol(const double* pv, int nc, const double* s, int ns, double* out)
{ V a(pv, pv + nc), b(s, s + ns); computeSaturatedVol(a, b, out); }
void h_avesat(const double* pv, int nc, const double* s, int ns, double* out)
{ V a(pv, pv + nc), b(s, s + ns); computeAverageSat(a, b, out); }
int h_tosw(const double* sb, int n, double* out)
{ V a(sb, sb + n), b; toWaterSat(a, b); vp_out(b, out, b.size()); return b.size(); }
int h_toboth(const double* sw, int n, double* out)
{ V a(sw, sw + n), b; toBothSat(a, b); vp_out(b, out, b.size()); return b.size(); }
void h_injprod(int nc, int np, const double* kr, const double* mu, const double* s, const double* src, double dt, double* inj, double* prod)
{ Props pr(nc, np, kr, mu, mu); V ss(s, s + nc*np), q(src, src + nc); computeInjectedProduced(pr, ss, q, dt, inj, prod); }
int h_totmob(int n, int nc, int np, const double* kr, const double* mu, const double* rho, const int* cells, const double* s, int which, double* out, double* out2)
{
    Props pr(nc, np, kr, mu, rho); VI cl(cells, cells + n); V ss(s, s + n*np), m, o;
    if (which == 0) { computePhaseMobilities(pr, cl, ss, m); vp_out(m, out, n*np); }
    else if (which == 1) { computeTotalMobility(pr, cl, ss, m); vp_out(m, out, n); }
    else if (which == 2) { computeTotalMobilityOmega(pr, cl, ss, m, o); vp_out(m, out, n); vp_out(o, out2, n); }
    else { computeFractionalFlow(pr, cl, ss, m); vp_out(m, out, n*np); }
    return m.size();
}
int h_cellvel(const UnstructuredGrid* g, const double* flux, double* out)
{ V f(flux, flux + g->number_of_faces), v; estimateCellVelocity(*g, f, v); vp_out(v, out, v.size()); return v.size(); }
int h_tsrc(const UnstructuredGrid* g, const double* src, const double* flux, double frac, const struct Wells* W, const double* perf, int nperf, double* out)
{ V s(src, src + g->number_of_cells), f(flux, flux + g->number_of_faces), p(perf, perf + nperf), t; computeTransportSource(*g, s, f, frac, W, p, t); vp_out(t, out, g->number_of_cells); return t.size(); }
int h_wellrates(int nw, const int* pos, const double* q, int nq, double* out)
{ Wells w = Wells(); w.number_of_wells = nw; w.well_connpos = const_cast<int*>(pos); V a(q, q + nq), b; computeFlowRatePerWell(w, a, b); vp_out(b, out, nw); return b.size(); }
int h_wellphases(int nw, int np, const int* pos, const int* cells, const double* q, int nq, const double* ff, int nf, int old, double* out)
{ Wells w = Wells(); w.number_of_wells = nw; w.number_of_phases = np; w.well_connpos = const_cast<int*>(pos); w.well_cells = const_cast<int*>(cells); V a(q, q + nq), f(ff, ff + nf), b(old, 7.0); computePhaseFlowRatesPerWell(w, a, f, b); vp_out(b, out, nw*np); return b.size(); }
}
