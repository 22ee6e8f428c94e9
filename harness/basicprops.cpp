// C entry points for the basic rock and fluid properties
#include "vp.h"
#include "params.h"
#include <iosfwd>
#include <string>
#include <opm/core/utility/ErrorMacros.hpp>
#include <opm/core/grid.h>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#define private public
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#undef private
#include "opm/core/props/satfunc/SaturationPropsBasic.cpp"
#include "opm/core/props/pvt/PvtPropertiesBasic.cpp"
#include "opm/core/props/rock/RockBasic.cpp"
#include "opm/core/props/rock/RockCompressibility.cpp"
#include "opm/core/props/IncompPropertiesBasic.cpp"
#include "opm/core/props/BlackoilPropertiesBasic.cpp"
using namespace Opm;
typedef std::vector<double> V;
#ifndef __clang__
static const char* const names10[10] = { "num_phases", "relperm_func", "porosity", "permeability", "rho1", "rho2", "rho3", "mu1", "mu2", "mu3" };
static const char* const funcs[4] = { "Constant", "Linear", "Quadratic", "Cubic" };
#endif
struct Sat { SaturationPropsBasic s; Sat(int np, int func) { s.init(np, SaturationPropsBasic::RelPermFunc(func)); } };
static void pvt(PvtPropertiesBasic& p, int np, const double* rho, const double* mu) { p.init(np, V(rho, rho + np), V(mu, mu + np)); }
extern "C" {
void h_relperm(int np, int func, int n, const double* s, double* kr, double* dkrds) { Sat(np, func).s.relperm(n, s, kr, dkrds); }
void h_cappress(int np, int func, int n, const double* s, double* pc, double* dpcds) { Sat(np, func).s.capPress(n, s, pc, dpcds); }
void h_satrange(int np, int func, int n, double* lo, double* hi, int* q) { Sat x(np, func); SaturationPropsBasic& s = x.s; q[0] = s.numPhases(); s.satRange(n, lo, hi); }
void h_pvt(int np, const double* rho, const double* mu, int n, const double* p, const double* z, int* q, double* dens, double* m, double* b, double* b2, double* db, double* r, double* r2, double* dr)
{
    PvtPropertiesBasic x; pvt(x, np, rho, mu); q[0] = x.numPhases();
    const double* d = x.surfaceDensities(); for (int i = 0; i < np; ++i) dens[i] = d[i];
    x.mu(n, p, z, m); x.B(n, p, z, b); x.dBdp(n, p, z, b2, db); x.R(n, p, z, r); x.dRdp(n, p, z, r2, dr);
}
void h_pvt_bad(int np, const double* rho, const double* mu, int m) { PvtPropertiesBasic x; x.init(np, V(rho, rho + m), V(mu, mu + m)); }
void h_rock(int dim, int nc, double poro, double perm, int* q, double* po, double* pe)
{ RockBasic r; r.init(dim, nc, poro, perm); q[0] = r.numDimensions(); q[1] = r.numCells(); std::copy(r.porosity(), r.porosity() + nc, po); std::copy(r.permeability(), r.permeability() + nc*dim*dim, pe); }
void h_comp(const int* has, const double* val, double p, int* q, double* x)
{
    static const char* const names[2] = { "rock_compressibility_pref", "rock_compressibility" };
    VP_PARAMS(names, 0, has, val);
    parameter::ParameterGroup g; RockCompressibility r(g); q[0] = r.isActive(); x[0] = r.poroMult(p); x[1] = r.rockComp(p);
}
struct Tab { union { RockCompressibility r; }; Tab(const double* pp, const double* mm, int n) { new (&r.p_) V(pp, pp + n); new (&r.poromult_) V(mm, mm + n); r.pref_ = 0; r.rock_comp_ = 0; } ~Tab() { } };
double h_comp_mult(const double* pp, const double* mm, int n, double p) { Tab t(pp, mm, n); return t.r.poroMult(p); }
double h_comp_rate(const double* pp, const double* mm, int n, double p) { Tab t(pp, mm, n); return t.r.rockComp(p); }
int h_comp_active(const double* pp, const double* mm, int n) { Tab t(pp, mm, n); return t.r.isActive(); }
void h_comp_deck(const double* pp, const double* mm, int n, const double* rock, int has_tab, int has_rock, double* pp2, double* mm2, int* q, double* x)
{
    struct Deck { union { EclipseGridParser d; }; Deck() { } ~Deck() { } } e;
    e.d.has_rocktab = has_tab; e.d.has_rock = has_rock;
    std::vector<V> tab(2); tab[0] = V(pp, pp + n); tab[1] = V(mm, mm + n);
    new (&e.d.rocktab.rocktab_) table_t(1, tab); new (&e.d.rock.rock_compressibilities_) std::vector<V>(1, V(rock, rock + 2));
    RockCompressibility r(e.d); q[0] = r.isActive(); q[1] = r.p_.size(); q[2] = r.poromult_.size();
    std::copy(r.p_.begin(), r.p_.end(), pp2); std::copy(r.poromult_.begin(), r.poromult_.end(), mm2); x[0] = r.pref_; x[1] = r.rock_comp_;
}
void h_incomp(int np, int func, const double* rho, const double* mu, int nr, double poro, double perm, int dim, int nc, int* q, double* dens, double* visc, double* po, double* pe)
{
    IncompPropertiesBasic b(np, SaturationPropsBasic::RelPermFunc(func), V(rho, rho + nr), V(mu, mu + nr), poro, perm, dim, nc);
    q[0] = b.numPhases(); q[1] = b.numDimensions(); q[2] = b.numCells(); q[3] = b.density() == b.surfaceDensity();
    for (int i = 0; i < np; ++i) { dens[i] = b.density()[i]; visc[i] = b.viscosity()[i]; }
    std::copy(b.porosity(), b.porosity() + nc, po); std::copy(b.permeability(), b.permeability() + nc*dim*dim, pe);
}
void h_incomp_sat(int np, int func, const double* rho, const double* mu, int n, const double* s, const int* cells, double* kr, double* dkr, double* pc, double* dpc, double* lo, double* hi)
{
    IncompPropertiesBasic b(np, SaturationPropsBasic::RelPermFunc(func), V(rho, rho + np), V(mu, mu + np), 0.5, 1.0, 1, 1);
    b.relperm(n, s, cells, kr, dkr); b.capPress(n, s, cells, pc, dpc); b.satRange(n, cells, lo, hi);
}
void h_bo_matrix(const int* has, const double* val, int n, const double* p, const double* z, const int* cells, double* A, double* dAdp)
{ VP_PARAMS(names10, funcs, has, val); parameter::ParameterGroup g; BlackoilPropertiesBasic b(g, 1, 1); b.matrix(n, p, z, cells, A, dAdp); }
void h_bo_density(const int* has, const double* val, int n, const double* A, double* out)
{ VP_PARAMS(names10, funcs, has, val); parameter::ParameterGroup g; BlackoilPropertiesBasic b(g, 1, 1); b.density(n, A, out); }
void h_bo_visc(const int* has, const double* val, int n, const double* p, const double* z, const int* cells, double* out, double* d)
{ VP_PARAMS(names10, funcs, has, val); parameter::ParameterGroup g; BlackoilPropertiesBasic b(g, 1, 1); b.viscosity(n, p, z, cells, out, d); }
void h_bo_sat(const int* has, const double* val, int n, const double* s, const int* cells, double* kr, double* dkr, double* pc, double* dpc, double* lo, double* hi)
{ VP_PARAMS(names10, funcs, has, val); parameter::ParameterGroup g; BlackoilPropertiesBasic b(g, 1, 1); b.relperm(n, s, cells, kr, dkr); b.capPress(n, s, cells, pc, dpc); b.satRange(n, cells, lo, hi); }
// the constructors reading parameters
void h_incomp_par(const int* has, const double* val, int func, int dim, int nc, int* q, double* dens, double* visc, double* po, double* pe, double* kr, const double* s)
{
    VP_PARAMS(names10, funcs, has, val); (void)func;
    parameter::ParameterGroup g; IncompPropertiesBasic b(g, dim, nc);
    int np = q[0] = b.numPhases(); q[1] = b.numDimensions(); q[2] = b.numCells();
    for (int i = 0; i < np; ++i) { dens[i] = b.density()[i]; visc[i] = b.viscosity()[i]; }
    std::copy(b.porosity(), b.porosity() + nc, po); std::copy(b.permeability(), b.permeability() + nc*dim*dim, pe);
    b.relperm(nc, s, 0, kr, 0);
}
void h_bo_par(const int* has, const double* val, int func, int dim, int nc, int* q, double* dens, double* visc, double* po, double* pe, double* kr, const double* s)
{
    VP_PARAMS(names10, funcs, has, val); (void)func;
    parameter::ParameterGroup g; BlackoilPropertiesBasic b(g, dim, nc);
    int np = q[0] = b.numPhases(); q[1] = b.numDimensions(); q[2] = b.numCells();
    b.viscosity(1, 0, 0, 0, visc, 0);
    for (int i = 0; i < np; ++i) { dens[i] = b.surfaceDensity()[i]; }
    std::copy(b.porosity(), b.porosity() + nc, po); std::copy(b.permeability(), b.permeability() + nc*dim*dim, pe);
    b.relperm(nc, s, 0, kr, 0);
}
}
