// C entry points for the initial states
#include "vp.h"
#include <opm/core/grid.h>
#include <opm/core/wells.h>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPhases.hpp>
#define private public
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#undef private
using namespace Opm;
namespace {
    // saturation ranges are an arbitrary function of the cell, given by tables
    template <class I> struct Range : public I {
        int nc, np; const double *lo, *hi;
        Range(int a, int b, const double* l, const double* h) : nc(a), np(b), lo(l), hi(h) {}
        int numDimensions() const { return 3; }
        int numCells() const { return nc; }
        const double* porosity() const { return 0; }
        const double* permeability() const { return 0; }
        int numPhases() const { return np; }
        void relperm(const int, const double*, const int*, double*, double*) const {}
        void capPress(const int, const double*, const int*, double*, double*) const {}
        void satRange(const int n, const int* cells, double* smin, double* smax) const
        { for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) { smin[i*np + p] = lo[cells[i]*np + p]; smax[i*np + p] = hi[cells[i]*np + p]; } }
    };
    struct Incomp : public Range<IncompPropertiesInterface> {
        Incomp(int a, int b, const double* l, const double* h) : Range<IncompPropertiesInterface>(a, b, l, h) {}
        const double* viscosity() const { return 0; }
        const double* density() const { return 0; }
        const double* surfaceDensity() const { return 0; }
    };
    struct Blackoil : public Range<BlackoilPropertiesInterface> {
        Blackoil(int a, int b, const double* l, const double* h) : Range<BlackoilPropertiesInterface>(a, b, l, h) {}
        PhaseUsage phaseUsage() const { return PhaseUsage(); }
        void viscosity(const int, const double*, const double*, const int*, double*, double*) const {}
        void matrix(const int, const double*, const double*, const int*, double*, double*) const {}
        void density(const int, const double*, double*) const {}
        const double* surfaceDensity() const { return 0; }
    };
}
template <class S> static void init(const UnstructuredGrid* g, int np, int* q, double* p, double* f, double* u, double* s)
{
    S t; t.init(*g, np);
    q[0] = t.numPhases(); q[1] = t.pressure().size(); q[2] = t.facepressure().size(); q[3] = t.faceflux().size(); q[4] = t.saturation().size();
    vp_out(t.pressure(), p, g->number_of_cells); vp_out(t.facepressure(), f, g->number_of_faces); vp_out(t.faceflux(), u, g->number_of_faces); vp_out(t.saturation(), s, np*g->number_of_cells);
}
template <class S, class P> static void first(int nc, int np, const double* s0, const int* cells, int n, const double* lo, const double* hi, int which, double* s)
{
    S t; P pr(nc, np, lo, hi); std::vector<int> cl(cells, cells + n);
    t.num_phases_ = np; t.sat_ = std::vector<double>(s0, s0 + nc*np);
    t.setFirstSat(cl, pr, which ? S::MaxSat : S::MinSat);
    vp_out(t.saturation(), s, nc*np);
}
template <class S> static void well(const struct Wells* W, const double* p, int nc, int nw, int np, int* q, double* bhp, double* rate, double* press)
{
    S t; t.press_ = std::vector<double>(p, p + nc);
    WellState w; w.init(W, t);
    q[0] = w.bhp().size(); q[1] = w.perfRates().size(); q[2] = w.perfPress().size();
    vp_out(w.bhp(), bhp, nw); vp_out(w.perfRates(), rate, np); vp_out(w.perfPress(), press, np);
}
extern "C" {
void h_init2(const UnstructuredGrid* g, int np, int* q, double* p, double* f, double* u, double* s) { init<TwophaseState>(g, np, q, p, f, u, s); }
void h_initb(const UnstructuredGrid* g, int np, int* q, double* p, double* f, double* u, double* s) { init<BlackoilState>(g, np, q, p, f, u, s); }
void h_first2(int nc, int np, const double* s0, const int* cells, int n, const double* lo, const double* hi, int which, double* s) { first<TwophaseState, Incomp>(nc, np, s0, cells, n, lo, hi, which, s); }
void h_firstb(int nc, int np, const double* s0, const int* cells, int n, const double* lo, const double* hi, int which, double* s) { first<BlackoilState, Blackoil>(nc, np, s0, cells, n, lo, hi, which, s); }
void h_well2(const struct Wells* W, const double* p, int nc, int nw, int np, int* q, double* bhp, double* rate, double* press) { well<TwophaseState>(W, p, nc, nw, np, q, bhp, rate, press); }
void h_wellb(const struct Wells* W, const double* p, int nc, int nw, int np, int* q, double* bhp, double* rate, double* press) { well<BlackoilState>(W, p, nc, nw, np, q, bhp, rate, press); }
}
