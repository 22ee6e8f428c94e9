// C entry points for the discontinuous Galerkin bases and the quadratures
#include "vp.h"
#include <cmath>
#include <numeric>
#include <opm/core/grid.h>
#include <opm/core/utility/ErrorMacros.hpp>
#include "opm/core/tof/DGBasis.cpp"
#include "opm/core/grid/CellQuadrature.hpp"
#include "opm/core/grid/FaceQuadrature.hpp"
using namespace Opm;
typedef UnstructuredGrid G;
#define ENTRIES(B, P) \
int P##_nb(const G* g, int deg) { B b(*g, deg); return b.numBasisFunc(); } \
int P##_deg(const G* g, int deg) { B b(*g, deg); return b.degree(); } \
int P##_dim(const G* g, int deg) { B b(*g, deg); return b.dimensions(); } \
void P##_eval(const G* g, int deg, int cell, const double* x, double* f) { B b(*g, deg); b.eval(cell, x, f); } \
void P##_grad(const G* g, int deg, int cell, const double* x, double* f) { B b(*g, deg); b.evalGrad(cell, x, f); } \
double P##_func(const G* g, int deg, int cell, const double* c, const double* x) { B b(*g, deg); return b.evalFunc(cell, c, x); } \
void P##_add(const G* g, int deg, double inc, double* c) { B b(*g, deg); b.addConstant(inc, c); } \
void P##_mul(const G* g, int deg, double fac, double* c) { B b(*g, deg); b.multiplyGradient(fac, c); } \
double P##_avg(const G* g, int deg, const double* c) { B b(*g, deg); return b.functionAverage(c); }
extern "C" {
ENTRIES(DGBasisBoundedTotalDegree, h_tot)
ENTRIES(DGBasisMultilin, h_mul)
int h_cq_n(const G* g, int cell, int deg) { CellQuadrature q(*g, cell, deg); return q.numQuadPts(); }
void h_cq_x(const G* g, int cell, int deg, int i, double* x) { CellQuadrature q(*g, cell, deg); q.quadPtCoord(i, x); }
double h_cq_w(const G* g, int cell, int deg, int i) { CellQuadrature q(*g, cell, deg); return q.quadPtWeight(i); }
int h_fq_n(const G* g, int face, int deg) { FaceQuadrature q(*g, face, deg); return q.numQuadPts(); }
void h_fq_x(const G* g, int face, int deg, int i, double* x) { FaceQuadrature q(*g, face, deg); q.quadPtCoord(i, x); }
double h_fq_w(const G* g, int face, int deg, int i) { FaceQuadrature q(*g, face, deg); return q.quadPtWeight(i); }
}
