// C entry points for the root finders; the function is arbitrary: vp_f
#include "vp.h"
#include <opm/core/utility/RootFinders.hpp>
using namespace Opm;
extern "C" double vp_f(double);
#ifndef __clang__       /* native runs: a few families of functions */
#include <cmath>
static const double* vp_p;
extern "C" double vp_f(double x)
{
    const double* p = vp_p;
    switch (int(p[0])) {
    case 0: return p[1]*(x - p[2]);
    case 1: return p[1]*(x - p[2])*(x - p[2])*(x - p[2]) + p[3]*(x - p[2]);
    case 2: return x < p[2] ? -p[1] : p[1];
    case 3: return p[1]*(x - p[2])*(x - p[3]);
    default: return p[1];
    }
}
static void set(const double* p) { vp_p = p; }
#else
static void set(const double*) {}
#endif
struct Fun { double operator()(double x) const { return vp_f(x); } };
extern "C" {
double h_rf_throw(const double* p, double a, double b, int n, double tol, int* it) { set(p); return RegulaFalsi<ThrowOnError>::solve(Fun(), a, b, n, tol, *it); }
double h_rf_warn(const double* p, double a, double b, int n, double tol, int* it) { set(p); return RegulaFalsi<WarnAndContinueOnError>::solve(Fun(), a, b, n, tol, *it); }
double h_rf_cont(const double* p, double a, double b, int n, double tol, int* it) { set(p); return RegulaFalsi<ContinueOnError>::solve(Fun(), a, b, n, tol, *it); }
double h_rfg_throw(const double* p, double g, double a, double b, int n, double tol, int* it) { set(p); return RegulaFalsi<ThrowOnError>::solve(Fun(), g, a, b, n, tol, *it); }
double h_rfg_warn(const double* p, double g, double a, double b, int n, double tol, int* it) { set(p); return RegulaFalsi<WarnAndContinueOnError>::solve(Fun(), g, a, b, n, tol, *it); }
double h_rfg_cont(const double* p, double g, double a, double b, int n, double tol, int* it) { set(p); return RegulaFalsi<ContinueOnError>::solve(Fun(), g, a, b, n, tol, *it); }
void h_bracket(const double* p, double x0, double dx, double* a, double* b) { set(p); bracketZero(Fun(), x0, dx, *a, *b); }
}
