// C entry points for the one-dimensional tables
#include "vp.h"
#include <opm/core/utility/linearInterpolation.hpp>
#include <opm/core/utility/UniformTableLinear.hpp>
#include <opm/core/utility/NonuniformTableLinear.hpp>
using namespace Opm;
typedef std::vector<double> V;
typedef UniformTableLinear<double> U;
typedef NonuniformTableLinear<double> N;
extern "C" {
int h_index(const double* x, int n, double a) { V t(x, x + n); return tableIndex(t, a); }
double h_lin(const double* x, const double* y, int n, double a) { V t(x, x + n), u(y, y + n); return linearInterpolation(t, u, a); }
double h_lin_at(const double* x, const double* y, int n, double a, int* ix) { V t(x, x + n), u(y, y + n); return linearInterpolation(t, u, a, *ix); }
double h_lin_der(const double* x, const double* y, int n, double a) { V t(x, x + n), u(y, y + n); return linearInterpolationDerivative(t, u, a); }
double h_uni(double lo, double hi, const double* y, int n, double a) { V u(y, y + n); U t(lo, hi, u); return t(a); }
double h_uni_ptr(double lo, double hi, const double* y, int n, double a) { U t(lo, hi, y, n); return t(a); }
double h_uni_der(double lo, double hi, const double* y, int n, double a) { V u(y, y + n); U t(lo, hi, u); return t.derivative(a); }
double h_uni_rescaled(double lo, double hi, const double* y, int n, double a, double lo2, double hi2)
{ V u(y, y + n); U t(lo, hi, u); t.rescaleDomain(std::make_pair(lo2, hi2)); return t(a); }
void h_uni_domain(double lo, double hi, const double* y, int n, double lo2, double hi2, double* out)
{ V u(y, y + n); U t(lo, hi, u); out[0] = t.domain().first; out[1] = t.domain().second; t.rescaleDomain(std::make_pair(lo2, hi2)); out[2] = t.domain().first; out[3] = t.domain().second; }
double h_non(const double* x, const double* y, int n, double a) { V t(x, x + n), u(y, y + n); N f(t, u); return f(a); }
double h_non_der(const double* x, const double* y, int n, double a) { V t(x, x + n), u(y, y + n); N f(t, u); return f.derivative(a); }
double h_non_inv(const double* x, const double* y, int n, double a) { V t(x, x + n), u(y, y + n); N f(t, u); return f.inverse(a); }
double h_non_inv2(const double* x, const double* y, int n, double a, double b) { V t(x, x + n), u(y, y + n); N f(t, u); f.inverse(b); return f.inverse(a); }
double h_non_rescaled(const double* x, const double* y, int n, double a, double lo, double hi)
{ V t(x, x + n), u(y, y + n); N f(t, u); f.rescaleDomain(std::make_pair(lo, hi)); return f(a); }
double h_non_rescaled_inv(const double* x, const double* y, int n, double a, double lo, double hi)
{ V t(x, x + n), u(y, y + n); N f(t, u); f.inverse(a); f.rescaleDomain(std::make_pair(lo, hi)); return f.inverse(a); }
void h_non_domain(const double* x, const double* y, int n, double lo, double hi, double* out)
{ V t(x, x + n), u(y, y + n); N f(t, u); out[0] = f.domain().first; out[1] = f.domain().second; f.rescaleDomain(std::make_pair(lo, hi)); out[2] = f.domain().first; out[3] = f.domain().second; }
int h_mono(const double* x, int n) { return isNondecreasing(x, x + n); }
}
