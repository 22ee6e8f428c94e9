// C entry points for units and averages
#include "vp.h"
#include <opm/core/utility/Units.hpp>
#include <opm/core/utility/Average.hpp>
using namespace Opm;
extern "C" {
double h_from(double q, double u) { return unit::convert::from(q, u); }
double h_to(double q, double u) { return unit::convert::to(q, u); }
double h_round(double q, double u) { return unit::convert::to(unit::convert::from(q, u), u); }
double h_round2(double q, double u) { return unit::convert::from(unit::convert::to(q, u), u); }
double h_square(double q) { return unit::square(q); }
double h_cubic(double q) { return unit::cubic(q); }
double h_arith(double a, double b) { return utils::arithmeticAverage<double, double>(a, b); }
double h_geom(double a, double b) { return utils::geometricAverage(a, b); }
double h_harm(double a, double b) { return utils::harmonicAverage(a, b); }
#define U(n) out[i++] = unit::n
#define P(n) out[i++] = prefix::n
#define O(n) out[i++] = units::n
int h_units(double* out)
{
    int i = 0;
    P(micro); P(milli); P(centi); P(deci); P(kilo); P(mega); P(giga);
    U(meter); U(inch); U(feet); U(second); U(minute); U(hour); U(day); U(year); U(gallon); U(stb); U(liter);
    U(kilogram); U(pound); U(gravity); U(Newton); U(lbf); U(Pascal); U(barsa); U(atm); U(psia); U(Pas); U(Poise); U(darcy);
    O(MILLIDARCY); O(VISCOSITY_UNIT); O(DAYS2SECONDS); O(FEET); O(WELL_INDEX_UNIT);
    return i;
}
}
