// C entry points for the simulation timer: every operation from an arbitrary state
#include "vp.h"
#include "params.h"
#include <iosfwd>
#include <boost/date_time/gregorian/gregorian.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <new>
#define private public
#include <opm/core/simulator/SimulatorTimer.hpp>
#undef private
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
using namespace Opm;
struct Timer {
    union { SimulatorTimer t; };
    Timer(const double* dt, int n, int cur, double time, double total)
    { new (&t.timesteps_) std::vector<double>(dt, dt + n); t.current_step_ = cur; t.current_time_ = time; t.total_time_ = total; new (&t.start_date_) int(0); }
    ~Timer() { }
};
struct Deck { union { EclipseGridParser d; }; Deck() { } ~Deck() { } };
static void look(const SimulatorTimer& t, int* q, double* x)
{
    q[0] = t.numSteps(); q[1] = t.currentStepNum(); q[2] = t.done();
    x[0] = t.currentTime(); x[1] = t.totalTime();
    if (!t.done()) x[2] = t.currentStepLength();
}
extern "C" {
void h_look(const double* dt, int n, int cur, double time, double total, int* q, double* x) { Timer m(dt, n, cur, time, total); look(m.t, q, x); }
double h_length(const double* dt, int n, int cur, double time, double total) { Timer m(dt, n, cur, time, total); return m.t.currentStepLength(); }
void h_next(const double* dt, int n, int cur, double time, double total, int* q, double* x) { Timer m(dt, n, cur, time, total); ++m.t; look(m.t, q, x); }
void h_set(const double* dt, int n, int cur, double time, double total, int step, int* q, double* x) { Timer m(dt, n, cur, time, total); m.t.setCurrentStepNum(step); look(m.t, q, x); }
void h_total(const double* dt, int n, int cur, double time, double total, double total2, int* q, double* x) { Timer m(dt, n, cur, time, total); m.t.setTotalTime(total2); look(m.t, q, x); }
void h_init(const double* dt, int n, int cur, double time, double total, const int* has, const double* val, int k, int* q, double* x, double* step)
{
    static const char* const names[2] = { "num_psteps", "stepsize_days" };
    VP_PARAMS(names, 0, has, val);
    Timer m(dt, n, cur, time, total); parameter::ParameterGroup p; m.t.init(p); m.t.setCurrentStepNum(0); look(m.t, q, x); *step = m.t.timesteps_[k];
}
void h_init_deck(const double* dt, int n, int cur, double time, double total, const double* dt2, int n2, int k, int* q, double* x, double* step)
{
    Timer m(dt, n, cur, time, total); Deck e; int date = 0; new (&e.d.tstep.tstep_) std::vector<double>(dt2, dt2 + n2); e.d.start = (boost::gregorian::date*) &date;
    m.t.init(e.d); m.t.setCurrentStepNum(0); look(m.t, q, x); *step = m.t.timesteps_[k];
}
void h_new(int* q, double* x) { SimulatorTimer t; q[0] = t.numSteps(); q[1] = t.currentStepNum(); q[2] = t.done(); x[0] = t.currentTime(); }
}
