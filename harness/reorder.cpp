// C entry points for the static functions of the reordering
#include "vp.h"
#include <cassert>
#include "opm/core/transport/reorder/reordersequence.cpp"
extern "C" {
void h_upwind(int nc, const int* cf, const int* fp, const int* fc, const double* flux, int* ia, int* ja, int* work)
{ make_upwind_graph(nc, cf, fp, fc, flux, ia, ja, work); }
void h_sequence(const struct UnstructuredGrid* g, const double* flux, int* seq, int* comp, int* nc) { compute_sequence(g, flux, seq, comp, nc); }
void h_sequence_graph(const struct UnstructuredGrid* g, const double* flux, int* seq, int* comp, int* nc, int* ia, int* ja) { compute_sequence_graph(g, flux, seq, comp, nc, ia, ja); }
}
