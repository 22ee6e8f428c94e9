// FlowBCManager on conditions with enough room; flow_conditions_* are replaced by their contracts (proved for flow_bc.c)
#include "vp.h"
#include <string>
#include <cstring>
#include <vector>
#define private public
#include <opm/core/pressure/FlowBCManager.cpp>
#undef private
static FlowBoundaryConditions* vp_bc;
static int vp_ok;
extern "C" {
struct FlowBoundaryConditions* flow_conditions_construct(size_t) { return vp_bc; }
void flow_conditions_destroy(struct FlowBoundaryConditions*) { }
void flow_conditions_clear(struct FlowBoundaryConditions* b) { b->nbc = 0; }
int flow_conditions_append_multi(enum FlowBCType type, size_t n, const int* faces, double value, struct FlowBoundaryConditions* b)
{
    if (!vp_ok) return 0;
    const size_t k = b->nbc, p = b->cond_pos[k];
    std::memcpy(b->face + p, faces, n*sizeof(int));
    b->type[k] = type; b->value[k] = value; b->cond_pos[k + 1] = p + n; b->nbc = k + 1;
    return 1;
}
int flow_conditions_append(enum FlowBCType type, int face, double value, struct FlowBoundaryConditions* b)
{ return flow_conditions_append_multi(type, 1, &face, value, b); }
void h_pressure_side(const UnstructuredGrid* g, int side, double x, FlowBoundaryConditions* b, int ok)
{ vp_bc = b; vp_ok = ok; Opm::FlowBCManager m; m.pressureSide(*g, Opm::FlowBCManager::Side(side), x); }
void h_flux_side(const UnstructuredGrid* g, int side, double x, FlowBoundaryConditions* b, int ok)
{ vp_bc = b; vp_ok = ok; Opm::FlowBCManager m; m.fluxSide(*g, Opm::FlowBCManager::Side(side), x); }
void h_append(int type, int face, double x, FlowBoundaryConditions* b, int ok)
{ vp_bc = b; vp_ok = ok; Opm::FlowBCManager m; m.append(FlowBCType(type), face, x); }
void h_clear(FlowBoundaryConditions* b) { vp_bc = b; Opm::FlowBCManager m; m.clear(); }
int h_same(FlowBoundaryConditions* b) { vp_bc = b; Opm::FlowBCManager m; return m.c_bcs() == b; }
}
