/* histories of a well container, compared with plain arrays (contract C02; bounded) */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "opm/core/wells.h"
#define MW 12
#define MP 64
#define MC 16
struct ref { int n, np; int type[MW]; double depth[MW], frac[MW][3]; int np_[MW], cells[MW][8]; double WI[MW][8]; int named[MW]; char name[MW][8];
  int nc[MW], cur[MW], ct[MW][MC]; double tg[MW][MC], di[MW][MC][3]; };
static int soft; /* something failed that may only fail without memory */
static int same(const struct Wells *W, const struct ref *R)
{
    int w, p, k, c, pos = 0;
    if (W->number_of_wells != R->n || W->number_of_phases != R->np) return 10;
    if (W->well_connpos[0] != 0) return 11;
    for (w = 0; w < R->n; w++) {
        const struct WellControls *C = W->ctrls[w];
        if ((int) W->type[w] != R->type[w] || W->depth_ref[w] != R->depth[w]) return 12;
        for (p = 0; p < R->np; p++) if (W->comp_frac[w * R->np + p] != R->frac[w][p]) return 13;
        if (W->well_connpos[w + 1] != pos + R->np_[w]) return 14;
        for (k = 0; k < R->np_[w]; k++) if (W->well_cells[pos + k] != R->cells[w][k] || W->WI[pos + k] != R->WI[w][k]) return 15;
        pos += R->np_[w];
        if (! R->named[w] ? W->name[w] != NULL : W->name[w] == NULL ? (soft = 30, 0) : strcmp(W->name[w], R->name[w]) != 0) return 16;
        if (C == NULL) return 17;
        if (C->num != R->nc[w] || C->current != R->cur[w]) return 18;
        for (c = 0; c < C->num; c++) {
            if ((int) C->type[c] != R->ct[w][c] || C->target[c] != R->tg[w][c]) return 19;
            for (p = 0; p < R->np; p++) if (C->distr[c * R->np + p] != R->di[w][c][p]) return 20;
        }
    }
    return 0;
}
/* independent: no array is shared */
static int shared(const struct Wells *A, const struct Wells *B)
{
    int w;
#define SH(f) (A->f != NULL && (void *) A->f == (void *) B->f)
    if (SH(type) || SH(depth_ref) || SH(comp_frac) || SH(well_connpos) || SH(ctrls) || SH(name)) return 1;
    if ((A->WI && A->WI == B->WI) || (A->well_cells && A->well_cells == B->well_cells)) return 1;
    for (w = 0; w < A->number_of_wells; w++) {
        if (A->ctrls[w] == B->ctrls[w] || (A->name[w] && A->name[w] == B->name[w])) return 1;
        if (A->ctrls[w]->distr && A->ctrls[w]->distr == B->ctrls[w]->distr) return 1;
        if (A->ctrls[w]->type && A->ctrls[w]->type == B->ctrls[w]->type) return 1;
    }
    return 0;
}
/* script: triples (operation, a, b); returns 0, the number of the first difference (>= 5), or 1..4, 30 if something failed without a difference */
int vp_history(int np, int nw0, int np0, int n, const int *script)
{
    struct ref *R = calloc(1, sizeof *R);
    struct Wells *W, *V;
    int e = 0, i, k, p, ok, w, code = 0;
    double fr[3], di[3], wi[8];
    int cells[8];
    char nm[8];
    soft = 0;
    if (R == NULL) return 1;
    R->np = np;
    W = create_wells(np, nw0, np0);
    if (W == NULL) { free(R); return 1; }
    for (i = 0; i < n && ! code; i++) {
        const int op = script[3*i], a = script[3*i + 1], b = script[3*i + 2];
        if ((op == 0 || op == 1) && R->n < MW) {           /* add a well; a: perforations, b: optional parts */
            const int m = a % 6; w = R->n;
            for (p = 0; p < np; p++) fr[p] = ++e;
            for (k = 0; k < m; k++) { cells[k] = ++e; wi[k] = ++e + 0.5; }
            sprintf(nm, "W%d", w);
            ok = add_well(b & 1 ? INJECTOR : PRODUCER, e, m, b & 2 ? fr : NULL, cells, b & 4 ? wi : NULL, b & 8 ? nm : NULL, W);
            if (! ok) soft = 2;
            if (ok) {
                R->type[w] = b & 1 ? INJECTOR : PRODUCER; R->depth[w] = e; R->np_[w] = m; R->named[w] = (b & 8) != 0; strcpy(R->name[w], nm);
                for (p = 0; p < np; p++) R->frac[w][p] = b & 2 ? fr[p] : 0.0;
                for (k = 0; k < m; k++) { R->cells[w][k] = cells[k]; R->WI[w][k] = b & 4 ? wi[k] : 0.0; }
                R->nc[w] = 0; R->cur[w] = -1; R->n++;
            }
        } else if ((op == 2 || op == 3) && R->n > 0) {      /* append a control */
            w = a % R->n;
            if (R->nc[w] == MC) continue;
            for (p = 0; p < np; p++) di[p] = ++e;
            ok = append_well_controls((enum WellControlType) (b % 3), ++e, b & 4 ? di : NULL, w, W);
            if (! ok) soft = 3;
            if (ok) {
                R->ct[w][R->nc[w]] = b % 3; R->tg[w][R->nc[w]] = e;
                for (p = 0; p < np; p++) R->di[w][R->nc[w]][p] = b & 4 ? di[p] : 0.0;
                R->nc[w]++;
            }
        } else if (op == 4 && R->n > 0) {
            w = a % R->n; k = b % (R->nc[w] + 1) - 1;
            set_current_control(w, k, W); R->cur[w] = k;
        } else if (op == 5 && R->n > 0) {
            w = a % R->n; clear_well_controls(w, W); R->nc[w] = 0; R->cur[w] = -1;
        } else if (op == 6) {                                /* clone; go on with the clone or the original */
            V = clone_wells(W);
            if (V == NULL) { soft = 4; }
            else {
                if (! code) code = same(V, R);
                if (! code) code = same(W, R);
                if (! code && shared(V, W)) code = 5;
                if (b & 1) { struct Wells *t = V; V = W; W = t; }
                destroy_wells(V);
            }
        }
        if (! code) code = same(W, R);
    }
    destroy_wells(W);
    free(R);
    return code ? code : soft;
}
