/* stand-in for compute_geometry where only the node coordinates are under contract */
struct UnstructuredGrid;
void compute_geometry(struct UnstructuredGrid *g) { (void) g; }
