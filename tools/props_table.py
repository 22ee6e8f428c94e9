ALL = 'all argument values and table sizes allowed by the interface'
prop('C01', 'Source and boundary-condition tables never lose or corrupt entries',
 'The tables that collect transport sources, compressible source terms, pressure boundary conditions and flow boundary conditions keep every entry appended so far, in order and unchanged, whatever the number of appends and clears. An append reports success exactly when the entry was recorded; when memory runs out it reports failure, the table keeps its old content and stays usable. Creating, clearing and destroying a table never reads or writes outside its storage and never leaks it.',
 ['inputs', 'histories', 'fault_sequences'], 'any table state reachable by any sequence of appends and clears, any values, allocation failing at any point',
 'No stable test touches these tables; growth, out-of-memory and ordering are unbounded histories.',
 [U+'transport/implicit/transport_source.c', U+'pressure/tpfa/compr_source.c', U+'pressure/tpfa/compr_bc.c', U+'pressure/flow_bc.c'],
 [('append with geometric growth', 'append_transport_source, append_compr_source_term, compr_bc_append, flow_conditions_append(_multi)'), ('construction and destruction', 'create_*/destroy_*, *_allocate/*_deallocate, flow_conditions_construct/destroy')],
 claim=True, state=[('capacity and count fields', 'number of entries allocated and used')])
prop('C02', 'Well containers keep names, perforations and controls consistent',
 'Adding wells and controls to a well container preserves all earlier wells: their names, types, reference depths, phase fractions, perforated cells, well indices, control lists and current controls. The perforation ranges of the wells are consecutive and cover exactly the perforations added. Cloning yields an equal and independent container, clearing a control list empties only that list, no control is active in an empty list, and a control added without phase distribution has none. When memory runs out every operation reports failure instead of corrupting the container or losing track of memory (only a well\'s name may then be missing).',
 ['inputs', 'histories', 'fault_sequences'], 'any sequence of additions, any number of wells, perforations, controls and phases, allocation failing at any point',
 'The wells test is not among the reliable ones and exercises a single fixed container.',
 [U+'wells/wells.c', 'opm/core/wells.h'], [('growth of well arrays', 'add_well, wells_allocate, wells_reserve, initialise_new_wells'), ('control lists', 'append_well_controls, set_current_control, clear_well_controls'), ('clone', 'clone_wells')],
 claim=True)
prop('C03', 'Compressed sparse row matrices are well formed and hold what was put in',
 'A matrix allocated from per-row counts or from known sizes has row pointers that start at zero, never decrease and end at the number of nonzeros, and storage for exactly that many entries. Filling the structure column by column places every column index in its own row, in the order given. Zeroing clears all values and nothing else, allocation failure is reported without touching invalid memory, and destruction releases everything.',
 ['inputs', 'fault_sequences'], 'any matrix size and any row counts, allocation failing at any point',
 'No stable test covers the sparse matrix support; sizes and failure points are unbounded.',
 [U+'linalg/sparse_sys.c'], [('row pointers from counts', 'csrmatrix_new_count_nnz, csrmatrix_new_elms_pushback'), ('allocation', 'csrmatrix_new_known_nnz, csrmatrix_new_count_nnz, csrmatrix_delete'), ('values', 'csrmatrix_zero, vector_zero')],
 claim=True)
prop('C04', 'The integer hash set behaves as a mathematical set',
 'After any sequence of insertions the set contains exactly the keys inserted, each once, and counts them correctly. Inserting a key already present changes nothing, growing the table loses no key, and membership lookups terminate. When memory runs out during growth the operation reports failure and the existing content is kept.',
 ['inputs', 'histories', 'fault_sequences'], 'any non-negative keys (the documented domain), colliding ones included, any insertion history, any table size',
 'No stable test covers it; collisions and growth depend on the key values and history.',
 [U+'pressure/msmfem/hash_set.c', U+'pressure/msmfem/hash_set.h'], [('open addressing', 'hash_set_insert, hash_set_insert_core'), ('growth', 'hash_set_expand')], claim=True)
prop('C05', 'Grid objects are allocated complete, disjoint and are released completely',
 'Allocating a grid with given numbers of cells, faces, face nodes, cell faces and nodes yields storage large enough for every topology and geometry array of those sizes, all recorded counts and first positions consistent, or fails without leaking anything. Destroying a grid, complete, partial or absent, releases all of its storage exactly once.',
 ['inputs', 'fault_sequences'], 'any dimension and sizes, allocation failing at any point', 'Stable tests never make an allocation fail and never look at array capacities.',
 [U+'grid/grid.c'], [('allocation', 'allocate_grid, create_grid_empty'), ('release', 'destroy_grid')], claim=True)
prop('C07', 'Cartesian grids have the documented topology for every size',
 'For every number of cells per direction, the generated Cartesian grid has the closed-form numbers of cells, faces, nodes, face-node and cell-face entries. Every cell lists exactly its low and high face in every direction, tagged twice the direction plus zero for low and one for high; every interior face joins exactly the two cells that list it, lower cell first, and boundary faces have exactly one neighbour. Every face lists its own corner nodes and all entries are valid indices.',
 ['inputs'], 'all grid sizes nx, ny, nz', 'Tests build a handful of fixed sizes and look at few numbers.',
 [U+'grid/cart_grid.c'], [('topology in two dimensions', 'fill_cart_topology_2d'), ('topology in three dimensions', 'fill_cart_topology_3d'), ('allocation', 'allocate_cart_grid_2d, allocate_cart_grid_3d')], claim=True)
prop('C08', 'Cartesian grid geometry is exact and consistent',
 'For every size and spacing, and for every tensor grid, node coordinates, face centroids, normals and areas and cell centroids and volumes of a Cartesian grid equal their closed forms. Face normals point from the first to the second neighbour and have the face area as length. Cell volumes are the product of the cell extents.',
 ['inputs'], 'all grid sizes and positive spacings', 'Tests sample a few fixed grids.',
 [U+'grid/cart_grid.c'], [('uniform geometry', 'fill_cart_geometry_2d, fill_cart_geometry_3d'), ('tensor grids', 'create_grid_tensor2d, create_grid_tensor3d, fill_layered_geometry_3d'), ('uniform spacing', 'create_grid_cart2d, create_grid_cart3d, create_grid_hexa3d')], claim=True)
prop('C09', 'The reordered sequence respects the flow direction',
 'The transport reordering visits every cell exactly once and its component boundaries are increasing and cover all cells. Every cell supplied by an upwind neighbour across a face with positive flux comes in the same or a later component than that neighbour. Two cells share a component only if each is reachable from the other along the flow.',
 ['inputs'], 'all grids and flux fields', 'No stable test covers reordering; the guarantee quantifies over all graphs.',
 [U+'transport/reorder/reordersequence.cpp', U+'transport/reorder/tarjan.c'], [('upwind graph', 'make_upwind_graph, compute_sequence, compute_sequence_graph'), ('strongly connected components', 'tarjan')], claim=True)
prop('C10', 'Cell partitions are exact, compressed and invertible',
 'Uniform and linear partitions assign every cell a block index from the documented rectangular split. Compressing block numbers leaves consecutive numbers without gaps, keeps two cells together exactly when they were, and preserves the order of block numbers. The inverse map lists each cell exactly once, under its own block, in increasing order. Splitting disconnected blocks leaves two cells together exactly when they were connected inside their old block, and the component labelling it rests on gives two nodes of a symmetric graph the same colour exactly when they are connected.',
 ['inputs'], 'all block vectors, sizes and dimensions', 'No stable test covers partitioning.',
 [U+'pressure/msmfem/partition.c', U+'pressure/msmfem/dfs.c'], [('uniform split', 'partition_unif_idx'), ('compression', 'partition_compress'), ('inverse', 'partition_invert, partition_allocate_inverse'), ('local index', 'partition_localidx'), ('splitting', 'partition_split_disconnected, dfs')], claim=True)
prop('C11', 'Two-point transmissibilities follow the TPFA formula',
 'Every half-face transmissibility is the absolute value of the projected permeability product (centroid difference times permeability tensor times face normal) divided by the squared cell-to-face distance. Face transmissibilities are the harmonic combination of the half-face values of the adjacent cells and are positive when the half-face values are. Mobility weighting scales each side with its own cell.',
 ['inputs'], 'all grids, permeability tensors and mobilities', 'No stable test evaluates transmissibilities.',
 [U+'pressure/tpfa/trans_tpfa.c'], [('half-face values', 'tpfa_htrans_compute'), ('face values', 'tpfa_trans_compute, tpfa_eff_trans_compute')], claim=True)
prop('C12', 'Face fluxes and assembled TPFA systems conserve mass',
 'The face flux reconstructed from a pressure field is the transmissibility times the pressure difference plus the gravity term, oriented from first to second neighbour, zero on closed boundaries. The assembled system is symmetric with zero row sums apart from boundary, well and rock compressibility contributions. Prescribed boundary pressures and fluxes, well controls and sources enter exactly the equations of their own cells and wells.',
 ['inputs'], 'all grids, transmissibilities, pressures and boundary conditions', 'No stable test assembles a pressure system.',
 [U+'pressure/tpfa/ifs_tpfa.c'], [('fluxes', 'boundary_fluxes, ifs_tpfa_press_flux'), ('assembly', 'ifs_tpfa_assemble, assemble_incompressible')], claim=True)
prop('C13', 'Explicit saturation transport conserves volume and compressible terms are exact',
 'One explicit upwind step changes the phase volume of each cell by exactly the net upwind inflow plus sources over the step, so the total changes only through sources. The saturation-dependent volume and compressibility quantities used by the compressible pressure solver equal their defining products for every cell, face and phase.',
 ['inputs'], 'all grids, fluxes, sources, saturations and numbers of phases', 'No stable test runs transport.',
 [U+'transport/minimal/spu_explicit.c', U+'pressure/tpfa/compr_quant.c', U+'pressure/tpfa/compr_quant_general.c'], [('explicit step', 'spu_explicit'), ('compressible quantities', 'compr_quantities_allocate, tpfa/compr_quant*.c')], claim=True)
prop('C14', 'Basic rock and fluid properties obey their closed forms in every cell',
 'The parameter-driven rock, relative permeability and fluid property objects return, for any number of cells and phases, exactly the closed-form value of each quantity and its derivative in the documented layout. Values are confined to the documented ranges and entries not requested are not written.',
 ['inputs'], 'all saturations, pressures, cell lists and numbers of phases', 'Tests do not evaluate these objects over arbitrary inputs.',
 [U+'props/satfunc/SaturationPropsBasic.cpp', U+'props/pvt/PvtPropertiesBasic.cpp', U+'props/rock/RockCompressibility.cpp', U+'props/rock/RockBasic.cpp', U+'props/IncompPropertiesBasic.cpp', U+'props/BlackoilPropertiesBasic.cpp'], [('relative permeability', 'SaturationPropsBasic::relperm'), ('formation volume factors', 'PvtPropertiesBasic'), ('pore compressibility', 'RockCompressibility')], claim=True)
prop('C15', 'Piecewise linear tables interpolate correctly everywhere',
 'Evaluating a one-dimensional table at any argument returns the value of the piecewise linear function through its nodes, with the documented treatment outside the table. At the nodes the tabulated values are returned, and the derivative is the slope of the segment that was used. The inverse of a monotone table and a table moved to another domain agree with the same nodes, in whatever order these operations are used.',
 ['inputs', 'histories'], 'all tables and arguments', 'The stable tests check a few fixed tables at a few points.',
 [U+'utility/linearInterpolation.hpp', U+'utility/UniformTableLinear.hpp', U+'utility/NonuniformTableLinear.hpp'], [('segment search and evaluation', 'linearInterpolation, linearInterpolationDerivative, tableIndex'), ('table classes', 'UniformTableLinear, NonuniformTableLinear')], claim=True)
prop('C16', 'Sparse containers return exactly the data they were built from',
 'A sparse table built row by row or from flat data and row sizes reports the right number of rows, row sizes and total size, and each row yields exactly its data. A sparse vector returns the stored value at stored indices and the default elsewhere, and keeps its indices strictly increasing.',
 ['inputs', 'histories'], 'all row sizes, contents and construction histories', 'The stable tests build one or two tiny containers.',
 [U+'utility/SparseTable.hpp', U+'utility/SparseVector.hpp'], [('row starts', 'SparseTable::appendRow, SparseTable::operator[]'), ('lookup', 'SparseVector::element, SparseVector::addElement')], claim=True)
prop('C17', 'Bracketing root finders return points inside a valid bracket',
 'For every continuous function and every initial bracket with a sign change, the root finders return a point inside the bracket whose function value is within tolerance, or a point in a bracket narrower than the tolerance that still has a sign change. A bracket without a sign change is reported through the chosen error policy, and no more iterations than allowed are used.',
 ['inputs', 'programs'], 'all functions, brackets, tolerances and iteration limits', 'Tests run a few fixed functions.',
 [U+'utility/RootFinders.hpp'], [('regula falsi', 'RegulaFalsi::solve, RegulaFalsi::initialGuess'), ('bracketing', 'bracketZero')], claim=True)
prop('C18', 'Unit conversion round-trips and averages are exact',
 'Converting a value from any unit to SI and back returns the value, and every predefined unit equals its physical definition. Arithmetic, geometric and harmonic averages agree with their definitions and lie between the smallest and largest input.',
 ['inputs'], 'all values and units', 'Stable tests check a handful of constants.',
 [U+'utility/Units.hpp', U+'utility/Average.hpp'], [('conversion', 'unit::convert::from, unit::convert::to'), ('averages', 'arithmeticAverage, harmonicAverage')], claim=True)
prop('C19', 'Cell-wise reservoir summaries equal their defining sums',
 'Pore volumes, total saturated volumes, average saturations, injected and produced volumes, phase and total mobilities, mobility-weighted densities, fractional flows, transport sources, cell velocities, surface volumes and well flow rates equal their defining formulas or sums over cells, faces and perforations, for incompressible and black-oil fluids. Fractional flows add up to one and produced volumes add up to the total outflow. Arrays of mismatching size are refused.',
 ['inputs'], 'all numbers of cells, all saturations, properties, sources and one to three phases', 'No stable test calls these; they quantify over all cells and values.',
 [U+'utility/miscUtilities.cpp', U+'utility/miscUtilitiesBlackoil.cpp'], [('wells and boundaries', 'computeTransportSource, estimateCellVelocity, computeFlowRatePerWell, computePhaseFlowRatesPerWell'), ('black oil', 'computeSurfacevol, computeInjectedProduced, computePhaseMobilities, computeTotalMobility, computeFractionalFlow'), ('cell loops', 'computePorevolume, computeSaturatedVol, computeAverageSat, computeInjectedProduced, computeTotalMobility, computeTotalMobilityOmega, computePhaseMobilities, computeFractionalFlow, toWaterSat, toBothSat')],
 claim=True)
prop('C20', 'Simulation time and initial state bookkeeping is consistent',
 'A simulation timer built from any list of step lengths reports step numbers, current step lengths, elapsed and total time that always agree with the prefix sums of the steps, and is done exactly after the last step. State objects are initialised with the right sizes and with saturations that add up to one in every cell.',
 ['inputs', 'histories'], 'all step lists and sequences of timer operations, all grid sizes', 'No stable test covers the timer.',
 [U+'simulator/SimulatorTimer.cpp', U+'simulator/TwophaseState.hpp', U+'simulator/BlackoilState.hpp', U+'simulator/WellState.hpp'], [('step bookkeeping', 'SimulatorTimer::init, currentStepLength, setCurrentStepNum, operator++'), ('initial states', 'TwophaseState::init, setFirstSat, BlackoilState, WellState::init')], claim=True)
prop('C21', 'Discontinuous Galerkin bases and quadratures reproduce polynomials',
 'The basis functions, their gradients, evaluation and averaging of the discontinuous Galerkin bases agree with each other for every cell, degree and coefficient set. Multiplying a solution by its gradient-reduction factor keeps the cell average, and adding a constant keeps the gradient. Quadrature rules use the documented points and weights on every admissible cell and face: the centroid with the full measure up to degree one, and for degree two the Simpson rule on intervals and edges, edge midpoints of the triangles, or the four-point rule of the tetrahedra, spanned by centroids and nodes. Degrees and dimensions that are not implemented are refused.',
 ['inputs'], 'all cells, points and coefficients in one to three dimensions', 'Stable tests check single reference cells.',
 [U+'tof/DGBasis.cpp', U+'tof/DGBasis.hpp', U+'grid/CellQuadrature.hpp', U+'grid/FaceQuadrature.hpp'], [('bases', 'DGBasisBoundedTotalDegree, DGBasisMultilin'), ('quadratures', 'CellQuadrature, FaceQuadrature')], claim=True)
prop('C22', 'Boundary condition managers cover exactly the requested side faces',
 'Assigning a condition to a side of a grid adds that condition for exactly the boundary faces on that side within the requested range, each once, with the prescribed value; flux is distributed in proportion to face area so the total equals the request. Clearing removes all conditions.',
 ['inputs', 'histories'], 'all grids, sides and values', 'No stable test covers it.',
 [U+'pressure/FlowBCManager.cpp'], [('side search', 'findSideFaces, FlowBCManager::pressureSide, FlowBCManager::fluxSide')], claim=True)
prop('C06', 'Grid files: what is read is memory safe and complete',
 'Reading a grid from any file never reads or writes outside allocated storage and never leaks: the call either yields a grid with exactly the data of the file or reports failure.',
 ['inputs', 'fault_sequences'], 'all file contents', 'Tests read one or two valid files.', [U+'grid/grid.c'], [('reader', 'read_grid and its helpers')], claim=True)
prop('C30', 'Deck, XML and parameter files are parsed to the values they state',
 'Every keyword of a valid deck or parameter file is read with its documented dimensions, defaults and repeat counts, and malformed input is rejected.',
 ['inputs'], 'all input files', 'Tests read a few sample files.', [U+'io/eclipse/EclipseGridParser.cpp', U+'utility/parameters/ParameterGroup.cpp'], [('parsers', 'EclipseGridParser::read, ParameterGroup')],
 na='text parsing through iostreams, std::string, std::map and polymorphic keyword objects: the deductive front end has no contracts for these library types, and the property is about text formats rather than arithmetic or data-structure invariants')
prop('C31', 'Corner-point processing yields a matching conforming grid',
 'Processing any valid corner-point description yields faces that partition the interfaces between neighbouring cells, with consistent neighbours and nodes.',
 ['inputs'], 'all corner-point inputs', 'Tests process a few small cases.', [U+'grid/cpgpreprocess/preprocess.c', U+'grid/cpgpreprocess/facetopology.c', U+'grid/cpgpreprocess/uniquepoints.c'], [('pillar sweep', 'process_grdecl, findconnections')],
 na='a geometric plane-sweep whose correctness statement (a partition of polygon overlaps) has no first-order contract within reach of the SMT back ends; sorting and sweep state invariants would need interactive proof')
prop('C32', 'Linear solves and full simulators converge to the discrete solution',
 'Pressure and transport solvers return solutions of their discrete equations within tolerance for every well-posed problem.',
 ['inputs'], 'all well-posed problems', 'Tests run none.', [U+'pressure/IncompTpfa.cpp', U+'linalg/LinearSolverUmfpack.cpp', U+'transport/reorder/TransportSolverTwophaseReorder.cpp'], [('solvers', 'IncompTpfa::solve, LinearSolverInterface::solve')],
 na='rests on UMFPACK/ISTL/AGMG and on convergence of floating-point iterations: no contract on the library solvers is checkable here and convergence is not a functional postcondition of the code')
prop('C33', 'Mimetic and multiscale mixed operators are consistent',
 'Local inner products are symmetric, positive definite and exact for linear pressure fields on every cell.',
 ['inputs'], 'all cell geometries and permeabilities', 'Tests run none.', [U+'pressure/mimetic/mimetic.c', U+'pressure/mimetic/hybsys.c', U+'pressure/msmfem/coarse_sys.c'], [('local inner product', 'mim_ip_simple'), ('hybridised systems', 'hybsys_*')],
 na='the operators are built by BLAS/LAPACK calls (dgemm, dgeqrf, dsyrk) whose results would have to be assumed by contract; nothing of the claim would be left to prove in the code itself')
