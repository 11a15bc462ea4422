"""The property list: the source of properties.jsonl and MANIFEST.json (tools/meta.py writes both)."""

def P(title, statement, over, text, why, files, mech, observe, note=""):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=[dict(name=a, where=b) for a, b in mech], observe=observe, note=note)

PROPS = {
"C01": P("The refinement tree is a persistent map from leaf blocks to values",
 "Whatever sequence of operations built it, a refinement tree of any rank has the leaves, values, sizes, depth, traversal order and lookups that a plain map from leaf addresses to values predicts, with every leaf under exactly one node of each coarser level. Mapping, pairing, combining, comparing, reducing, refining, coarsening, inserting, replacing and pruning give the result that doing the same leaf by leaf gives, and looking up an address that is not a leaf (or not a node) is reported as an out-of-range error, never answered with another leaf's value. No operation changes a tree that another holder still sees.",
 ["histories", "inputs"], "all histories of tree operations, ranks 1 to 3, any value type",
 "the unit tests build two or three fixed trees and call each operation once; they cannot range over operation histories, unbalanced shapes or aliasing of shared subtrees",
 ["src/core_tree.hpp"], [("arithmetic_binary_tree_t", "src/core_tree.hpp"), ("tree_index_t", "src/core_tree.hpp")], ["leaf/address enumeration, lookups, reductions of the tree API"]),
"C02": P("Block addresses: parent/child/neighbour arithmetic, text form and Hilbert order",
 "For every block address of any rank and level: parent and child, next and previous neighbour along each axis (wrapping periodically) and moving to a finer or coarser level undo one another, siblings and validity are as the coordinates say, and the text form parses back to the same address. The space-filling-curve order visits every block of a level exactly once, each step moving to a face neighbour, and keeps the descendants of any block together.",
 ["inputs"], "all addresses (level up to 60, ranks 1 to 3) and, for the curve, whole levels up to 8 and local steps up to level 30",
 "the tests check a handful of addresses; bijectivity, adjacency and round trips quantify over all addresses of a level",
 ["src/core_tree.hpp", "src/app_serialize_tree.hpp"], [("tree_index_t", "src/core_tree.hpp"), ("hilbert_index", "src/core_tree.hpp"), ("format_tree_index/read_tree_index", "src/app_serialize_tree.hpp")], ["address API results, formatted strings"]),
"C03": P("Parallel evaluation equals serial evaluation, each task exactly once",
 "For every number of worker threads and every schedule, mapping over a tree through the thread pool or asynchronous launch, and evaluating an array across threads, give exactly the serial result, calling the function once per element. Every task submitted to the pool runs exactly once and its result or exception reaches its own future, whatever mixture of submissions, restarts and destruction of the pool happens meanwhile; nothing deadlocks, is lost or races.",
 ["schedules", "histories"], "all interleavings of submitters and workers, all pool sizes, all histories of enqueue/restart/destroy",
 "the one pool test submits a fixed batch to an idle pool; lost wakeups, drain on shutdown and races depend on the interleaving",
 ["src/core_thread_pool.hpp", "src/core_tree.hpp", "src/app_parallel.hpp"], [("thread_pool_t", "src/core_thread_pool.hpp"), ("arithmetic_binary_tree_t::map on a pool / async", "src/core_tree.hpp"), ("evaluate_on", "src/app_parallel.hpp")], ["results of the futures, call counts per element"]),
"C04": P("Refined meshes are 2:1 balanced, minimal and tile the domain",
 "For every refinement criterion and depth, the block mesh that is built contains each block the criterion asks for, has no two blocks sharing a face (also across the periodic boundary) whose levels differ by more than one, and has no block refined without need of one or the other. Its blocks tile the square domain exactly, each with the requested number of zones and its vertices at the positions its address implies.",
 ["inputs", "configurations"], "all refinement predicates, depths, block sizes and all starting trees",
 "the tests build one uniform and one centrally refined tree; balance is a global property over all refinement patterns",
 ["src/mesh_tree_operators.hpp"], [("create_vertex_quadtree, ensure_valid_quadtree", "src/mesh_tree_operators.hpp")], ["leaf addresses and vertex arrays of the mesh"]),
"C05": P("Guard-zone exchange between levels is exact and conservative",
 "Refining cell data and coarsening it again returns the original data, coarsening preserves totals (averages preserve the mean, sums the sum), and refining vertices inserts midpoints, for arrays of every size and rank and along every axis. Fetching the block at any address of a balanced mesh, whether it is stored there, on a coarser level or on a finer one, gives the stored data, the right quadrant of the coarse data, or the assembled average of the fine data, so that neighbouring blocks see each other's correct cells and vertices.",
 ["inputs", "configurations"], "all array shapes, values, axes, mesh topologies and addresses",
 "the tests use one small array and one uniform tree; errors in one quadrant, axis or level combination go unseen",
 ["src/mesh_prolong_restrict.hpp", "src/mesh_tree_operators.hpp"], [("prolong_*/restrict_*/refine_*/coarsen", "src/mesh_prolong_restrict.hpp"), ("get_cell_block, get_vertex_block", "src/mesh_tree_operators.hpp")], ["arrays returned by the mesh operators"]),
"C09": P("Rational numbers are exact and canonical",
 "Every rational number is held in lowest terms with a positive denominator (zero in one form), so equal values compare equal, and the ordering is the mathematical one. Sums, differences, products, quotients, negation and conversion to double agree with exact arithmetic for all operands whose result is representable, so that accumulating an iteration counter by fractional steps never drifts; text forms name the same value.",
 ["inputs", "histories"], "all numerators/denominators without overflow, all chains of operations",
 "the tests check a few hand-picked fractions with positive terms",
 ["src/core_rational.hpp"], [("rational::number_t", "src/core_rational.hpp")], ["num/den, comparison and arithmetic results, strings"]),
"C10": P("Linked lists are persistent sequences",
 "Every history of list operations yields lists with the contents a plain sequence model predicts: construct from a range, prepend, append, concatenate, reverse, head, tail, size, compare and iterate behave as on ordinary sequences. No operation alters a list that is still held elsewhere, access to an empty list is reported as an out-of-range error, and building, copying and destroying long lists is safe.",
 ["histories"], "all operation histories over a pool of lists sharing structure",
 "the tests exercise each operation once on lists of a few items; aliasing and destruction of long shared chains need histories",
 ["src/core_linked_list.hpp"], [("linked_list_t", "src/core_linked_list.hpp")], ["iteration order, sizes, comparisons, exceptions"]),
"C06": P("Array expressions have the values their definition gives, lazily or stored",
 "Any expression built from array factories, element-wise operators, mapping, zipping, reshaping, transposing, selecting, concatenating, replacing, freezing, reducing and storing has the shape and, at every index, the value that evaluating its definition element by element gives, for ranks 1 to 3 and any sizes including empty arrays. Storing an intermediate, sharing it, copying it or iterating it never changes a result, and copies do not see later writes to the original. Operations on arrays whose shapes do not fit, and accesses outside an array, are refused with an error.",
 ["inputs", "histories"], "all expression trees over arrays of ranks 1 to 3 and all shapes",
 "the tests evaluate each operator on one small array; composition, empty and degenerate shapes and aliasing need generated expressions",
 ["src/core_ndarray.hpp", "src/core_ndarray_ops.hpp"], [("array_t, buffers, access_pattern_t", "src/core_ndarray.hpp"), ("operators and factories", "src/core_ndarray_ops.hpp")], ["shape and element values of the result"]),
"C07": P("Regions, stencils, guard zones and decompositions address the right zones",
 "Selecting any strided region, or a range along any axis, reads exactly the zones it names in order, and a region that does not fit the array is refused. Differences, midpoints, adjacent pairs and periodic, zero-gradient or zero guard zones along any axis have the neighbours their definition names, so that periodic flux differences sum to zero. Dividing an array, a shape or a domain among groups, threads or blocks puts every zone in exactly one part, in order, with sizes that differ by at most one along an axis.",
 ["inputs"], "all shapes, ranks 1 to 3, axes, strides, group and block counts",
 "the tests sample a few shapes; off-by-one errors at particular strides, remainders or axes escape them",
 ["src/core_ndarray.hpp", "src/core_ndarray_ops.hpp", "src/app_parallel.hpp"], [("access_pattern_t, select, select_axis", "src/core_ndarray.hpp"), ("stencil and guard-zone operators", "src/core_ndarray_ops.hpp"), ("create_access_pattern_array, propose_block_decomposition", "src/app_parallel.hpp")], ["values and shapes of the selected arrays, parts of a decomposition"]),
"C08": P("Sequences, tuples, matrices, units and directions obey their algebra",
 "Fixed-size sequences, tuples and matrices of any size combine, compare, map, reorder and multiply exactly as the component formulas say, leaving their operands unchanged, and an index outside them is refused. Physical dimensions follow the arithmetic (products add exponents, powers and roots multiply them) while values follow ordinary arithmetic. A direction always has unit length and points along the components it was made from, and projecting onto it is the dot product.",
 ["inputs"], "all values and sizes of sequences, tuples, matrices, dimensional values and direction vectors",
 "the tests check a few literal values per operator",
 ["src/core_sequence.hpp", "src/core_tuple.hpp", "src/core_matrix.hpp", "src/core_dimensional.hpp", "src/core_geometric.hpp"], [("arithmetic_sequence_t", "src/core_sequence.hpp"), ("arithmetic_tuple_t", "src/core_tuple.hpp"), ("matrix_t", "src/core_matrix.hpp"), ("dimensional_value_t", "src/core_dimensional.hpp"), ("unit_vector_t, covariant/spatial sequences", "src/core_geometric.hpp")], ["component values, static dimensions, exceptions"]),
"C11": P("What is written to an HDF5 file reads back bit for bit",
 "Through any history of writing, overwriting, closing, reopening and truncating a file, every scalar, string, vector, array, list, fraction, compound or configuration value stored in it reads back bit for bit, under its own name and group, and nothing else is in the file. Writes that do not fit the stored type or shape, reads of missing or differently typed data and writes to a file open for reading are refused and leave the stored data as they were. Strided regions and appended elements of a dataset land exactly where asked, and no HDF5 handle stays open when its owner is gone.",
 ["histories", "inputs"], "all histories of file operations, all values (including NaN payloads, infinities and empty arrays), all regions",
 "the tests write each type once to a fresh file; stale contents, partial overwrites, handle leaks and refused operations need histories",
 ["src/core_hdf5.hpp", "src/app_serialize.hpp"], [("h5::File/Group/Dataset/Dataspace", "src/core_hdf5.hpp"), ("hdf5_type_info specializations", "src/app_serialize.hpp")], ["values read from the reopened file, exceptions, count of open HDF5 objects"]),

"C12": P("Trees, run settings and task schedules survive being saved to a file",
 "A refinement tree of any rank and depth, a run configuration of any items and a task schedule in any state, written to a checkpoint file and read back, are identical: same leaves and bit-identical values, same settings, same task counts and times, with no restored task already due. This also holds when they are written under several names or several times over. Numbered output names are zero-padded to four digits and distinct for distinct counts, so that they sort in order.",
 ["inputs", "histories"], "all trees (ranks 1 to 3, levels to 10 and beyond), settings of every type, schedules in any state",
 "the tests save one shallow tree of rank two; deep, unbalanced and other-rank trees and arbitrary settings need generation",
 ["src/app_serialize_tree.hpp", "src/app_serialize.hpp", "src/app_filesystem.hpp"], [("write_tree/read_tree", "src/app_serialize_tree.hpp"), ("write_config/read_config, write_schedule/read_schedule", "src/app_serialize.hpp"), ("create_numbered_filename", "src/app_serialize.hpp")], ["the file read back through the library"]),
"C13": P("Run configurations are typed, strict and immutable",
 "An option keeps the type its template declares: a value of another type, an unknown name, text that does not parse as that type, and an option given twice on the command line are refused with an invalid-argument error that leaves everything as it was. Command-line text 'key=value' is split at the first '=', arguments without one are left out, and every option reads as its last accepted value or else its default. Changing a configuration never affects one held elsewhere, and printing shows every option once, in order, with its current value.",
 ["histories", "inputs"], "all templates, all histories of updates, all argument vectors",
 "the tests set two options; refusal and aliasing over arbitrary sequences of updates and arguments are not sampled",
 ["src/app_config.hpp"], [("config_template_t, config_t, config_parameter_map_t, argv_to_string_map", "src/app_config.hpp")], ["values read from the configuration, exceptions, printed text"]),
"C14": P("Scheduled tasks run once per interval, in order, with exact counts",
 "For every sequence of time steps, a recurring task becomes due exactly when a whole interval has elapsed on its clock, which then advances by exactly that interval, so that the cadence does not drift however uneven the steps are; it stays due until it is completed. Completing it adds one to its count, dispatching runs, in the given order, exactly those of the given tasks that were due when it began, and an unknown task name is reported as an out-of-range error. Advancing, marking or completing tasks never changes a schedule state held elsewhere.",
 ["histories", "schedules"], "all histories of creating, marking, advancing and completing tasks",
 "the tests advance one schedule by one step; cadence over uneven steps needs histories",
 ["src/app_schedule.hpp", "src/app_subprogram.hpp"], [("schedule_t, task_t", "src/app_schedule.hpp"), ("mark_tasks_in, run_scheduled_tasks, complete_task_in", "src/app_schedule.hpp")], ["due flags, counts, times, order of calls"]),
"C15": P("Gas dynamics: states, fluxes, wave speeds and eigenvectors are consistent",
 "For every physical state of an ideal gas, density, momentum and energy convert to primitive variables and back without loss, a requested temperature floor raises the pressure to that temperature and otherwise changes nothing, and fluxes, sound and wave speeds along any direction obey the Euler equations. The left and right eigenvectors diagonalise the derivative of the flux, and the average of two states is weighted by the square roots of their densities. The geometric source terms in spherical coordinates exactly balance the flux divergence, so that uniform gas stays uniform.",
 ["inputs"], "all positive densities and pressures, Mach numbers to 20, adiabatic indexes, directions, floors, radii and angles",
 "the tests evaluate one state; thermodynamic identities must hold at every state and direction",
 ["src/physics_euler.hpp"], [("primitive_t, recover_primitive, flux, right/left_eigenvectors, roe_average, spherical_geometry_source_terms", "src/physics_euler.hpp")], ["conserved and primitive values, fluxes, wave speeds, matrices"]),
"C16": P("Riemann solvers: consistent, conservative, symmetric and upwind",
 "For any two physical states, the numerical fluxes for the Euler, relativistic and isothermal equations reduce to the exact flux for equal states, do not depend on which side is called left (mirroring states and normal), rotate with the axes, and reduce to the upwind flux when both sides move faster than sound. The two-wave fluxes are the single intermediate-state flux bounded by the outermost wave speeds of the two sides. The contact-resolving isothermal flux satisfies the jump conditions across each of its waves with positive intermediate density, and keeps stationary and moving contacts and shear layers exact.",
 ["inputs"], "all pairs of physical states, face orientations, and (for isothermal gas) sound speeds on either side",
 "the tests check one pair of states; symmetry and consistency hold for all pairs or not at all",
 ["src/physics_euler.hpp", "src/physics_srhd.hpp", "src/physics_iso2d.hpp"], [("riemann_hlle", "src/physics_euler.hpp"), ("riemann_hlle", "src/physics_srhd.hpp"), ("riemann_hlle, riemann_hllc", "src/physics_iso2d.hpp")], ["fluxes returned by the solvers"]),
"C17": P("Relativistic gas: states are recovered at every scale, or refused",
 "For every physical relativistic state (densities 1e-12 to 1e12, pressure to density ratios 1e-6 to 1e6, Lorentz factors to 30) converting to conserved densities and back recovers it to the solver's accuracy, and a temperature floor raises only the pressure. Fluxes obey the relativistic equations, wave speeds solve the characteristic equation, stay below the speed of light and bracket the flow, and the spherical source terms balance the flux divergence of uniform flow. Conserved states that no physical gas can have are refused with an error; a returned state is always finite with positive density, non-negative pressure and subluminal velocity.",
 ["inputs"], "all physical states in the stated range, all directions, and arbitrary unphysical conserved states",
 "the tests convert one state; the recovery is an iteration whose convergence depends on the regime",
 ["src/physics_srhd.hpp"], [("primitive_t, recover_primitive, flux, wavespeeds, spherical_geometry_source_terms", "src/physics_srhd.hpp")], ["recovered states, fluxes, wave speeds, exceptions"]),
"C18": P("Isothermal disk gas: both conserved forms agree with the primitive state",
 "For every state of the vertically integrated isothermal gas and every position, the linear-momentum and the radial-plus-angular-momentum conserved variables convert to primitives and back without loss and their fluxes along any direction are those of the same equations in either form. Source terms, wave speeds and the average state obey the isothermal equations for any sound speed. A state with negative density is refused with an error rather than converted.",
 ["inputs"], "all positive surface densities, velocities, sound speeds, positions and directions",
 "the tests evaluate a few states at one position",
 ["src/physics_iso2d.hpp"], [("primitive_t, recover_primitive, to_conserved_angmom_per_area, flux_angmom, source_terms_conserved_angmom, roe_average", "src/physics_iso2d.hpp")], ["conserved and primitive values, fluxes, exceptions"]),
"C19": P("Slope limiter and polynomial roots",
 "The reconstruction slope of any three neighbouring values is zero at an extremum, exact for linear data when the limiter parameter permits, never overshoots the neighbours, equals the three-way minmod formula for every limiter parameter, mirrors and changes sign with the data, and acts on each component of a compound value separately. The real roots of cubics and quartics are reported in the right number with the right values for well-separated roots of any sign and scale (for cubics also exactly double roots), including even quartics and leading coefficients other than one. The parabola through three points has its extremum where the fit says.",
 ["inputs"], "all triples of values and limiter parameters in [1, 2]; all cubics and quartics with separated roots",
 "the tests use a few literal inputs",
 ["src/math_interpolation.hpp", "src/math_polynomial.hpp"], [("plm_gradient", "src/math_interpolation.hpp"), ("cubic_roots, quartic_roots, parabola_vertex", "src/math_polynomial.hpp")], ["returned slopes, roots and counts"]),
"C20": P("Binary orbits obey Kepler's laws, and orbital elements describe them",
 "For any total mass, separation, mass ratio and eccentricity up to 0.99, the positions and velocities of the two bodies at any time solve the Kepler problem: the centre of mass stays at rest, the separation, energy and angular momentum are those of the orbit, the period is Kepler's, velocities are the time derivatives of positions and the body starts at periapse. Orbital elements computed from any bound pair of masses, positions and velocities reproduce that pair, including circular, tilted, displaced and drifting orbits; unbound pairs are refused. Differences of elements take angles and periapse times by the shortest way round, and the predicted response of the semi-major axis to small changes of masses and velocities agrees with the exact change.",
 ["inputs"], "all bound planar orbits with eccentricity up to 0.99 at all phases, perturbations of each kind",
 "the tests sample two circular and one eccentric orbit at one time",
 ["src/model_two_body.hpp"], [("compute_two_body_state, compute_orbital_elements, orbital element arithmetic", "src/model_two_body.hpp")], ["states and elements returned by the model"]),
"C21": P("Atmosphere, cloud and jet models have the profiles and masses they state",
 "The power-law atmosphere, the cloud with its envelop and the jet nozzle have, at every radius, angle and time, the density, velocity, four-velocity and luminosity their defining formulas give, continuous where the pieces join. Integrating the density profile over spherical shells gives the model's stated enclosed and total masses, and a model made for a requested total mass has it. A profile of infinite mass is refused, and changing a parameter leaves the model it was made from unchanged.",
 ["inputs", "configurations"], "all model parameters, radii, angles and times",
 "the tests check the total mass of one configuration",
 ["src/model_atmosphere.hpp", "src/model_jet_nozzle.hpp"], [("power_law_atmosphere_model, cloud_and_envelop_model", "src/model_atmosphere.hpp"), ("jet_nozzle_model", "src/model_jet_nozzle.hpp")], ["values of the model functions"]),
"C22": P("The shock locator points at the steepest entropy drop",
 "For every radial profile, the located shock is the zone after which specific entropy changes by the smallest (most negative) amount, the first such zone if there are several. From any zone, the pressure maximum behind is the first zone, going inward, whose inner neighbour is not at higher pressure, and the plateau ahead is the first zone, going outward, where the logarithmic pressure drop falls to half that of the zone before; when the scan would leave the profile the answer is zero.",
 ["inputs"], "all profiles of two or more zones, with plateaus, ties and monotone runs",
 "there is no test of profiles other than a single step",
 ["src/post_shock_locator.hpp"], [("find_shock_index, find_index_of_maximum_pressure_behind, find_index_of_pressure_plateau_ahead", "src/post_shock_locator.hpp")], ["returned indexes"]),
"C28": P("File-system helpers touch what they are asked to and nothing else",
 "Listing, testing for files and directories, creating directories (relative or absolute, several levels, again and again) and removing files and trees have exactly the effect and answer a plain model of the directory predicts. Removing a tree removes everything inside it and nothing outside, even when symbolic links inside point elsewhere. Splitting, joining, and taking the parent and extension of a path agree with one another.",
 ["histories", "inputs"], "all directory trees with files, directories and links, and all paths",
 "the tests check path strings only",
 ["src/app_filesystem.hpp"], [("require_dir, remove_recurse, listdir, isfile, isdir, split, join, parent, extension", "src/app_filesystem.hpp")], ["the directory tree before and after, in a scratch directory"]),
"C23": P("A binary-disk step is the stated update, and its budgets close",
 "For every valid choice of settings, mesh and disk state, a time step of the binary simulation changes each zone by the face fluxes (pressure, advection, viscosity), the gravity of both bodies, their sinks, the buffer zone, the density floor and, in angular-momentum form, the geometric terms, with the chosen reconstruction, Runge-Kutta order and time-step rule; faces between refinement levels carry one flux for both sides, so mass changes only by what sinks and buffer are recorded to have taken, and so does angular momentum with recorded torques when that form is evolved. A run starts from the documented disk and orbit; the recorded accreted mass, momentum, torque and orbital changes per body, the diagnostic fields and the time series follow from the same state. A step that would make the surface density negative is repeated with a smaller time step, and no state with negative density is ever written; settings with no meaning are refused.",
 ["inputs", "configurations", "histories"], "all settings of the binary program in their documented ranges, meshes of 1 to 5 refinement levels, arbitrary disk states, runs of many steps",
 "no test runs a time step of this program at all",
 ["src/subprog_binary.cpp", "src/subprog_binary_scheme.cpp", "src/subprog_binary_solver_data.cpp", "src/subprog_binary_diagnostics.cpp", "src/subprog_binary_io.cpp"], [("next_solution, advance_u, advance_q", "src/subprog_binary_scheme.cpp"), ("create_solver_data", "src/subprog_binary_solver_data.cpp"), ("diagnostic_fields", "src/subprog_binary_diagnostics.cpp")], ["checkpoints, diagnostics files and time series that mara binary writes"]),
"C24": P("A restarted run continues exactly as if it had never stopped",
 "For the binary, blast-wave, jet and advection programs and any settings, a run that stops and is restarted from any of its checkpoints, once or several times, writes the same files with the same contents, bit for bit, as the run that was not interrupted: the same numbering, the same times of output, no output repeated or missing. This also holds when the run was killed at an arbitrary moment and is restarted from its last complete checkpoint.",
 ["histories", "crash_points", "configurations"], "all settings, all checkpoints of a run as restart points, several restarts in a row, kills at any moment",
 "the tests do not run the programs; restart equivalence quantifies over every checkpoint of every run",
 ["src/subprog_binary.cpp", "src/subprog_binary_io.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp", "src/app_serialize.hpp", "src/app_schedule.hpp"], [("write_checkpoint, create_state, create_schedule", "src/subprog_*.cpp"), ("schedule_t", "src/app_schedule.hpp")], ["the files in the output directories of both runs"]),
"C25": P("Results do not depend on the number of threads or their scheduling",
 "Running a simulation again with the same settings, with any number of threads, whatever their scheduling, writes the same files bit for bit; so does continuing it from a checkpoint with another number of threads. The threads of a run do not race for data.",
 ["schedules", "configurations"], "all settings, 1 to 32 threads, random delays of the threads",
 "a test sees one schedule on one machine; the guarantee is over all of them",
 ["src/subprog_binary_scheme.cpp", "src/core_thread_pool.hpp", "src/core_tree.hpp", "src/subprog_cloud.cpp", "src/app_parallel.hpp"], [("tree maps on the pool", "src/subprog_binary_scheme.cpp"), ("evaluate_on", "src/subprog_cloud.cpp")], ["the files of repeated runs; ThreadSanitizer reports"]),
"C26": P("Blast-wave, jet and advection programs take the steps they state",
 "For any settings and any state, a step of the blast-wave program (Newtonian or relativistic, spherical, reflecting inside and open outside), of the relativistic jet program (with its nozzle inflow, reconstruction, Runge-Kutta order and temperature floor) and of the two advection programs is the finite-volume update with their upwind fluxes, areas, volumes and source terms, and the initial states are those their settings describe. Mass and energy of a blast do not change while it has not reached the boundary. The diagnostics (density, pressure, entropy, velocity, shock position and speed, energy per angle, flow power) are those of the state written beside them; settings with no meaning are refused.",
 ["inputs", "configurations"], "all settings in their usable ranges, arbitrary smooth and noisy states, many steps",
 "no test runs a step of these programs",
 ["src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp", "src/subprog_amrsand.cpp", "src/subprog_partdom.cpp"], [("next_solution, advance, make_diagnostic_fields", "src/subprog_sedov.cpp, src/subprog_cloud.cpp"), ("next_solution", "src/subprog_boilerplate.cpp, src/subprog_amrsand.cpp")], ["checkpoints, diagnostics files and time series"]),
"C27": P("Outputs appear on schedule, are numbered in order and do not affect the run",
 "Every program writes its first output of each kind before the first step, and another after the first step that begins at least one interval after the last one was due, numbered without gaps, until the stop time is reached and one more step is taken; time-series samples follow the same rule. What is written at a given step is the same whatever the intervals are, and the schedule and the samples recorded in a checkpoint are those of the run so far.",
 ["configurations", "histories"], "all output intervals (zero, shorter and longer than a step, incommensurate) and stop times of every program",
 "the scheduler test checks one task over a few calls; the behaviour is a property of whole runs",
 ["src/app_schedule.hpp", "src/subprog_binary.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp", "src/subprog_amrsand.cpp"], [("run_tasks, next_schedule", "src/subprog_*.cpp"), ("schedule_t", "src/app_schedule.hpp")], ["names, times and contents of all files of a run"]),
"C29": P("MPI messages arrive complete, in order; collectives deliver every share",
 "On any number of processes and for every timing MPI allows, a message sent (blocking or not, text or typed, of any length) is received once, complete and unchanged, by a receive that names its source and tag or leaves either open, in the order sent; probes describe the message that is next, a receive of the wrong size is refused, and a non-blocking receive without a message is a null request. Broadcast, scatter, all-to-all and all-gather (of single values and of lists of different lengths) give every rank what the others supplied for it, and buffers of the wrong length are refused. Requests and communicators may be moved, copied (communicators), assigned, also to themselves, and closed at any point, and copies of a communicator do not see each other's messages.",
 ["schedules", "histories", "inputs"], "all histories of point-to-point and collective operations on 1 to 6 ranks, with wildcard matching and late buffer access as MPI permits",
 "the tests run on one process and never touch this code",
 ["src/core_mpi.hpp"], [("Communicator, Request, Status", "src/core_mpi.hpp")], ["what every rank receives, statuses, exceptions"]),
"C30": P("Command-line settings are used, recorded, kept on restart, or refused",
 "Whatever settings are given and in whatever order, those given are recorded in the checkpoint with exactly the given value, all others have their default, and a run that is given every setting as recorded writes the same files. Settings given at a restart take effect as if they had been given from the start, and those not given keep the value in the checkpoint. A setting that does not exist, is given twice or cannot be read as a number, an unknown method, and a restart file that is missing or not a checkpoint stop the program with an error before it writes any output.",
 ["inputs", "configurations"], "all subsets and orders of settings and values of every program, all kinds of malformed ones",
 "the configuration tests check the container, not what programs do with it",
 ["src/app_config.hpp", "src/app_serialize.hpp", "src/subprog_binary.cpp", "src/subprog_sedov.cpp", "src/subprog_cloud.cpp", "src/subprog_boilerplate.cpp", "src/app_main.cpp"], [("create_run_config", "src/subprog_*.cpp"), ("argv_to_string_map, config_t", "src/app_config.hpp"), ("read_config, write_config", "src/app_serialize.hpp")], ["recorded settings, exit codes, files written"]),
}
