prop("C01", "Every input document is parsed exactly or rejected cleanly",
     "Parsing a VMEC++ JSON input yields exactly the values the document states, with the documented default for every key it leaves out and with each boundary coefficient at its own mode number, or it returns an error. A document or an input object that is malformed or inconsistent (wrong types, bad resolutions, arrays of wrong length, missing companions) is rejected with an error status. No document, however malformed, crashes the process, reads or writes out of bounds, or yields values it does not contain.",
     ["inputs"], "all byte strings, all JSON documents (valid, mutated, malformed) and all input objects up to the generated sizes",
     "The unit tests parse a fixed set of good inputs and a few single-field errors; the space of documents is unbounded.",
     [V + "common/vmec_indata/vmec_indata.cc", V + "common/vmec_indata/vmec_indata.h", V + "common/vmec_indata/boundary_from_json.h", V + "common/vmec_indata/boundary_from_json.cc", "src/vmecpp/cpp/util/json_io/json_io.cc"],
     [("field-by-field parse with defaults", "VmecINDATA::FromJson"), ("consistency rules", "IsConsistent"), ("boundary entry placement", "BoundaryCoefficient::FromJson")],
     ["VmecINDATA::FromJson result", "IsConsistent status"],
     "property-based differential testing (Hypothesis) of the input parser against an independent reference parser, on generated, mutated and raw documents, with bounds-checked containers",
     RND + "The reference parser in vp/indata.py was written from the documentation and the field comments.")
prop("C02", "Inputs survive every round trip and every representation unchanged",
     "Writing an input to JSON or to the HDF5 results file and reading it back, converting it between its C++ and Python forms, and copying it each yield the same input, field by field and bit by bit. Two inputs compare equal exactly when all their fields are equal.",
     ["inputs", "histories"], "all consistent inputs, symmetric or not, and all sequences of conversions between the representations",
     "The unit tests round-trip a couple of stellarator-symmetric inputs; optional asymmetric fields, empty arrays and unusual values are not reached.",
     [V + "common/vmec_indata/vmec_indata.cc", P + "__init__.py", P + "_util.py", P + "cpp/vmecpp/vmec/pybind11/pybind_vmec.cc"],
     [("ToJson/FromJson, WriteTo/LoadInto", "VmecINDATA"), ("_to_cpp_vmecindata/_from_cpp_vmecindata", "VmecInput"), ("operator==", "VmecINDATA")],
     ["the read-back input"],
     "property-based round-trip testing (Hypothesis) over generated inputs and chains of conversions",
     RND)
prop("C03", "Resizing and re-layout of Fourier coefficients keeps every mode",
     "Changing the Fourier resolution of an input or a coefficient array, converting between sparse and dense boundary forms, and padding or truncating mode arrays keep every coefficient that fits at its own mode numbers (m, n), set new ones to zero and drop only the modes outside the new resolution. The rest of the input is left as it was.",
     ["inputs", "histories"], "all arrays and resolutions, and all sequences of resolution changes",
     "Tests resize a few fixed arrays once; orders of growing and shrinking, odd/even and zero sizes are not covered.",
     [V + "common/vmec_indata/vmec_indata.cc", P + "_util.py", P + "__init__.py"],
     [("SetMpolNtor", "VmecINDATA"), ("resize_2d_coeff, pad/sparse helpers", "_util.py"), ("VmecInput.resize_2d_coeff users", "__init__.py")],
     ["coefficient arrays after each step"],
     "stateful property-based testing (Hypothesis) of resize histories against a dictionary model keyed by (m, n)",
     RND)
prop("C04", "Python data models store, validate and serialise arrays faithfully",
     "The array-bearing Python models accept exactly the values of the declared dimensionality and type, keep the given numbers, shape and order, and return the same arrays after a JSON round trip. Values of the wrong dimensionality or type are rejected with a validation error, and unknown fields never pass silently where they are forbidden.",
     ["inputs"], "all arrays (shape, dtype, layout, special values) and all documents for the models",
     "The tests validate a handful of arrays.",
     [P + "_pydantic_numpy.py", P + "__init__.py"],
     [("BaseModelWithNumpy validators and serialisers", "_pydantic_numpy.py")], ["model fields", "model_dump_json output"],
     "property-based round-trip and rejection testing (Hypothesis) of the pydantic models", RND)
prop("C05", "Fortran INDATA files and JSON inputs describe the same equilibrium",
     "Converting a classic INDATA namelist to VMEC++ JSON, or a JSON input to INDATA, carries over every value that both formats know: axis, boundary modes by (m, n), profiles, scalars, strings and flags. Reading a file picks the format from its contents, and derived file and case names follow the documented pattern.",
     ["inputs"], "all namelists and all inputs of the generated form, in any key order and with any of the optional keys",
     "Tests convert two example files; key subsets, negative n, quoting, repeated values and asymmetric fields vary without bound.",
     [P + "_util.py", P + "__init__.py"],
     [("indata_to_json / vmecpp_json_to_indata", "_util.py"), ("VmecInput.from_file", "__init__.py")],
     ["the converted file, parsed by an independent reader"],
     "property-based differential testing (Hypothesis) against f90nml and a direct model", RND + "Trusts f90nml as the namelist reader.")
prop("C06", "File readers and writers return exactly what is stored, or an error",
     "Reading a JSON element, a netCDF variable, an HDF5 dataset or a plain file returns exactly the stored value (every element, in its place, with its shape, bit for bit, type-converted where the types differ), whatever the format variant and size; writing and reading back is the identity. A missing name, a value of the wrong kind or an array of the wrong rank is reported as absent or as an error and is never turned into a value. The tolerance comparison used on such data accepts exactly the pairs within its documented relative/absolute tolerance, NaN matching only NaN.",
     ["inputs"], "all documents/files, element names, ranks, shapes and values (including NaN, infinities, denormals, 32-bit limits, empty and long arrays)",
     "The unit tests read one fixed file with one value per kind; shapes, sizes, types, formats and malformed requests are unbounded.",
     ["src/vmecpp/cpp/util/json_io/json_io.cc", "src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc", "src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc", "src/vmecpp/cpp/util/hdf5_io/hdf5_io.h", "src/vmecpp/cpp/util/file_io/file_io.cc", "src/vmecpp/cpp/util/testing/numerical_comparison_lib.cc"],
     [("type and rank tests before conversion", "JsonRead*/NetcdfRead*"), ("ReadH5Dataset/WriteH5Dataset pairs", "hdf5_io")],
     ["return values of the readers", "bytes on disk"],
     "property-based round-trip and differential testing (Hypothesis) of the I/O primitives against Python readers/writers",
     RND + "Trusts netCDF4-python, Python's json and the sandbox's libraries.")
prop("C09", "Work partitions cover every surface and grid point exactly once",
     "For every radial resolution, thread count and boundary mode, the per-thread radial ranges are contiguous, disjoint and ordered, cover every flux surface exactly once with loads that differ by at most one, and their overlap ranges reach exactly the neighbouring surface on each side; the outermost surface belongs to the last thread. The same holds for the division of vacuum grid points over threads and for any history of re-partitioning. Grid sizes derived from mpol, ntor, ntheta, nzeta, nfp and lasym follow the documented formulas, and the surface-integration weights sum to one.",
     ["inputs", "schedules"], "all radial resolutions, thread counts, boundary modes, grid resolutions and re-partitioning histories",
     "Unit tests cover a few (ns, threads) pairs; an off-by-one shows only for particular remainders.",
     [V + "vmec/radial_partitioning/radial_partitioning.cc", V + "free_boundary/tangential_partitioning/tangential_partitioning.cc", V + "common/sizes/sizes.cc", V + "vmec/vmec/vmec.cc"],
     [("adjustRadialPartitioning", "RadialPartitioning"), ("computed sizes", "Sizes")], ["the range fields of each thread", "the computed sizes"],
     "property-based testing (Hypothesis) of partition invariants and closed-form size formulas over generated sizes and re-partitioning histories", RND)
prop("C10", "Fourier bases and conversions represent the same function",
     "The poloidal and toroidal basis tables hold the (scaled, weighted) cosines, sines and derivatives of each mode on the reduced or full angle grid. Converting coefficients between the combined basis cos/sin(m theta - n zeta) and the product basis keeps the represented function, conversion there and back is the identity, and mode-number lists enumerate each mode exactly once in the documented order. Both memory layouts agree.",
     ["inputs"], "all resolutions, field periods, symmetric or not, both index layouts, and all coefficient sets",
     "Unit tests check one or two resolutions.",
     [V + "common/fourier_basis/fourier_basis.cc", V + "common/fourier_basis_fast_poloidal/fourier_basis_fast_poloidal.h", V + "common/fourier_basis_fast_toroidal/fourier_basis_fast_toroidal.h"],
     [("computeFourierBasis, cos_to_cc_ss, sc_cs_to_sin ...", "FourierBasisFastPoloidal/FastToroidal")], ["basis tables", "converted coefficients", "xm/xn lists"],
     "property-based metamorphic and round-trip testing (Hypothesis) against direct evaluation of the Fourier series", RND)
prop("C12", "Profiles take the value their parameterisation defines",
     "Every pressure, rotational-transform and current profile, of every supported parameterisation, evaluates at every normalised flux to the value its documented formula, spline or line-segment definition gives, including at the axis, at the edge, at and between knots, with bloat, pedestal, pressure scaling and mass (gamma) handling. The per-surface arrays of a run hold those values at the half- and full-grid positions, independent of the number of threads. Profile names select exactly the parameterisation they name, and each is allowed only for the quantities it supports.",
     ["inputs"], "all supported profile types, coefficients, knots, radial grids, scalings and thread counts",
     "Tests evaluate single profiles at a few points; knot edges, segment borders, integrals and thread splits are not covered.",
     [V + "vmec/radial_profiles/radial_profiles.cc", V + "vmec/profile_parameterization_data/profile_parameterization_data.cc"],
     [("evalProfileFunction and the per-type functions", "RadialProfiles"), ("evalRadialProfiles", "RadialProfiles"), ("name table", "profile_parameterization_data")], ["evaluated profile values", "per-surface arrays"],
     "property-based differential testing (Hypothesis) against closed formulas, scipy splines and quadrature", RND + "10-point Gauss-Legendre quadrature is taken as part of the definition of the integrated analytic current profiles.")
prop("C13", "Tridiagonal solvers return the solution of the stated system",
     "For every diagonally dominant tridiagonal system, first and last active row and right-hand side, the serial and the parallel solver return the solution of that system and zero outside the active rows. The parallel solver gives this result for every number of threads and every schedule of them, without deadlock.",
     ["inputs", "schedules"], "all diagonally dominant systems, active ranges per mode, thread counts and schedules",
     "Tests solve fixed small systems; row ranges aligned with thread borders and thread timing are not covered.",
     [V + "common/util/util.cc", V + "common/util/util.h"],
     [("TridiagonalSolveSerial", "util.cc"), ("TridiagonalSolveOpenMP", "util.cc")], ["solver results"],
     "property-based differential testing (Hypothesis) against a dense solve, over generated systems, thread counts and injected delays", RND)
IM = V + "vmec/ideal_mhd_model/"
prop("C11", "Fourier transforms of geometry and forces equal the sums they stand for",
     "For every three-dimensional resolution, symmetric or not, the transform from Fourier coefficients to real space gives R, Z and lambda, their angular derivatives and the constraint quantities of the Fourier series on every flux surface and grid point, and the transform of the forces gives their projection onto each basis function. The FFT-based and the direct implementation agree, and splitting the surfaces over threads changes no value.",
     ["inputs", "schedules"], "all resolutions, field periods, radial grids, thread splits, boundary modes and coefficient sets",
     "The existing test of the transforms is not part of the default test run and uses single resolutions; indices at the axis, at the edge, at m = 0, m = 1 or the Nyquist mode and thread borders each need their own case.",
     [IM + "dft_toroidal.cc", IM + "fft_toroidal.cc", IM + "dft_data.h"],
     [("FourierToReal3DSymmFastPoloidal(Fft), asymmetric variants", "dft_toroidal.cc/fft_toroidal.cc"), ("ForcesToFourier3DSymmFastPoloidal(Fft)", "dft_toroidal.cc/fft_toroidal.cc")], ["real-space arrays", "Fourier-space forces"],
     "property-based differential testing (Hypothesis) against direct numpy evaluation of the Fourier sums and between implementations and thread splits", RND)
prop("C14", "Force kernels compute the stated geometry, field and force",
     "From the geometry on the angle grid the local kernels compute the half-grid Jacobian, metric elements, contravariant and covariant magnetic field, pressures, lambda force, constraint force and MHD force of the discretised model, on every surface including axis and edge. The MHD force is minus the gradient of the discretised energy with respect to the geometry. The constraint force keeps exactly the poloidal band 1 <= m <= mpol-2. Splitting the surfaces over threads changes no value.",
     ["inputs", "schedules"], "all radial grids, angle grids, thread splits, boundary modes and geometries with a Jacobian of one sign",
     "No unit test in the default run executes the kernels on data; a wrong term at one surface or at a thread border needs a full gradient comparison.",
     [IM + k for k in ("jacobian_kernel.h", "metric_kernel.h", "bcontra_kernel.h", "bco_kernel.h", "pressure_kernel.h", "lambda_force_kernel.h", "constraint_force_kernel.h", "mhdforce_kernel.h")] + [IM + "ideal_mhd_model.cc"],
     [("the *_kernel.h functions", "ideal_mhd_model"), ("deAliasConstraintForce", "ideal_mhd_model.cc")], ["kernel outputs per surface and grid point"],
     "property-based differential testing (Hypothesis) against numpy formulas and against complex-step gradients of the discretised energy", RND)
prop("C26", "Continuation keeps the shared part of a solution at a new resolution",
     "Interpolating a solution to another radial, poloidal or toroidal resolution keeps every Fourier mode that exists in both at its own mode numbers, sets new modes to zero, leaves shared flux surfaces unchanged and interpolates the rest linearly in sqrt(s) with odd modes regularised at the axis. A continuation run executes the requested resolution steps in order, each with its own resolution, tolerance and iteration limit, the boundary truncated to the step's modes, and each warm started from the step before it. Inconsistent schedules are rejected before anything runs.",
     ["inputs", "histories"], "all source and target resolutions, coefficient sets and continuation schedules",
     "Tests run one fixed schedule; mode re-mapping and sub- and supersets of resolutions are not covered.",
     [P + "_continuation.py"],
     [("interpolate_solution", "_continuation.py"), ("run_continuation and its schedule checks", "_continuation.py")], ["interpolated coefficient arrays", "the inputs given to each step"],
     "property-based testing (Hypothesis) of interpolation and of generated schedules against a dictionary model keyed by (m, n) and a recording solver", RND + "The solver itself is replaced by a recorder in the schedule part.")
prop("C27", "The iteration log shows the values it was given, in every mode",
     "In the legacy mode every logged iteration is one row whose columns hold the iteration number and the given residuals, energies and step data under their titles. In the progress modes the screen shows each multigrid stage once with its latest numbers, also after restarts of a stage, and the progress fraction follows the residuals. The final summary holds the given numbers. The silent mode prints nothing.",
     ["inputs", "histories"], "all output modes, histories of stages, iterations and restarts, and all values logged",
     "The unit tests print a few fixed rows; stage histories with restarts, extreme exponents and column widths are not covered.",
     [V + "vmec/iteration_logger/iteration_logger.cc", V + "vmec/iteration_logger/iteration_logger.h"],
     [("IterationLogger modes", "iteration_logger.cc")], ["bytes written to the terminal"],
     "stateful property-based testing (Hypothesis) of generated log histories, read back through a terminal emulator", RND)
SHIM = "The filament formulas of the ABSCAB library come from /verif/shim, because the library cannot be fetched offline. "
prop("C19", "Coil sets keep their geometry, windings and currents",
     "Reading a coils file yields exactly the filaments, windings, currents and circuits it lists, in order, or an error; nothing is dropped or invented and no input aborts the process. Setting, reading and normalising circuit currents, migrating windings into currents, moving coils radially, copying and printing change exactly what they name and keep the field of the coil set where they should. Vector algebra and CSV coefficient files follow their definitions.",
     ["inputs", "histories"], "all coils files, well formed or corrupted, all coil sets and all histories of operations on them",
     "The unit tests parse a few fixed files and check single operations.",
     [V + "common/magnetic_configuration_lib/magnetic_configuration_lib.cc", V + "common/composed_types_lib/composed_types_lib.cc", V + "common/magnetic_configuration_definition/magnetic_configuration.h", V + "common/composed_types_definition/composed_types.h"],
     [("ImportMagneticConfigurationFromMakegrid", "magnetic_configuration_lib.cc"), ("NumWindingsToCircuitCurrents, SetCircuitCurrents, MoveRadially", "magnetic_configuration_lib.cc"), ("vector algebra, CSV", "composed_types_lib.cc")],
     ["parsed coil sets", "coil sets after each operation"],
     "stateful property-based testing (Hypothesis): generated coils files against an independent reader, operation histories against a dictionary model", RND + SHIM)
prop("C20", "The field of a coil set is the Biot-Savart field of its currents",
     "The magnetic field and vector potential of a coil set at any set of points are the Biot-Savart integrals over its wires, each weighted by circuit current times windings, added to what the result array already holds; coils without windings count once, circuits without current not at all. The current linked by an axis curve is the line integral of that field.",
     ["inputs"], "all coil sets of polygon, circular and straight filaments, all evaluation points off the wires, all axis curves",
     "The unit tests evaluate a few hand-made coils at a few points.",
     [V + "common/magnetic_field_provider/magnetic_field_provider_lib.cc"],
     [("MagneticField, VectorPotential, LinkingCurrent", "magnetic_field_provider_lib.cc")], ["field and potential values", "linking current"],
     "property-based differential testing (Hypothesis) against quadrature of the Biot-Savart integral, with superposition", RND + SHIM)
prop("C21", "The gridded external field is the field of the coils, through every path",
     "A response table holds, per circuit and grid point, the cylindrical field (or vector potential) components of that circuit, for unit current when normalised and for its own current otherwise; with assumed symmetry the second half of the period is the mirror image. An mgrid file holds exactly the table it was written from. Loading a table or a file gives the sum of current times table, also after earlier loads, and interpolation returns the bilinear value in the right toroidal plane, clamped to the grid with a warning, for every sub-range of points. Parameters and tables survive conversion between Python and C++. Ill-formed parameters, tables and files are errors, never crashes.",
     ["inputs", "histories"], "all grid definitions, coil sets, tables, files (also corrupted) and histories of loads and interpolations",
     "The unit tests compare one or two fixed grids and need mgrid files that are not part of the default test run.",
     [V + "common/makegrid_lib/makegrid_lib.cc", V + "free_boundary/mgrid_provider/mgrid_provider.cc", P + "_free_boundary.py"],
     [("ComputeMagneticFieldResponseTable, WriteMakegridNetCDFFile", "makegrid_lib.cc"), ("LoadFile, LoadFields, interpolate", "MGridProvider"), ("conversion of tables", "_free_boundary.py")], ["tables", "files", "interpolated fields"],
     "stateful property-based testing (Hypothesis): tables against Biot-Savart quadrature, files against netCDF4, load/interpolate histories against a numpy model", RND + SHIM)
OQ = V + "vmec/output_quantities/output_quantities.cc"
FIX = RND + "Converged fixed-boundary problems only (ns <= 13, mpol <= 6, ntor <= 3); problems the solver reports as not converged are skipped and counted. "
prop("C15", "A converged run is the equilibrium of the plasma that was asked for",
     "Well-posed problems (mild shape, low pressure, rotational transform or current given) are solved. When a fixed-boundary run converges, its last flux surface is the prescribed boundary (up to the choice of the poloidal angle, and without modes beyond mpol_geometry/ntor_geometry), the toroidal flux profile is the prescribed one and ends at phiedge, the rotational transform (ncurr=0) or enclosed toroidal current (ncurr=1), the mass and the pressure are the prescribed profiles (pressure pedestal, bloat, gamma included), the force residuals are below the requested tolerance, the Jacobian has one sign, and the MHD energy is at a minimum with respect to geometry and lambda up to the radial discretisation error. The run metadata and histories in wout describe this run.",
     ["inputs"], "all fixed-boundary problems: symmetry, resolutions, multigrid schedules, boundary shapes and angle conventions, profiles, axis guesses, iteration styles, thread counts",
     "Tests compare a handful of fixed cases with stored reference values; combinations of asymmetry, angle reversal, flux profiles, grids and multigrid schedules are not covered.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/ideal_mhd_model/ideal_mhd_model.cc", V + "vmec/boundaries/boundaries.cc", V + "vmec/radial_profiles/radial_profiles.cc", OQ],
     [("Vmec::run, multigrid and iteration loop", "vmec.cc"), ("forces, constraints and preconditioner", "ideal_mhd_model.cc"), ("boundary set-up, theta flip and shift", "boundaries.cc"), ("axis guess", "guess_magnetic_axis.cc")],
     ["VmecOutput.wout: boundary, profiles, residuals, metadata", "MHD energy along perturbations of the returned state"],
     "property-based testing (Hypothesis) of generated equilibria; oracle: profile formulas, boundary curve, and stationarity of an independently coded MHD energy functional", FIX)
prop("C17", "The tables in wout are the fields of the equilibrium in wout",
     "For every converged run, the Fourier tables of the Jacobian, |B|, contravariant and covariant field components, current densities and half-grid lambda, and the radial profiles (volume, enclosed currents, fluxes, pressure, iota, beta, current density, force balance, energies) in wout equal what follows from the geometry, lambda, flux, iota and pressure profiles in the same wout on the code's grid; mode number tables list every mode once; symmetric runs contain no asymmetric tables.",
     ["inputs"], "all converged runs: symmetric and asymmetric, axisymmetric and 3D, even and odd grid sizes, thread counts",
     "Tests compare a few stored cases; asymmetric tables, odd grid sizes and unusual resolutions are not covered.",
     [OQ, V + "vmec/ideal_mhd_model/ideal_mhd_model.cc"], [("ComputeWOutFileContents", "output_quantities.cc"), ("covariant field filtering and extrapolation", "output_quantities.cc")],
     ["VmecOutput.wout tables and profiles"], "property-based testing (Hypothesis), differential against an independent numpy recomputation (vp/eqref.py)", FIX + "specw is compared to 5 %.")
prop("C28", "Current density and stability tables follow from the equilibrium fields",
     "For every converged run, the jxbout quantities (current densities, J.B, force balance, averages, extremes, grid tables) and all Mercier quantities equal their definitions evaluated on the fields of the returned equilibrium, for every surface and grid point, and the Mercier criterion is the sum of its four terms.",
     ["inputs"], "all converged runs: symmetric and asymmetric, axisymmetric and 3D, grid sizes, thread counts",
     "Tests compare two stored cases; asymmetric runs and other grids are not covered.",
     [OQ], [("ComputeJxBOutputFileContents", "output_quantities.cc"), ("ComputeMercierStability", "output_quantities.cc"), ("low-pass filtering of covariant B", "output_quantities.cc")],
     ["VmecOutput.jxbout and VmecOutput.mercier"], "property-based testing (Hypothesis), differential against an independent numpy recomputation (vp/eqref.py)", FIX)
prop("C29", "Global quantities and threed1 tables follow from the equilibrium",
     "For every converged run, the global geometric and magnetic quantities (volume, areas, major and minor radius, aspect ratio, extrema, elongation, average field, betas, currents, energies), the threed1 profile table, shape profiles, axis coefficients, volume averages and Shafranov integrals equal their definitions evaluated on the returned equilibrium, and wout and threed1 agree on the quantities they share.",
     ["inputs"], "all converged runs: symmetric and asymmetric, axisymmetric and 3D, reversed poloidal angle, grid sizes, thread counts",
     "Tests compare a few stored cases; reversed angles, asymmetric and odd-grid runs are not covered.",
     [OQ], [("threed1 first table, geometric/magnetic quantities, volumetrics, axis, betas, Shafranov integrals", "output_quantities.cc")],
     ["VmecOutput.threed1_* and the scalars of wout"], "property-based testing (Hypothesis), differential against an independent numpy recomputation (vp/eqref.py)", FIX + "height and shape profiles only for symmetric runs with both symmetry planes on the grid; spectral widths to 5 %.")
prop("C08", "A run depends on its input alone, not on history or thread count",
     "Running an input again in the same process, after other runs (converged, failed, or rejected), with memory filled with other contents or with output switched on or off, gives the same results bit by bit. Running it with another number of threads gives the same outcome and the same results up to rounding. A failed run leaves later runs unaffected.",
     ["inputs", "histories", "schedules"], "all fixed-boundary problems, histories of earlier runs in the process, memory contents, verbosity settings and thread counts",
     "Tests run each case once in a fixed order; state kept between runs, uninitialised memory and errors at thread borders show only for particular histories, resolutions and thread counts.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/ideal_mhd_model/ideal_mhd_model.cc", V + "vmec/handover_storage/handover_storage.cc", V + "vmec/fourier_geometry/fourier_geometry.cc", P + "__init__.py"],
     [("per-run construction of all state", "Vmec"), ("thread-partitioned storage and hand-over", "HandoverStorage, RadialPartitioning")], ["every array of VmecOutput", "iteration counts"],
     "stateful property-based testing (Hypothesis): reruns after generated histories compared bit by bit, thread counts compared with one thread", FIX)
prop("C16", "Related inputs give the correspondingly related equilibria",
     "Rescaling lengths and fields, reversing the field, mirroring the plasma, relabelling field periods, shifting the origin or reversing the direction of an angle, writing m = 0 modes with negative n, describing a symmetric plasma as an asymmetric one and displacing the plasma change every Fourier table, profile and scalar of the result exactly as the transformation says and change nothing else; the normalised force residuals of the iterations do not depend on units and signs. Redundant descriptions of the same equilibrium (time step, axis guess, multigrid stages, a constant added to the pressure, the iota profile replaced by the current profile it implies and back) give the same equilibrium within the solver tolerance.",
     ["inputs"], "all fixed-boundary problems and all parameters of the transformations",
     "Tests compare single cases with stored numbers; a relation between two runs needs no reference values and covers signs, units and asymmetric terms for arbitrary inputs.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/ideal_mhd_model/ideal_mhd_model.cc", V + "vmec/boundaries/boundaries.cc", V + "vmec/boundaries/guess_magnetic_axis.cc", V + "vmec/radial_profiles/radial_profiles.cc", V + "vmec/fourier_geometry/fourier_geometry.cc", OQ],
     [("asymmetric and symmetric code paths", "ideal_mhd_model.cc"), ("theta flip and shift", "Boundaries"), ("normalisations", "radial_profiles.cc, vmec.cc"), ("sign conventions of outputs", "output_quantities.cc")], ["VmecOutput.wout of both runs"],
     "metamorphic property-based testing (Hypothesis) of pairs of runs related by a generated transformation", FIX)
prop("C07", "Saved results contain exactly what was computed",
     "Saving a wout object as netCDF and reading it back, saving all results as HDF5 and loading them, converting results between C++ and Python and between Python and JSON each return every stored field with the same shape and the same bits, for every table size, symmetry, profile length and number. The netCDF file holds each quantity under its VMEC name in the classic format and layout. A save that fails reports an error, leaves an existing file untouched and leaves no partial or temporary file.",
     ["inputs", "crash points", "histories"], "all result objects (table sizes, symmetric or not, special numbers, profile lengths, strings) and all points at which a save can fail",
     "Tests store one or two results; square tables, long profiles, asymmetric tables and interrupted saves are not covered.",
     [P + "__init__.py", OQ, "src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc", V + "vmec/pybind11/pybind_vmec.cc"],
     [("VmecWOut.save/from_wout_file", "__init__.py"), ("_to_cpp_wout/_from_cpp_wout", "__init__.py"), ("OutputQuantities::Save/Load and the WriteTo/LoadInto pairs", "output_quantities.cc")],
     ["the file bytes as read by netCDF4", "the object read back", "directory contents after a failed save"],
     "property-based round-trip testing (Hypothesis) of generated result objects and real runs, with injected write faults", RND + "Fields that the HDF5 format documents as not stored are excluded there.")
prop("C18", "Warm starts, grid refinement and stepwise driving reach the same result",
     "A run started from the result of the same input (in memory, from JSON or from a wout file, on any thread count) is at once recognised as converged and returns the same equilibrium. A run of another input started from any earlier result gives the equilibrium that a cold start gives. A state whose resolution, symmetry or table shape does not fit is rejected with an exception. The Python iteration loop follows the C++ solver iteration by iteration, the time-step controls differ only in how they revert, and for every residual history the loop stops, restarts and adapts the time step as its style defines; grid refinement transfers every coefficient with the stated interpolation and refuses coarser grids without touching the state.",
     ["inputs", "histories"], "all fixed-boundary problems, pairs of problems, stored states, thread counts, stages and interpolation schemes",
     "Tests restart two stored symmetric cases; asymmetric states, other thread counts, mismatched states and arbitrary stage sequences are not covered.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/fourier_geometry/fourier_geometry.cc", P + "_iteration.py", P + "__init__.py", V + "vmec/pybind11/pybind_vmec.cc"],
     [("InitFromState", "fourier_geometry.cc"), ("CheckInitialState, InterpolateToNextMultigridStep, SolveEquilibriumLoop", "vmec.cc"), ("solve_equilibrium, solve_multigrid, iterate", "_iteration.py")],
     ["VmecOutput.wout", "force residual and restart histories", "VmecModel state vectors"],
     "property-based testing (Hypothesis): warm against cold runs, Python loop against C++ loop, refinement against a numpy model of the interpolants", FIX + "Routes are compared at shrinking ftol where they differ by more than 1 % of the minor radius.")
prop("C24", "The SIMSOPT wrapper and the programs give the results of the plain run",
     "For every sequence of operations on a vmecpp.simsopt_compat.Vmec object (changing boundary coefficients, degrees of freedom, resolution, replacing the boundary, running, hot restarting, asking for results, writing the input), every result is the one vmecpp.run gives for the input that the history implies, independent of earlier runs; the solver runs exactly when something changed since the last success; objects that depend on the boundary are told of its changes; derived quantities (aspect, volume, iota, shear, well, external current, grids) match their definitions; an object made from a wout file gives the stored results and refuses to run. The command line writes wout_<name>.nc with the results of vmecpp.run for that file and thread count, convert writes the same input as JSON, and output names follow the documented rules. The stand-alone C++ programs write the results of the same run or the response table of the same coils, or fail without writing anything, and the surface made from an input file is its boundary.",
     ["inputs", "histories"], "all fixed-boundary inputs and sequences of operations on the wrapper; command-line options and file names, input and coils files",
     "Tests look at a few operations on stored inputs; stale results and lost coefficients show only for particular sequences of changes, runs and resolutions.",
     [P + "simsopt_compat.py", P + "__main__.py", P + "_util.py", P + "__init__.py", V + "vmec/vmec_standalone/vmec_standalone.cc", "src/vmecpp/cpp/makegrid/makegrid/makegrid.cc", V + "simsopt_compat/_indata_to_surfacerzfourier.py"],
     [("cached results and dirty flag", "Vmec.run, recompute_bell, boundary setter"), ("transfer between surface and input", "Vmec.set_indata, set_mpol_ntor"), ("command line", "__main__.py")], ["results and input of the wrapper", "number of solver runs", "files written by the command line"],
     "stateful model-based property testing (Hypothesis) of the wrapper against a coefficient model and vmecpp.run; differential testing of the command line", RND + "Fixed boundary; replaced boundary surfaces keep field periods and symmetry.")
prop("C25", "VmecModel is a pure, differentiable forward model of its state",
     "Evaluating a VmecModel gives the same forces, residuals and energies for the same state and iteration settings, whatever was done with the model before. Solving a problem with it gives what vmecpp.run gives. Its state primitives (set/get state, backup, restore, time step, velocity reset, refinement, evaluation counter) do exactly what they say. The raw force is the gradient of the MHD energy, the Hessian-vector product is the derivative of the raw force and leaves the state as it was, also when an evaluation in it fails, and applying the preconditioner to the raw force gives the preconditioned force. Vectors of wrong length, unknown restart reasons, fewer than 3 surfaces and states of another resolution are refused with an exception.",
     ["inputs", "histories"], "all fixed-boundary problems, states with a valid Jacobian and sequences of operations on a model",
     "Tests run a few operations on one or two stored problems; leftover state between operations and wrong terms of single Fourier modes show only for particular histories and states.",
     [V + "vmec/pybind11/pybind_vmec.cc", V + "vmec/ideal_mhd_model/ideal_mhd_model.cc", V + "vmec/fourier_geometry/fourier_geometry.cc", P + "_iteration.py"],
     [("VmecModel operations", "vmec/pybind11"), ("force evaluation and preconditioner", "ideal_mhd_model.cc")], ["VmecModel state, velocity, forces, residuals, energies, counters"],
     "stateful model-based property testing (Hypothesis) against a numpy model and fresh models, finite differences of the energy and of the force", RND + "Forces after an evaluation with a bad Jacobian are unspecified; mpol_geometry/ntor_geometry freeze part of the state and are excluded.")
FB = V + "free_boundary/"
prop("C22", "The free-boundary vacuum field solves the exterior field problem",
     "For every toroidal surface, external vacuum field and plasma current, the field that the vacuum solver returns on the surface is tangential to it, carries the prescribed toroidal current and the coils' poloidal current, and is the one whose continuation cancels the external field inside the plasma (to the accuracy of the discretisation). It is linear in the field and the current, follows rescaling, reversal, mirroring and shifts of the angles, is the same for the symmetric and the asymmetric description, for any number of threads and field periods and after any earlier updates, and an update with stored matrices at unchanged inputs repeats the full one. The coils-only model returns the coil field.",
     ["inputs", "histories", "schedules"], "all surfaces (deformation up to 15 %), external vacuum fields, currents, symmetries, grids, field periods and thread counts",
     "Tests compare stored tables of one stellarator case; asymmetric surfaces, other field periods and thread counts are not settled by them.",
     [FB + "nestor/nestor.cc", FB + "laplace_solver/laplace_solver.cc", FB + "regularized_integrals/regularized_integrals.cc", FB + "singular_integrals/singular_integrals.cc", FB + "surface_geometry/surface_geometry.cc", FB + "external_magnetic_field/external_magnetic_field.cc", FB + "only_coils/only_coils.cc", FB + "tangential_partitioning/tangential_partitioning.cc"],
     [("Nestor::update", "nestor.cc"), ("Green's function and singular integrals", "regularized_integrals.cc, singular_integrals.cc"), ("potential solve", "laplace_solver.cc")], ["vacuum field components, magnetic pressure, net covariant components at the surface"],
     "property-based testing (Hypothesis): extinction theorem by quadrature as an independent oracle, and metamorphic relations", RND + "One known finding: 0.1-0.3 % error on helical surfaces (see known_findings.json).")
prop("C23", "Free-boundary equilibria are in balance with the coils that hold them",
     "Axisymmetric and symmetric free-boundary problems near the reference configurations are solved. For every converged free-boundary run, the field at the plasma edge implies (virtual casing) the field of the coils everywhere inside the plasma, and running the edge as a fixed boundary gives the same interior. Scaling currents, flux and pressure, scaling lengths, reversing all currents, displacing, mirroring or turning the coils, describing the plasma with lasym or with other field periods, giving the coil field as a file instead of a table, other thread counts, starting shapes, vacuum-update intervals and restarts change the equilibrium exactly as the physics says, or not at all, within the solver tolerance.",
     ["inputs", "schedules"], "free-boundary tokamaks and stellarators with generated coil currents, flux, pressure, current or iota, resolution, symmetry and thread count",
     "Tests compare two stored free-boundary cases with Fortran results; asymmetric runs and the relation between plasma and coils are not covered.",
     [V + "vmec/vmec/vmec.cc", V + "vmec/ideal_mhd_model/ideal_mhd_model.cc", FB + "nestor/nestor.cc", FB + "mgrid_provider/mgrid_provider.cc", P + "_free_boundary.py", P + "__init__.py"],
     [("coupling of vacuum pressure to the edge force", "ideal_mhd_model.cc"), ("vacuum update schedule", "IdealMhdModel::update"), ("free-boundary run with table or file", "vmec.cc, __init__.py")], ["VmecOutput.wout of free-boundary runs"],
     "property-based testing (Hypothesis): virtual casing by quadrature as an independent oracle, and metamorphic relations between runs", RND + "Converged runs of two coil sets (coils.solovev, coils.cth_like); edge poloidal field to 4 %.")
