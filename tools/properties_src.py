S = 'src/pwtools/'

prop('C01', "Library calls leave the caller's arguments unchanged",
 "Calling a public function, constructor or method never changes an array, list, dict or object the caller passed in, neither during the call nor through a later call on the returned object. The only exceptions are the documented in-place modes (copy=False, the filled array of sliceput/min_image_convention, explicit set/compress/update methods on the object itself).",
 ['inputs', 'histories'], "every public function, class constructor and method, every argument, every option value",
 "Tests compare returned values; very few keep a pristine copy of the inputs, and only for the argument kinds (copy vs. view, list vs. array) they happen to use.",
 [S+f for f in ('crys.py','num.py','signal.py','batch.py','rbf/core.py','rbf/hyperopt.py','eos.py','thermo.py','pydos.py','io.py','arrayio.py','mpl.py')],
 [('defensive copies before in-place numpy operations', 'crys.py coord_trans/pbc_wrap/rpdf, num.py, signal.py'), ('copy= switches', 'crys.py')])

prop('C02', "No mutable state is shared between objects or calls",
 "The result of using one parser, structure, calculation or function never depends on which other objects were created or calls were made before: class-level tables, module-level tables and default argument values keep their import-time value for the life of the process.",
 ['histories'], "every sequence of constructor, method and function calls in one process",
 "Each test builds one object in a fresh order; leaks through class attributes or default arguments show only for particular sequences of different classes in one process.",
 [S+f for f in ('parse.py','base.py','crys.py','batch.py','calculators.py','num.py')],
 [('class-level attribute lists and default_units tables', 'parse.py, crys.py'), ('default arguments', 'all modules')])

prop('C03', "Missing data in an output file yields None, not a crash",
 "When an output file lacks some quantity, a parser returns None for that quantity and for every quantity that is computed from it, and everything else is still parsed; no attribute access, indexing or arithmetic is ever done on an absent value.",
 ['inputs'], "every parser class, every getter, every subset of quantities missing from the input file",
 "The test files are complete outputs; each getter is exercised with all its dependencies present, and the number of subsets of missing quantities is exponential.",
 [S+'parse.py', S+'base.py', S+'crys.py'],
 [('set_attr/check_set_attr/assert_set_attr guards', 'base.py FlexibleGetters'), ('None propagation in getters', 'parse.py, crys.py')])

prop('C05', "Parsed quantities come out in the documented units, scaled exactly once",
 "Every parser multiplies each parsed quantity (lengths, volume, energies, stress and pressure, forces, velocities, temperature, time step) by the factor that takes the native unit of the external program to Ang, eV, GPa, eV/Ang, Ang/fs, K, fs, unless the user overrides that quantity's factor. In the returned structure or trajectory each quantity carries its own factor exactly once (cell angles and fractional coordinates none), no matter how often the container is requested or which other parsers were used before.",
 ['inputs', 'configurations', 'histories'], "every parser class, every quantity, every user override, repeated requests",
 "Tests compare a few attributes of a few files with reference values in one order of calls; a wrong factor for a quantity that no test file has, a mix-up for one override, or a repeated request is never exercised.",
 [S+'parse.py', S+'crys.py', S+'constants.py'],
 [('default_units tables of the parser classes', 'parse.py'), ('UnitsHandler.update_units/apply_units', 'crys.py'), ('StructureFileParser.get_cont', 'parse.py')])

prop('C06', "Physical constants and conversion factors are correct and consistent",
 "Each physical constant and conversion factor has its CODATA value, and the derived ones obey their defining relations (hbar=h/2pi, Ha=2 Ry, th=hbar/Ha, R=kB*NA, 1 eV/Ang^3 in Pa and GPa, ...). Any module that uses a constant sees that value.",
 ['configurations'], "all constants and conversion factors, all modules that import them",
 "Most constants appear only inside ratios, or in code that no test compares with an external reference; a wrong digit or exponent in a rarely used one goes unnoticed.",
 [S+'constants.py'], [('module level definitions', 'constants.py')])

prop('C14', "SQL statements bind their values, use the configured table and are committed",
 "Every value that is written to or compared in the database is bound to a placeholder (never pasted into the statement text), with as many placeholders as values and in the order of the columns; every statement works on the table the caller passed, or else the one the object was opened with, never on a fixed name; a function that opens a database itself (ParameterStudy.write_input, makedb, get_test_db) has committed all its changes when it returns; the result of max() over a table that may be empty is tested before it is used.",
 ['inputs', 'configurations', 'crash_points'], "every SQL statement of the package, every value, table name and option that reaches it",
 "Tests use harmless values and the default table name; quotes in a value, another db_table, an empty table or a second revision need special data.",
 [S+'sql.py', S+'batch.py'],
 [('SQLiteDB methods with table=None', 'sql.py'), ('database part of write_input', 'batch.py'), ('makedb', 'sql.py')])

prop('C15', "Nothing is deleted unless it was asked for, and only after its backup",
 "A file, directory or table is removed, moved away or dropped only if the caller asked for it with an option (mode='w', keepfiles=False) or if it is a temp file that the same call made; where a backup option exists and is on, the backup of that same path has been made before anything deletes or overwrites it (ParameterStudy.write_input: database and calculation dirs; calculators: input and output files); common.backup never overwrites an existing file or backup; names in deleting shell commands are quoted.",
 ['inputs', 'configurations', 'histories'], "every deleting, moving or dropping call in the package and every path to it; every option value",
 "Tests run in fresh scratch directories where nothing valuable exists; a deletion too much, or before the backup, shows only with old results present.",
 [S+f for f in ('batch.py', 'sql.py', 'common.py', 'visualize.py', 'calculators.py')],
 [("mode='w' / backup in write_input", 'batch.py'), ('backup()', 'common.py'), ('keepfiles', 'visualize.py'), ('self.backup', 'calculators.py')])

prop('C16', "Files and descriptors are closed on every exit",
 "Every file, gzip stream, HDF5 file, pipe and temp-file descriptor that a function of the package opens is closed when the function is left, by return or by an exception raised at any later point (unless it is handed to the caller or kept in an attribute that a method closes); a file object that the caller opened and passed in is left open.",
 ['fault_sequences', 'inputs'], "every function, every path through it, an exception at every call",
 "A leaked descriptor shows only after many calls, and an unclosed output file only loses data when something fails; tests take the path without errors and CPython's reference counting hides the rest.",
 [S+f for f in ('common.py', 'io.py', 'base.py', 'arrayio.py', 'dcd.py', 'decorators.py', 'crys.py', 'visualize.py', 'parse.py', 'pwscf.py', 'eos.py')],
 [('file readers and writers', 'common.file_read/file_write, io.read_h5/write_h5/read_pickle, arrayio.writetxt, dcd.read_dcd_*'), ('decorator', 'decorators.open_and_close'), ('temp files', 'common.mkstempfile')])

prop('C12', "Every option and branch of the library is executable",
 "No value of an option (mode, method, flag, None or given) leads into code that cannot run: every name that a function uses is bound, every attribute of a module or object it asks for exists, every lazily requested getter exists, every call passes arguments that the called function accepts (also into the installed numpy/scipy), every format string matches the number of values, every fixed index or key is inside its table, and functions that document a string argument accept a string.",
 ['inputs', 'configurations'], "every function and method of the package (private ones included) and the scripts in bin/, every option value, every branch",
 "Python resolves names, attributes and calls only when the statement is executed; error branches, rare options and option combinations are not run by the tests.",
 [S+'*.py', 'bin/*.py'],
 [('set_attr/try_set_attr dispatch to get_<name>', 'base.py'), ('option dispatch (mode, method, what, case, ...)', 'signal.py, num.py, crys.py, io.py, eos.py, thermo.py, kpath.py')])

FS = 'src/_ext_src/'
prop('C07', "Structure and Trajectory stay consistent under every operation",
 "Every operation on the containers (construction, copy, slicing, iteration, mean, smooth, compress, concatenate, get_traj/struct2traj, mix, scell, align_cart, pbc_wrap, center_on_atom, nearest_neighbors_struct) treats all quantities that an object carries in the same way: each per-step quantity (coords, coords_frac, cell, cryst_const, volume, stress, pressure, forces, velocity, etot, ekin, temperature, time) goes through the same selection, average or repetition of the time axis, all arrays have as many steps as nstep and as many atoms as symbols, everything else is carried over unchanged, and nothing that every input has is lost. No result holds a value that contradicts another one: when coords, coords_frac or cell is changed, the values that depend on it (cell, cryst_const, volume, coords, coords_frac) are recomputed from the changed ones, time and timestep of joined trajectories are dropped, timestep is multiplied by the slice step; input given to a constructor is kept as given (multiplied once by its unit factor, repeated for every step where it is given once); a copy shares no array, list or dict with the original. Each loop over a trajectory starts at the first and visits every step.",
 ['inputs', 'histories'], "every operation, every subset of missing quantities (all attributes, and each single one missing), every number of steps and atoms",
 "The containers carry some thirty quantities; a test looks at two or three of them after one operation, on one object. A forgotten quantity keeps an old value or an old time axis and is noticed only when it is used.",
 [S+'crys.py', S+'base.py', S+'num.py'],
 [('containers', 'crys.Structure, crys.Trajectory, crys.UnitsHandler'), ('operations', 'crys.concatenate, mean, smooth, compress, mix, scell, pbc_wrap, center_on_atom, align_cart, nearest_neighbors_struct')])

prop('C09', "The compiled routines are free of data races between threads",
 "The results of the OpenMP-parallel Fortran routines (vacf, vect_loops, distsq, distances_traj) do not depend on the number of threads or their scheduling: in a parallel region each thread writes only to its own variables or to array elements that belong to its own loop iterations, and no routine that runs in parallel (in a region, or without the GIL) keeps state between calls.",
 ['schedules', 'configurations'], "every number of threads, every interleaving, every array size",
 "A race corrupts results only under particular timings and sizes; the tests run small arrays for a few milliseconds and mostly pass by luck.",
 [FS+'flib.f90', FS+'dcd.f90'],
 [('private clauses and worksharing loops', 'flib.f90 distances_traj, vacf, vect_loops, distsq'), ('f2py threadsafe', 'flib.f90')])

prop('C10', "Compiled routines stay inside their arrays, keep inputs, define results",
 "For all array sizes >= 1 the Fortran routines access only elements inside the declared bounds, combine only arrays of equal shape, never write to an array that is an input (f2py hands over the caller's own memory), assign every element of every result unless they report an error, read no local variable before it is assigned and keep no values between calls.",
 ['inputs', 'histories'], "every routine, every array size, every flag value, every sequence of calls",
 "Out-of-bounds reads by one element and unassigned elements usually return plausible numbers; they depend on the size and on what is in memory, and bounds checking is off in the build.",
 [FS+'flib.f90', FS+'dcd.f90'],
 [('loop bounds and sections', 'flib.f90 vacf, vect_loops, acorr'), ('work arrays for LAPACK', 'flib.f90 solve, cart2frac'), ('result loops', 'dcd.f90 read_dcd_data_from_unit')])

prop('C11', "Python calls of the compiled routines fit the Fortran interfaces",
 "Every call of _flib and _dcd passes the arguments the routine takes, in its order; flags have a value the routine knows; an array whose content the routine reads or only partly assigns is initialised by the caller; where the caller drops the returned arrays and uses the ones it passed, these are Fortran-ordered double precision arrays, so that the routine fills them and not a copy; several results are unpacked in the order the routine returns them.",
 ['inputs', 'configurations'], "every call site, every option value and argument kind that reaches it",
 "Uninitialised memory is zero most of the time, silent copies depend on order and type of the array, and the rarely used call sites (dcd reader, random structures, thread count option) have few or no tests.",
 [S+f for f in ('crys.py', 'num.py', 'signal.py', 'pydos.py', 'random.py', 'dcd.py')] + [FS+'flib.f90', FS+'dcd.f90'],
 [('work arrays from fempty/np.zeros', 'crys.py distances/distances_traj/angles, num.py, pydos.py fvacf, random.py'), ('f2py intent directives', 'flib.f90')])

prop('C19', "The periodic table and the species attributes derived from it are right",
 "atomic_data.symbols, masses, covalent_radii, numbers and pt have one entry per element, agree with each other and with the periodic table (symbol, atomic number, mass in amu, covalent radius in Angstrom). The species attributes of Structure and Trajectory follow from them: znucl, mass and typat give one value per atom in the order of symbols; symbols_unique, znucl_unique and mass_unique one per species; order maps symbols to type numbers from 1; tables are looked up by symbol or atomic number as they are indexed. The LAMMPS writer numbers types and atoms from 1.",
 ['inputs'], "every element of the table, every lookup in the package, every species attribute",
 "Tests use a handful of light elements (Al, N, Si, O), for which a shifted row, a wrong radius or a missing element elsewhere in the table does not show.",
 [S+f for f in ('atomic_data.py', 'crys.py', 'random.py', 'symmetry.py', 'lammps.py')],
 [('symbols, masses, covalent_radii, pt, numbers', 'atomic_data.py'), ('get_symbols_unique ... get_mass_unique', 'crys.py'), ('struct_str', 'lammps.py')])

prop('C21', "Results do not depend on hash order, directory order or hidden random state",
 "The order of the elements of a set, of a directory listing, id() or hash() never decides the content or the order of a result, of an attribute, of written text or of a database: wherever such a collection is turned into a sequence it is sorted first. Nothing outside the random structure generator draws from the global random number generators, no function re-seeds them, and no generator is made without a seed.",
 ['configurations', 'histories'], "every set, directory listing and random generator in the package and all paths its order can take through calls and attributes",
 "String hashing differs from process to process; a test run sees one order, and with two or three elements it often is the sorted one.",
 [S+f for f in ('crys.py', 'batch.py', 'num.py', 'sql.py', 'mpl.py', 'random.py', 'io.py', 'rbf/core.py', 'rbf/hyperopt.py')],
 [('set operations on attribute names', 'crys.py populated_attrs, concatenate, mean, smooth'), ('database header', 'batch.py write_input'), ('symbols_unique', 'crys.py')])

prop('C20', "Re-arranged arrays keep every element in its place",
 "Functions that change the layout of data put every element where their documentation says, for every axis and every shape: Voigt notation is the order xx, yy, zz, yz, xz, xy in tensor2voigt, voigt2tensor and their 3d forms and for the stress handed to ASE (with its sign and unit), and the two directions are inverse to each other; num.slicetake, sliceput, sum, extend_array, DataND and arrayio.arr2d_to_3d select, assign, sum, repeat and fold along exactly the named axis or axes (negative ones included, lists of slices included, keepdims included) and leave the rest as it was; arrayio.writetxt followed by readtxt gives back the shape and every element of 1d, 2d and 3d arrays for every axis, dimensions of length 1 included; crys.scell, scell3d and scell_mask make dim1*dim2*dim3 copies of every atom, each shifted by whole cell vectors, keep the symbol of every atom, and scale the cell along its own vectors; indexing, slicing and iterating a Trajectory, Structure.get_traj, compress and concatenate take every attribute from its own step, in order, with timestep scaled by the step of the slice.",
 ['inputs'], "every element of the result, every axis, every layout, 1d to 4d arrays of symbolic elements",
 "Element order is tested on one axis and often on symmetric data (cubic cells, symmetric tensors, equal atoms), where two exchanged indices give the same numbers.",
 [S+f for f in ('crys.py', 'num.py', 'arrayio.py', 'calculators.py')],
 [('tensor2voigt, voigt2tensor', 'crys.py'), ('slicetake, sliceput, sum, extend_array', 'num.py'), ('scell, scell3d', 'crys.py'), ('Trajectory.__getitem__, concatenate, compress', 'crys.py')])

prop('C22', "Crystal geometry follows its definitions for every cell",
 "For every (triclinic, right- or left-handed where allowed) cell and every set of coordinates: cryst_const a, b, c, alpha, beta, gamma are lengths and the angles between bc, ac, ab; cc2cell and cell2cc invert each other; volumes agree in all forms; cc2celldm and celldm2cc follow the PWscf convention (celldm(4..6) are cosines, celldm(2..3) ratios to a); recip_cell satisfies a_i.b_j = 2 pi delta_ij; rmax_smith is half the smallest distance between cell faces; kgrid and grid_in_cell give length or reciprocal length of each vector divided by h, rounded, even and not below minpoints where asked, or the spacing for a given size; coord_trans maps coordinates between any two bases so that the point stays the same; pbc_wrap_coords and the minimum image convention move a fractional coordinate by whole lattice vectors into the range they document, and only along the axes they are asked for; distances, distances_traj and angles are the Cartesian lengths and angles between (nearest-image) atoms, with their difference vectors; ibrav2cell gives the primitive vectors of each of PWscf's 14 Bravais lattices from the entries of celldm that lattice needs; nearest_neighbors_from_dists gives the other atoms, without the skipped species, that are within cutoff or the num closest, by distance or in the order of the structure, with their distances; kpath and get_path_norm give the points along a path and the length of the path up to each point; rpdf counts, in shells of width dr up to rmax (by default half the smallest distance between cell faces), the distances between the atoms of the two selections in the selected steps, without the distance of an atom to itself and those that dmask drops, and divides by the ideal-gas count of the shell, its integral being the average number of neighbours; nearest_neighbors and nearest_neighbors_struct apply the same selection to a structure.",
 ['inputs'], "every cell and coordinate (symbolic elements), every option of the functions, 3d (trajectory) and single forms",
 "Tests use a few cells, mostly orthogonal or random ones compared with a second path through the same code; a transposed cell, an exchanged angle or a missing wrap along one axis passes there.",
 [S+f for f in ('crys.py', 'num.py')] + [FS+'flib.f90'],
 [('cc2cell, cell2cc, volume_*, recip_cell, rmax_smith, kgrid', 'crys.py'), ('coord_trans, coord_trans3d, pbc_wrap_coords, min_image_convention', 'crys.py'), ('distances, distances_traj, angles', 'crys.py')])

prop('C23', "Derived physical quantities follow their definitions",
 "What Structure and Trajectory compute from what they have (velocity from coordinates and timestep, ekin and temperature from velocity and mass, pressure and volume, time, cartesian from fractional coordinates and back) follows the definition with the unit of every factor; rmsd, rms and rms3d are root mean squares over the documented axes; mean, mix, align_cart, center_on_atom, pbc_wrap give the documented coordinates. HarmonicThermo (vibrational energy, free energy, entropy and heat capacity from a phonon density of states, with its normalization, frequency skipping and temperature handling), expansion with the Debye and Einstein functions, Gibbs (calc_F, calc_H, calc_G: the layout and the value of each array, minimum and curvature for every temperature and pressure), the Vinet equation of state with its first and second derivative, EosFit and ExternEOS (pressure = -dE/dV, bulk modulus = V d2E/dV2, minimum, refusal of data without a minimum inside or with unordered volumes), the unit conversions around the external eos.x, and the masses of the Nose-Hoover chains and barostats follow their formulas.",
 ['inputs'], "every element of every result as a function of all inputs (symbolic), for 1 to 3 axes, every case and option",
 "Tests compare with numbers the same code stored earlier or look at one temperature, one axis, one atom; a wrong factor, sign or index for the other ones stays unseen.",
 [S+f for f in ('crys.py', 'num.py', 'thermo.py', 'eos.py', 'mttk.py')],
 [('get_ekin, get_temperature, get_velocity, get_pressure', 'crys.py'), ('HarmonicThermo, Gibbs, expansion', 'thermo.py'), ('Vinet, EosFit, ExternEOS.calc_bv', 'eos.py'), ('nhc and barostat masses', 'mttk.py')])

prop('C24', "Signal processing, spectra and fits follow their definitions",
 "dft, ezfft and fft_1d_loop are the discrete Fourier transform along the axis they are given, with its frequency axis; fftsample relates sampling and frequency resolution; pad_zeros, mirror and the windows (welch, lorentz, gauss) have the documented length and values; acorr and the velocity autocorrelation agree for all methods and with their definition, with and without masses and normalization; smooth is the convolution with the (normalized) kernel and the documented edge treatment along the axis, for odd and even kernels; FIRFilter makes the filter of the requested mode from cutoff and Nyquist frequency; pdos (direct and vacf, with window, mass weighting, padding and area) is the power spectrum of the velocities normalized to area. norm_int normalizes, deriv_spl and Spline evaluate, differentiate and find roots and extrema where asked, PolyFit, PolyFit1D, polyfit, polyval and vander evaluate the polynomial (and its derivatives) of the fitted points for every scaling option, order_similar follows each data stream with the extrapolation order asked for, and the array helpers (distsq, normalize, norm, vlinspace, euler_matrix, meshgridt, scale) do what their names say; findmin, findroot, Fit1D.get_min/get_max/get_root and PolyFit.get_min find the place where the fitted function (or its derivative) has its zero or minimum, from the documented start or bracket; Interpol2D is the interpolator of the kind asked for with all the data, however they are given, and Data2D gives the same grid in all its forms; find_peaks returns every local maximum above ymin and refines its place with the spline, of the order asked for, of the points around. Rbf finds the weights that solve the (regularized) linear system for each basis function, width estimate and regularization, predicts with them, and deriv is the gradient of predict.",
 ['inputs'], "every element of every result as a function of all inputs (symbolic), every axis and option, even and odd lengths",
 "The numeric tests use one axis, one length parity and the default options, or compare two methods that share the code in question.",
 [S+f for f in ('signal.py', 'pydos.py', 'num.py', 'mpl.py', 'rbf/core.py')],
 [('pad_zeros, mirror, smooth, acorr, welch, FIRFilter', 'signal.py'), ('pdos, pyvacf, fvacf', 'pydos.py'), ('PolyFit, Spline, deriv_spl, norm_int, order_similar', 'num.py')])

prop('C25', "Text and objects made for other programs hold the numbers and names given",
 "Every number and every name handed to a function that makes text for another program or a file stands in that text, in full precision, once, in the place and unit the format asks for: common.str_arr, seq2str/str2seq, frepr, ffloat, tobool and fix_eps keep or convert the value they are given; pwscf.atpos_str, atpos_str_fast, atspec_str, kpoints_str, kpoints_str_pwin and bool2str write one row per atom or species with symbol, mass, pseudopotential and coordinates (k-points and shifts in order); io.write_xyz writes the cartesian coordinates in Ang of every step, io.write_axsf the cell vectors as rows and coordinates in Ang and forces in Hartree/Ang, io.wien_sgroup_input the six cell constants and the fractional coordinates; lammps.struct_str and io.write_lammps write the box lengths, the tilt factors xy xz yz, and per atom its number, the type of its element in the order of the masses block and its coordinates in the rotated cell. This holds for every cell, every set of atoms (repeated and interleaved species) and, for trajectories, every step. Structures given to ASE and spglib and taken back (get_ase_atoms, atoms2struct, FakeASEAtoms, get_spglib, spglib2struct) keep cell, fractional coordinates and species in order; spglib_get_spacegroup splits number and symbol, and spglib_get_primitive gives None only if nothing differs.",
 ['inputs'], "every number in the text as a function of all inputs (symbolic numbers that can be told apart in the text), 1 to 4 atoms and species in several orders, one and several steps",
 "Tests compare a few written files with stored ones or look for a crash; one structure with sorted symbols and a cubic cell does not show exchanged tilt factors, types or columns.",
 [S+f for f in ('common.py', 'pwscf.py', 'io.py', 'lammps.py', 'crys.py', 'symmetry.py')],
 [('str_arr, seq2str, frepr, ffloat, tobool', 'common.py'), ('atpos_str, atspec_str, kpoints_str', 'pwscf.py'), ('write_xyz, write_axsf, wien_sgroup_input, write_lammps', 'io.py'), ('struct_str', 'lammps.py'), ('get_ase_atoms, get_spglib, atoms2struct', 'crys.py'), ('spglib2struct, spglib_get_primitive', 'symmetry.py')])
prop('C26', "Readers of program output take every number from its place in the file",
 "For every number and name a program printed, the reader returns the one of its place, once, for the right atom, step and component, and in the unit it promises: the parsers of PWscf (scf, md, relax, vc-md), CPMD (scf, md), CP2K (scf, md, cell_opt), LAMMPS (log and dump), CIF and PDB files, and of dcd trajectories, return cell, coordinates (in alat, Bohr, Angstrom or crystal units and for each way the cell may be printed), symbols, forces, stress, energies, temperature, velocity, time step and counts from the lines and columns in which the program writes them, the columns being found by name where the file names them; steps that are printed before the first geometry do not shift the others; quantities that were not printed are None; get_struct and get_traj return them in eV, Angstrom, fs and GPa; pwscf.read_matdyn_modes, read_dyn, read_all_dyn, read_dynmat, read_dynmat_ir_raman and read_matdyn_freq return the q-points, frequencies, eigenvectors and intensities of the file in its order. What io.write_cif writes is what parse.CifFile reads back. One atom, one step and one q-point are no exceptions.",
 ['inputs'], "every number of the output as an unknown (numbers that can be told apart, with signs and exponents), 1 to 4 atoms with interleaved species, 1 to 3 steps, all units and cell forms",
 "Tests parse a few stored outputs and mostly look at which attributes are None, or compare with stored parses of the same code; one step, one atom, other units and other column orders are rarely among them.",
 [S+f for f in ('parse.py', 'pwscf.py', 'arrayio.py', 'io.py')],
 [('PwSCFOutputFile, PwMDOutputFile, PwVCMDOutputFile', 'parse.py'), ('CpmdSCFOutputFile, CpmdMDOutputFile', 'parse.py'), ('Cp2kSCFOutputFile, Cp2kMDOutputFile, Cp2kRelaxOutputFile', 'parse.py'), ('LammpsTextMDOutputFile, CifFile, PDBFile', 'parse.py'), ('read_matdyn_modes, read_dyn, read_all_dyn, read_dynmat', 'pwscf.py'), ('write_cif', 'io.py')])

prop('C27', "Every calculation of a parameter study gets the values of its row",
 "nested_loops gives each combination once, the last list varying fastest, flattened where asked; SQLEntry, sql_column and sql_matrix pair each value with its column name, its SQL type (given, or that of the Python type), the value for the database and the value for files, through the functions given for that column only; template_replace and FileTemplate replace each placeholder of the keys asked for by its value (frepr, or the format of the placeholder), every time it occurs, also where one placeholder is the start of another, and nothing else, the template file staying as it is. ParameterStudy.write_input makes, for every machine and every row, the directory <root>/<prefix>_<host>/<idx> with each template filled from that row, the machine and the study (study_name, calc_name, idx, revision), a run.sh that submits these directories in order, and one database record per row with the same values; appending continues idx, raises revision, adds columns for new keys and lists the old calculations in excl_push; writing anew starts from 0; incomplete rows stay incomplete. SQLiteDB and makedb put each value into the row and column asked for (start, extend, overwrite, new columns with the type of the values, mode and table name of makedb), refuse to overwrite what they should not, commit it when asked to, and read back single values, lists, arrays and dicts of the columns selected; conv_table lists the differences to the next or last value (absolute, with the values themselves) for each quantity.",
 ['inputs', 'histories'], "templates, rows (complete and incomplete), one or two machines and histories of up to three studies, appended or written anew",
 "Tests write one or two small studies and look for a few strings; keys that contain each other, incomplete rows, several machines and revisions after several appends are not seen together.",
 [S+f for f in ('batch.py', 'sql.py', 'comb.py', 'common.py')],
 [('FileTemplate, Calculation, ParameterStudy.write_input', 'batch.py'), ('SQLEntry, sql_column, sql_matrix, find_sqltype', 'sql.py'), ('SQLiteDB, makedb', 'sql.py'), ('conv_table', 'batch.py'), ('unique2d', 'comb.py'), ('nested_loops', 'comb.py'), ('template_replace', 'common.py')])

prop('C28', "A random structure fits the limits it was asked for, whatever is drawn",
 "For every sequence of random numbers, the structure RandomStructure returns has the atoms asked for, a cell whose sides, angles and volume lie within the ranges made from the covalent radii and the scales of the constructor, and no two atoms (periodic images included) closer than close_scale times the sum of their covalent radii. A cell or place that does not fit is drawn again; after cell_maxtry or atom_maxtry tries RandomStructureFail is raised, or with fail=False the search starts over, and a misfit is never returned. Structures made before are not changed by making another.",
 ['inputs', 'histories'], "scripted sequences of draws (fitting, too small, too large, too close directly and through cell walls, never fitting), atoms of several sizes and every scale",
 "Tests draw a few structures: a missing image, a wrong pair limit or a lost retry shows up only for rare draws.",
 [S+f for f in ('random.py', 'crys.py')],
 [('RandomStructure.get_random_cryst_const, _atoms_too_close, _get_random_struct', 'random.py')])
