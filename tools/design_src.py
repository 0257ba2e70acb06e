"""What each check specifies, by property (for DESIGN.md)."""
D = {}
D['C01'] = ('Every public function, constructor and method is interpreted for all values of its options; each argument object gets a label '
            'that follows aliases, views, containers and attributes. A write (item/attribute/augmented assignment, mutating method, in-place numpy or '
            'Fortran call) on a labelled object is a violation unless the documentation of the function says that the argument is changed.',
            'all inputs; libraries pure except a table of in-place operations', 'about 30 s')
D['C02'] = ('Same interpreter: objects rooted in a class attribute, a module global or a default argument may not be written by calls, and may not '
            'be returned to a caller who owns and changes them.', 'all inputs', 'about 25 s')
D['C03'] = ('Nullness: a parser is interpreted for every subset of missing text blocks (raw getters return None, commands return empty text). A None '
            'that reaches an operation raising on it, in a getter, container or `get_cont`, is a violation.', 'blocks cut in the middle are out of scope', 'about 10 s')
D['C05'] = ('Factors of the unit tables are folded to numbers from the source of the constants and compared with an independent CODATA table; a scale domain '
            'follows each quantity from its raw getter to the container and counts how many times it is scaled and by which factor.', 'text to number conversion trusted', 'about 2 s')
D['C06'] = ('Constants module folded, each value against CODATA and against the defining relations between them, also as seen by importing modules.', 'rtol 3e-6', 'about 1 s')
D['C07'] = ('Structure/Trajectory methods interpreted on a heap of attributes with symbolic shape and provenance terms, for the full object and for each '
            'missing attribute; relational rules (attributes of one step belong to one step, axis convention, slices select the same steps everywhere, derived '
            'quantities follow their sources).', 'numeric kernels uninterpreted', 'about 10 s')
D['C09'] = ('Parsed Fortran: for each parallel region every shared location written must be indexed by the parallel loop variable, private, reduced or in a critical/atomic construct.', 'constructs in use', '<1 s')
D['C10'] = ('Parsed Fortran: subscripts against declared bounds by linear inequalities over loop bounds (all sizes), intent(in) never written, intent(out) defined on all paths.', 'linear subscripts', '<1 s')
D['C11'] = ('Python call sites of the extension: argument count, order, rank, dtype kind, Fortran order where in-place, output initialised.', 'arrays allocated in the package', 'about 25 s')
D['C12'] = ('Every reachable statement for every option value: names bound, attributes exist, calls fit signatures (also of the installed libraries, read from '
            'their source), format strings fit their arguments, modules exist.', 'about 96% of all statements are reached', 'about 55 s')
D['C14'] = ('SQL text built by the package is evaluated symbolically down to the cursor call: values only as bound parameters, the configured table only, and '
            'a typestate `changed -> committed` on all paths.', 'column names are identifiers of the caller', 'about 1 s')
D['C15'] = ('Each deleting or overwriting call site with the conditions known on every path to it: an explicit request, or a finished backup.', 'the text of shell commands', 'about 1 s')
D['C16'] = ('Acquire/release typestate over all paths with exceptional edges and summaries of callees.', 'sqlite connections, figures excluded', 'about 2 s')
D['C19'] = ('Tables folded and compared with an independent periodic table; kind inference (symbol, number, mass) for keys and derived species attributes.', 'complete for the tables', 'about 1 s')
D['C20'] = ('Each element of the result of an array re-arrangement is a symbolic term; its provenance must be the element of the definition (Voigt, flatten, slices, '
            'extension, supercell order, ASE/CPMD/PWscf layout, file layout of each parser).', 'small fixed sizes', 'about 1 s')
D['C21'] = ('Taint: iteration over sets, listings, id()/hash(), global random state to results, files or control flow; sorted() clears.', 'threads and clock excluded', 'about 4 s')
D['C22'] = ('Value graph of each result element (cells, reciprocal cell, distances, minimum image, angles, k-grids, supercells, neighbours, pair distribution: the histogram of symbolic distances forks on the sampled bin) against its definition.', 'small fixed sizes; real numbers', 'about 2 s')
D['C23'] = ('As C22 for velocities, kinetic energy/temperature, pressure, elastic averages, thermodynamics, EOS, trajectories, RMSD/MSD alignment.', 'small fixed sizes; real numbers', 'about 5 s')
D['C24'] = ('As C22 for fft helpers, correlation, windows, spectra, fits, splines, polynomials, interpolation, minima and roots (fits and root finders are uninterpreted functions of their data and of the function they search).', 'small fixed sizes; real numbers', 'about 3 s')
D['C25'] = ('The text a writer builds is interpreted with symbolic numbers that are written as unique tokens; every token position must hold the term of the format definition.', 'small fixed sizes; tokens, not blanks, are compared', 'about 2 s')
D['C26'] = ('A file in the layout of the program is made of unique tokens (with sign or exponent where the program prints them); the reader is interpreted on it, with the pipes of grep, sed, awk, head, tail, cut and tr it starts evaluated by a model of these tools (refs/shell.py); every returned element must be the term of its place in the file times the unit factor.', 'layouts of refs/readers.py; 1 to 4 atoms, 1 to 3 steps or q-points; binary dcd files are left to C10/C11', 'about 30 s')

D['C27'] = ('SQLiteDB and makedb are interpreted over a database model: what each constant SQL statement they build does to a table is computed by SQLite in memory of the analyser, uncommitted changes do not reach the model disk, and the state on that disk after each history is compared with a plain list of rows (every start, extend, overwrite, number of values). Further: batch, sql, comb and template code is interpreted on a model file system (files, directories, backups) and a model table that understands the statements of write_input; files, records and columns after each history must be those of a reference written from the documentation.', 'a fixed set of templates, rows, machines and histories (up to 3 studies)', 'about 2 s')
D['C28'] = ('random.py is interpreted with a generator that returns scripted draws (numbers between the limits the code passes); tests of numbers are folded, so each script is one path; sides, angles, volume and minimum image distances of the structure that comes out are measured against limits computed from an independent table of covalent radii; scripts without any fit must raise.', '129 scripts: cells that fit, are too small, too large or flat; places too close directly, through one wall and a corner; retries, failure, start over, two structures of one generator', 'about 3 s')
