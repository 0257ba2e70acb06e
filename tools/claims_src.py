EFF = ('Sound for the effects modelled: aliasing, views, attribute flow and calls are followed through the whole package for all '
       'option values; numpy/scipy calls are trusted to be pure except a table of known in-place operations. ')
CLAIMS['C01'] = ('effect analysis by whole-program abstract interpretation (argument labels followed through aliases and views)', EFF)
CLAIMS['C02'] = ('effect analysis by whole-program abstract interpretation (class, module and default-argument objects)', EFF)
CLAIMS['C05'] = ('constant propagation of unit factors and a scale domain pushed through the container code',
                 'Decides the factor tables and their application for all inputs; the text parsing of the raw getters is trusted to return native units.')
CLAIMS['C06'] = ('constant propagation against an independent CODATA table and defining relations',
                 'Complete for the constants module and its importers; relative tolerance 3e-6.')
CLAIMS['C03'] = ('nullness analysis by abstract interpretation (absent text, None attributes, guards refine the state)',
                 'Covers every getter of every parser and container class for every subset of missing quantities; blocks that are cut off in the middle are out of scope.')
CLAIMS['C12'] = ('name, attribute, call and format resolution by abstract interpretation over all option values; type checker for external signatures',
                 'Every statement the interpreter reaches (about 96% of all) is resolved; objects of other libraries and calls with unknown *args/**kwargs are trusted.')
CLAIMS['C09'] = ('sharing (ownership) analysis of OpenMP regions on the parsed Fortran source with interprocedural effects',
                 'Sound for the constructs used (parallel, do, private, reduction, atomic, critical); subscripts that are not linear in the parallel loop variable are reported.')
CLAIMS['C10'] = ('polyhedral bounds analysis, symbolic shape inference and definite-assignment analysis of the Fortran source',
                 'Every linear subscript is decided for all sizes >= 1; non-linear or data-dependent subscripts are counted as not decided.')
CLAIMS['C11'] = ('interface contracts derived from the Fortran source, checked at call sites by abstract interpretation',
                 'All call sites of the package; array order and initialisation are decided where the array is allocated in the package.')
CLAIMS['C14'] = ('symbolic evaluation of statement text (templates followed through helpers to the cursor) and a typestate for uncommitted changes',
                 'All statements of the package are resolved; column names are identifiers chosen by the caller and are not judged.')
CLAIMS['C15'] = ('effect analysis with path facts: each deleting call with the tests and backups known on every path to it',
                 'Deletions by external programs are seen only in the text of the commands the package itself runs.')
CLAIMS['C16'] = ('typestate analysis of acquire/release over all paths with exceptional edges and call summaries',
                 'Every call is taken to be able to raise; attribute loads are not. Database connections and matplotlib figures are not covered.')
CLAIMS['C19'] = ('constant folding of the data module against an independent periodic table; kind inference for table keys and species attributes',
                 'Complete for the tables (masses to 3e-4, heavy elements without stable isotope to 2e-3/1.5e-2); lookups whose key has no inferred kind are counted as not decided.')
CLAIMS['C21'] = ('interprocedural dataflow analysis (taint) of undefined order and of random state',
                 'Covers sets, directory listings, id/hash and the random modules; wall clock time and thread scheduling are out of scope.')
CLAIMS['C07'] = ('abstract interpretation of the container code (heap of attributes, arrays as symbolic shape plus provenance term), relational rules on the resulting object',
                 'Each operation is decided for the object with all attributes and for every single missing one, for all sizes; the numeric kernels (coordinate transforms, volume, smoothing kernel) are uninterpreted functions with known result shapes.')
VN = 'abstract interpretation with one symbolic term per array element; value-graph equivalence (global value numbering by random interpretation) of each element with the term of its definition'
VNL = 'Fixed small array sizes (1 to 7 per axis) stand for all sizes; real-number semantics (no rounding, no NaN); library routines are uninterpreted or modelled; obligations whose terms cannot be read are listed as undecided and never reported.'
for _k in ('C20', 'C22', 'C23', 'C24', 'C25', 'C26'):
    CLAIMS[_k] = (VN, VNL)

CLAIMS['C27'] = ('abstract interpretation of the study code over a model file system and table, result compared with that of the definition',
                 'A fixed set of templates, rows and histories stands for all; the database is a model of the statements write_input uses (another statement is listed as undecided).')
CLAIMS['C28'] = ('abstract interpretation of the structure generator over scripted sequences of draws, result measured against limits computed from an independent table of radii',
                 'A fixed set of draw sequences stands for all; the Fortran distance routine is its reference here (decided by other checks).')
