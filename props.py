"""registry: property -> contract modules, run-time monitor, residual assumptions"""
COMMON = ['doubles are treated as mathematical reals (rounding, overflow, NaN/Inf of the data not modelled)',
          'machine integers are treated as mathematical integers (dimensions and index sums do not overflow)',
          'memory allocation never fails',
          'SmartPtr is treated as the raw pointer it stores (reference counting itself is property C12)',
          'Journalist output and timing statistics have no effect on the computation',
          'the LLVM-18 front end translates C++ correctly; the verifier (ipv) and z3 are trusted']
BLAS = ['IpBlas* wrappers behave like the reference BLAS routines they forward to']
CQ = ['calculated quantities are functions of the current iterate only; their definitions are proved under C17']

PROPS = {
    'C07': dict(modules=['densevec'], harness='C07.cpp', assumptions=COMMON + BLAS + ['vectors passed to one operation belong to the same space; two different vectors do not share storage']),
    'C02': dict(modules=['status', 'statusapp', 'statusresto'], harness='C02.cpp', assumptions=COMMON + ['every strategy object behind its interface returns or throws as it likes; once the algorithm has returned there is an iterate', 'constructing the statistics object and printing do not fail (except for evaluations of the summary)', 'completing the multipliers of a square problem does not throw', 'multipliers after a successful restoration phase are not part of the property; both clocks are read once or do not advance in between; the forwarding of the final solution by the adapter is covered by the monitor only', 'exceptions of the classes declared in Ipopt, of bad_alloc, overflow_error and one other foreign class stand for all that may be thrown']),
    'C05': dict(modules=['perturb'], harness='C05.cpp', assumptions=COMMON + ['pow(mu, exponent) > 0 for mu > 0 (libm)', 'option values are within their registered ranges (C13)', 'the caller passes in the perturbations it was given last']),
    'C01': dict(modules=['convcheck'], harness='C01.cpp', assumptions=COMMON + CQ + ['both clocks are read at most once per test, or do not advance in between']),
    'C03': dict(modules=['filt'], harness='C03.cpp', assumptions=COMMON + CQ + ['option values are within their registered ranges (C13)', 'the constraint violation is not negative', 'pow and log10 are uninterpreted functions (libm)', 'std::vector and std::list behave as sequences']),
    'C09': dict(modules=['tmat'], harness='C09.cpp', assumptions=COMMON + BLAS + ['indices of a triplet matrix lie within its dimensions', 'vectors are DenseVectors; x and y are different objects', 'HasValidNumbers is decided by the monitor only (non-finite numbers are outside the real-number model)']),
    'C08': dict(modules=['compvec'], harness='C08.cpp', assumptions=COMMON + ['blocks of one compound vector are distinct objects and not shared with another operand', 'each operation on a block acts by its definition (proved for dense vectors by C07, for nested compound vectors by this property)', 'reductions of a block are functions of its contents', 'std::vector behaves as a sequence']),
    'C10': dict(modules=['structmat', 'densemat'], harness='C10.cpp', assumptions=COMMON + ['the Fortran BLAS routines behave like reference BLAS', 'blocks of one compound vector are distinct objects and not shared with another operand', 'every matrix inside another one multiplies by its definition (proved for each kind here and in C09)', 'ConstComp and MatricesValid of compound matrices return the block and whether all are set (nested std::vector; decided by the monitor)', 'norms of dense matrices, and that the blockwise path of CompoundMatrix::SinvBlrmZMTdBr is only entered if every column has one block, are decided by the monitor']),
    'C06': dict(modules=['muupdate'], harness='C06.cpp', assumptions=COMMON + CQ + ['option values are within their registered ranges (C13)', 'the objective scaling factor is not zero (C16)']),
    'C11': dict(modules=['caches'], harness='C11.cpp', assumptions=COMMON + ['equal tags mean equal contents (each modification is proved to take a new tag; the counter does not wrap around)', 'an object is attached at most once to the observers of one subject', 'parts of composites are changed only through the composite; storage obtained for writing is written before the next query', 'std::vector and std::list behave as sequences']),
    'C17': dict(modules=['quant'], harness='C17.cpp', assumptions=COMMON + ['problem functions and scalings are functions of the point, and of mu if the objective depends on it (C14, C16)', 'the vector and matrix operations act by their definitions (C07-C10); cached results are those stored for the same dependencies (C11)', 'the correction of slacks that are practically zero is a function of the slack at the time it is first computed', 'multipliers handed to the slack correction are not zero', 'CalcNormOfType of a list is proved for the lengths in use (2, 3, 4)', 'violations of the original bounds are checked by the monitor only']),
    'C18': dict(modules=['csr'], harness='C18.cpp', bounded=[{'function': 'Ipopt::TripletToCSRConverter::InitializeConverter', 'contract': 'the index arrays describe the matrix of the triplets', 'reason': 'sorting and merging of data-dependent index arrays is outside the loop rules; exhaustive for dimension <= 3 with <= 4 triplets (thorough: dimension 3 with <= 5 and 4 with <= 4) and random patterns up to dimension 60, both formats and offsets', 'undischarged': 0}],
                assumptions=COMMON + ['the index arrays made by InitializeConverter are within range and describe the matrix (bounded check only)']),
    'C12': dict(modules=['smartptr'], harness='C12.cpp', assumptions=COMMON + ['the templates are verified for one object class and a class derived from it; they use nothing else of the class', 'fewer than 2^31 pointers refer to one object']),
    'C13': dict(modules=['options'], harness='C13.cpp', assumptions=COMMON + ['conversion between text and numbers is that of the C library (strtod, strtol, snprintf)', 'std::map and std::string behave as finite maps and character sequences', 'registered options have one of the three types and names are looked up as registered', 'the tokenizer of options files (readnexttoken) and AddStringOption with vectors are checked by the monitor only']),
    'C14': dict(modules=['tnlpad'], harness='C14.cpp', assumptions=COMMON + ['the evaluations of the user are functions of the point (and of factor and multipliers), write the arrays they are given within bounds and nothing else', 'the expansion matrices and index maps that GetSpaces builds are mutually inverse and within bounds; GetSpaces itself, the finite-difference branches, FinalizeSolution, the multipliers of fixed variables that are parameters and the quasi-Newton spaces are covered by the monitor only (bounded)', 'an injective map between index sets of equal size is onto (pigeonhole principle, stated for ResortBounds)', 'DenseVector, GenTMatrix and SymTMatrix behind their contracts (C07, C09)', 'tags identify contents (C11)']),
    'C15': dict(modules=['cface'], harness='C15.cpp', assumptions=COMMON + ['callbacks behave as functions: they return a status, write the arrays they are given within bounds and nothing else', 'the caller of an evaluation announces a point before it evaluates at it again (contract of the adapter, C14)', 'IpoptApplication and OptionsList behind their contracts (C13)', 'byte order and layout of the C types are those of the platform']),
    'C16': dict(modules=['scaling'], harness='C16.cpp', assumptions=COMMON + ['bound matrices are expansion matrices: every column has a single entry 1, in a row of its own', 'scaling factors are not zero', 'the NLP behind the interface returns the functions of the point it is given (C14)', 'each value stored in a cache is returned only for the same dependencies (C11)', 'row maxima and elementary vector operations are those of C07 to C10']),
    'C19': dict(modules=['triplet'], harness='C19.cpp', assumptions=COMMON + ['the Fortran BLAS copy and scal behave like reference BLAS', 'the parts of a matrix have the dimensions their space states', 'the contracts of the parts of a composite are those proved for each kind here (structural induction over the finite nesting)', 'GetComp of compound matrices returns the block (nested std::vector; decided by the monitor)', 'memory that is scaled by BLAS holds finite numbers (an uninitialised target is covered by the monitor)']),
    'C23': dict(modules=['pdsys', 'augsys', 'searchdir'], harness='C23.cpp', assumptions=COMMON + ['the augmented system solver behind its interface solves the system it reports as solved (its own part: matrix, right-hand sides and status given to the linear solver, is proved; the linear solver is C24)', 'slacks are not zero; sigma is the sum of multiplier over slack (C17)', 'bound matrices are expansion matrices', 'perturbations are those of the perturbation handler (C05); calculated quantities those of C17', 'the factor for the result is not zero', 'one right-hand side (more: monitor)', 'the curvature test that may replace the inertia check, and printing, are covered by the monitor only']),
    'C24': dict(modules=['tsym'], harness='C24.cpp', assumptions=COMMON + ['one or two right-hand sides (more: monitor)', 'a solver that asks to be called again has kept the right-hand sides', 'the structure of the matrix does not change after the first solve', 'the index arrays and compressed values are those of C18, the triplets those of C19, equal tags mean equal matrices (C11)', 'linear scaling and compressed formats are used together with problem data (full initialization)', 'the individual linear solvers and scaling methods behind the two interfaces are not part of the property']),
    'C26': dict(modules=['journal'], harness='C26.cpp', assumptions=COMMON + ['the text a journal writes for a format and its arguments is that of the C library', 'the list of journals is a sequence (std::vector)', 'GetJournal, AddJournal, line breaking and the file and stream journals are checked by the monitor only']),
}

NA = {}
