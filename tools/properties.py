#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe)}})


A = 'src/Algorithm/'
I = 'src/Interfaces/'
L = 'src/LinAlg/'
C = 'src/Common/'
SOLVE = 'the stable tests run a handful of small example problems to successful termination, so most branches are reached with one value or not at all'

p('C01', 'Termination tests report what actually holds',
  'The solver reports optimal convergence only if the overall scaled error and the unscaled dual, primal and complementarity errors are all within their configured tolerances, and acceptable convergence only after the configured number of consecutive iterates satisfied every acceptable-level tolerance including the relative objective change. Divergence, iteration-limit and time-limit stops are reported exactly when the corresponding limit is exceeded, and an evaluation of the tests never changes the iterate.',
  ['inputs', 'histories', 'configurations'], 'for all iterates, all tolerance settings and all histories of acceptable iterates',
  SOLVE + '; tolerances are left at their defaults and acceptable-level, time and divergence exits are never taken.',
  [A + 'IpOptErrorConvCheck.cpp', A + 'IpOptErrorConvCheck.hpp'],
  [('convergence check', A + 'IpOptErrorConvCheck.cpp CheckConvergence / CurrentIsAcceptable')], [('acceptable counter', 'number of consecutive acceptable iterates', A + 'IpOptErrorConvCheck.hpp')])
p('C02', 'Every way a solve can end maps to the right status',
  'Whatever way the optimization loop ends (converged, acceptable, each limit, tiny step, failed or infeasible restoration, evaluation error, user stop, lack of memory, invalid input), the algorithm status, the application return code and the status passed to the user with the final solution are the documented ones for that way. Restoration, tiny step and errors are never reported as success.',
  ['inputs', 'histories', 'fault_sequences'], 'for all ways the loop can end and all exceptions that can reach it',
  SOLVE + '; only success and a few failure codes are seen.',
  [A + 'IpIpoptAlg.cpp', I + 'IpIpoptApplication.cpp', I + 'IpTNLPAdapter.cpp'],
  [('status mapping', A + 'IpIpoptAlg.cpp Optimize; ' + I + 'IpIpoptApplication.cpp call_optimize')])
p('C03', 'The filter never lets in a dominated iterate',
  'A trial point is rejected by the filter exactly when some stored entry is strictly smaller in every coordinate, adding an entry removes exactly the entries it dominates and keeps all others, and clearing empties it. The sufficient-decrease, Armijo and switching decisions of the filter line search are exactly the documented inequalities in constraint violation, barrier objective and directional derivative of trial and reference point (the current iterate, or the start of the watchdog), the filter is augmented with the reference point and its margins exactly when required, and it is reset only by the reset heuristic, at most as often as configured.',
  ['histories', 'inputs', 'configurations'], 'for all sequences of filter operations and all values of the measures and parameters',
  'the tests accumulate only a few filter entries per run and cannot distinguish a wrong comparison unless a run happens to fail.',
  [A + 'IpFilter.cpp', A + 'IpFilter.hpp', A + 'IpFilterLSAcceptor.cpp'],
  [('filter', A + 'IpFilter.hpp Acceptable/Contains/Dominated, IpFilter.cpp AddEntry'), ('acceptance tests', A + 'IpFilterLSAcceptor.cpp IsFtype/ArmijoHolds/IsAcceptableToCurrentIterate')])
p('C05', 'Inertia correction follows its update rules',
  'The perturbations added to the KKT matrix are always zero or within the configured bounds, start from zero or the configured first value, grow and shrink by the configured factors, and exceeding the maximum is reported as failure. The perturbation reported to the caller is always the one last determined, and degeneracy is only concluded after the configured number of observations.',
  ['histories', 'inputs', 'configurations'], 'for all sequences of singular / wrong-inertia / success reports and all parameter settings',
  'the examples trigger few or no inertia corrections, and never long sequences of singular and wrong-inertia reports.',
  [A + 'IpPDPerturbationHandler.cpp'], [('perturbation handler', A + 'IpPDPerturbationHandler.cpp')],
  [('delta_x_curr_ ...', 'current perturbations', A + 'IpPDPerturbationHandler.hpp')])
p('C06', 'Barrier and fraction-to-boundary updates follow the formulas',
  'Under the monotone strategy the barrier parameter never increases (unless it is below its floor), changes only when the current barrier problem is solved to the required tolerance (or a tiny step occurred), is then decreased by the documented formula but never falls below its floor, and the fraction-to-boundary parameter is set to one minus the barrier parameter but at least its minimum. After an update that changed the barrier parameter the line search is reset.',
  ['histories', 'inputs', 'configurations'], 'for all iterates and all parameter settings',
  SOLVE + '; the value of the barrier parameter is never compared with the formula.',
  [A + 'IpMonotoneMuUpdate.cpp'], [('monotone update', A + 'IpMonotoneMuUpdate.cpp')])
p('C07', 'Dense vector operations compute exactly their definitions',
  'For every vector dimension, all scalar arguments and every internal representation (all entries equal, or stored individually) of every operand, each dense vector operation gives the entry-by-entry result of its mathematical definition, each reduction gives the defined value, and no operand other than the target changes. This includes vectors of dimension zero, special scalars such as 0, 1 and -1, and operands that are the same vector.',
  ['inputs'], 'for all dimensions, entries, scalars and representations of the operands',
  'there are no unit tests of the linear algebra; the examples exercise a few representation/scalar combinations on tiny vectors.',
  [L + 'IpDenseVector.cpp', L + 'IpDenseVector.hpp', L + 'IpVector.cpp'],
  [('dense vector kernels', L + 'IpDenseVector.cpp')],
  [('homogeneous representation', 'all entries equal to one stored scalar', L + 'IpDenseVector.hpp')])
p('C08', 'Compound vector operations act as on one long vector',
  'Every operation on a vector composed of blocks gives the same result as the operation on the concatenated vector: each block is updated by the definition with the same scalars, each reduction combines all blocks exactly once, and no block is skipped, repeated or mixed up with another. This holds for any number of blocks of any dimension, including empty ones.',
  ['inputs'], 'for all block structures, entries and scalars', 'tests only reach a few fixed block structures through whole solves.',
  [L + 'IpCompoundVector.cpp'], [('blockwise forwarding', L + 'IpCompoundVector.cpp')])
p('C09', 'Sparse matrix products equal the product with the represented matrix',
  'For general and symmetric triplet matrices and for expansion matrices, multiplication with the matrix or its transpose, row and column norm updates and the fused scaled operations give the result of the same operation on the dense matrix that the stored entries represent, for all scalars. Repeated and off-diagonal entries are all accounted for exactly once.',
  ['inputs'], 'for all sparsity patterns, values, vectors and scalars',
  'the examples use small matrices with no repeated entries, and mostly alpha 1 and beta 0.',
  [L + 'TMatrices/IpGenTMatrix.cpp', L + 'TMatrices/IpSymTMatrix.cpp', L + 'IpExpansionMatrix.cpp'],
  [('triplet kernels', L + 'TMatrices'), ('expansion kernels', L + 'IpExpansionMatrix.cpp')])
p('C10', 'Structured matrices multiply like the matrix they represent',
  'Diagonal, identity, zero, dense, scaled, sum, transpose and block-structured matrices compute products with vectors, transposed products and norm updates as the represented matrix does, for all scalars and dimensions. Absent blocks act as zero and every block is used exactly once.',
  ['inputs'], 'for all block structures, vectors and scalars', 'only the block structure of the full-space KKT system is reached by the tests.',
  [L + 'IpDiagMatrix.cpp', L + 'IpIdentityMatrix.cpp', L + 'IpSumSymMatrix.cpp', L + 'IpSumMatrix.cpp', L + 'IpScaledMatrix.cpp', L + 'IpSymScaledMatrix.cpp', L + 'IpCompoundMatrix.cpp', L + 'IpCompoundSymMatrix.cpp', L + 'IpDenseGenMatrix.cpp'],
  [('matrix kernels', L)])
p('C11', 'Cached results are never stale',
  'A value obtained through a cache always equals the value that would be computed from the current state of everything it depends on: any modification of an object makes every cached value derived from it unusable. Values carried over by copying or scaling a vector equal what a recomputation would give. (Modifications are those made through the documented interface: parts of a composite vector or matrix are changed through the composite, and storage obtained for writing is written before the object is next asked for anything.)',
  ['histories', 'inputs'], 'for all interleavings of modifications, cached evaluations, copies and object destruction',
  'whole solves reuse caches in one fixed order; a stale value shows only as a slightly different run.',
  [C + 'IpCachedResults.hpp', C + 'IpTaggedObject.hpp', C + 'IpTaggedObject.cpp', C + 'IpObserver.cpp', C + 'IpObserver.hpp', L + 'IpVector.hpp', L + 'IpMatrix.hpp'],
  [('tags', C + 'IpTaggedObject.cpp'), ('cached results', C + 'IpCachedResults.hpp'), ('norm caches of vectors', L + 'IpVector.hpp')],
  [('tag', 'changes to a never used value with every modification', C + 'IpTaggedObject.hpp')])
p('C12', 'Reference-counted objects live exactly as long as referenced',
  'The reference count of an object always equals the number of smart pointers that currently refer to it: creating, copying, assigning (also to itself), resetting and destroying smart pointers changes exactly the counts of the objects involved, and an object is destroyed exactly when its last smart pointer goes away.',
  ['histories'], 'for all sequences of smart pointer operations', 'leaks and premature destruction in rare sequences do not show in the tests.',
  [C + 'IpSmartPtr.hpp', C + 'IpReferenced.hpp'], [('reference counting', C + 'IpSmartPtr.hpp')])
p('C13', 'Options accept exactly the documented values and read back as set',
  'Setting an option succeeds exactly when the option exists, the value has the right type and lies in the registered range or set (respecting strict bounds; NaN lies in no range), and otherwise reports failure and leaves the stored options unchanged. An option stored with overwriting disallowed keeps its value. Reading an option returns the value that was set, with prefixed names taking precedence, or the registered default if it was not set.',
  ['inputs', 'histories'], 'for all option names, values and sequences of set/read operations', 'tests set a few options to valid values.',
  [C + 'IpOptionsList.cpp', C + 'IpRegOptions.cpp', C + 'IpRegOptions.hpp'], [('range checks', C + 'IpRegOptions.hpp'), ('lookup', C + 'IpOptionsList.cpp')])
p('C14', 'User data and internal problem correspond exactly',
  'The values exchanged between the user problem and the internal formulation correspond entry by entry: fixed variables are replaced by their values or kept as configured, equality and inequality constraints, one- and two-sided bounds and their multipliers are mapped to the right user index with the right sign, and objective, gradient, constraint, Jacobian and Hessian entries come from the right user evaluation. Nothing else is written.',
  ['inputs', 'configurations'], 'for all problem structures: any mixture of fixed, free, bounded variables and of constraint types',
  'the example problems have at most a handful of variables and one treatment of fixed variables.',
  [I + 'IpTNLPAdapter.cpp'], [('index maps', I + 'IpTNLPAdapter.cpp')])
p('C15', 'The C interface passes problem and solution through unchanged',
  'A problem described through the C interface is solved as given: callbacks receive the current point and produce the values used by the solver, failures reported by callbacks become evaluation errors, and starting point, final point, constraint values and all multipliers are copied to and from exactly the arrays supplied.',
  ['inputs', 'configurations'], 'for all problem data, arrays (present or absent) and callback results', 'one small C example with all arrays present.',
  [I + 'IpStdCInterface.cpp', I + 'IpStdInterfaceTNLP.cpp'], [('adapter', I + 'IpStdInterfaceTNLP.cpp')])
p('C16', 'Scaling is transparent to the user',
  'Objective and constraint scaling factors are applied consistently: every scaled quantity equals the factor times the unscaled one, undoing the scaling gives back the original, and gradient-based factors are the documented ones, limited by the configured minimum.',
  ['inputs', 'configurations'], 'for all factors, vectors and matrices', 'example problems mostly need no scaling.',
  [A + 'IpNLPScaling.cpp', A + 'IpGradientScaling.cpp', A + 'IpOrigIpoptNLP.cpp'], [('scaling object', A + 'IpNLPScaling.cpp')])
p('C17', 'Optimality errors and derived quantities are what their names say',
  'The barrier objective, slacks, Lagrangian gradients, complementarities, constraint violations and scaled optimality errors used by the algorithm are the documented functions of the current iterate and multipliers, evaluated at the point they are asked for.',
  ['inputs', 'histories'], 'for all iterates and multiplier values', 'solver runs do not compare these quantities with their definitions.',
  [A + 'IpIpoptCalculatedQuantities.cpp'], [('calculated quantities', A + 'IpIpoptCalculatedQuantities.cpp')])
p('C18', 'Conversion to compressed row storage preserves the matrix',
  'The matrix handed to a sparse linear solver in compressed format has, at every position, the sum of all triplet entries for that position, rows appear in order with ascending column indices, and no entry is lost for any pattern including empty rows and repeated entries.',
  ['inputs'], 'for all sparsity patterns and values', 'the linear solver used in the tests takes triplets and never uses the conversion.',
  [A + 'LinearSolvers/IpTripletToCSRConverter.cpp'], [('converter', A + 'LinearSolvers/IpTripletToCSRConverter.cpp')])
p('C19', 'Flattening matrices to triplets preserves them',
  'The triplet representation extracted from any structured matrix lists, at shifted positions, exactly the nonzero entries of the matrix: the number of entries, the positions and the values agree with each other and with the product the matrix computes.',
  ['inputs'], 'for all matrix structures, offsets and values', 'only the matrices of the example problems are flattened.',
  [L + 'TMatrices/IpTripletHelper.cpp'], [('triplet helper', L + 'TMatrices/IpTripletHelper.cpp')])
p('C20', 'Intermediate iterates reported to the user are the current ones',
  'Queries of the current iterate and violations during a solve return, in the original problem space, the values belonging to the current iterate with the documented definitions of each violation, and report failure without writing if no solve is in progress.',
  ['inputs', 'histories'], 'for all problem structures and iterates', 'one example with fixed structure.',
  [I + 'IpTNLPAdapter.cpp', I + 'IpTNLP.cpp'], [('queries', I + 'IpTNLPAdapter.cpp GetCurrIterate/GetCurrViolations')])
p('C21', 'Wrapped problems represent the original problem',
  'Removing constraints or relaxing bounds through the problem wrappers gives a problem that agrees with the original in every remaining variable, bound, constraint, derivative and multiplier, and results are mapped back to the right positions.',
  ['inputs'], 'for all subsets of removed constraints and all bound structures', 'no test uses the wrappers.',
  [I + 'IpTNLPReducer.cpp', A + 'IpNLPBoundsRemover.cpp'], [('wrappers', I + 'IpTNLPReducer.cpp')])
p('C22', 'Quasi-Newton updates keep a valid approximation',
  'The limited-memory Hessian approximation uses exactly the most recent curvature pairs, skips updates without positive curvature as documented, and the represented matrix satisfies the secant equation for the latest accepted pair.',
  ['histories', 'inputs'], 'for all sequences of steps and gradient changes', 'one run with a limited-memory option.',
  [A + 'IpLimMemQuasiNewtonUpdater.cpp'], [('update', A + 'IpLimMemQuasiNewtonUpdater.cpp')])
p('C23', 'Search directions solve the primal-dual system',
  'The search direction is the negative solution of the primal-dual system whose right-hand side consists of the optimality conditions at the current iterate (with the second-order terms of Mehrotra where asked for). The linear solver is given the augmented matrix of the current Hessian, Jacobians, diagonals and perturbations, never an outdated one, and its status is passed on; the eliminated bound multipliers and the residuals of the refinement are those of the documented full system. A solve that reports success has a residual ratio of at most residual_ratio_max (below residual_ratio_singular once refinement gave up, or any after the system was declared singular once in vain) and at least min_refinement_steps refinements, unless inexact solutions are allowed; otherwise failure is reported.',
  ['inputs', 'histories', 'fault_sequences'], 'for all iterates, perturbations, right-hand sides and answers of the linear solver', 'only the end result of whole solves is seen.',
  [A + 'IpPDFullSpaceSolver.cpp', A + 'IpStdAugSystemSolver.cpp', A + 'IpPDSearchDirCalc.cpp'], [('elimination, residuals and refinement', A + 'IpPDFullSpaceSolver.cpp'), ('augmented matrix', A + 'IpStdAugSystemSolver.cpp'), ('right-hand side', A + 'IpPDSearchDirCalc.cpp')])
p('C24', 'Symmetric linear systems are solved with the given scaling and data',
  'The system solver hands the current matrix entries, symmetrically scaled, to the linear solver, applies the same scaling to right-hand side and solution, and passes the status and inertia of the factorization on unchanged.',
  ['inputs', 'histories'], 'for all matrices, right-hand sides and status sequences', 'only successful factorizations appear.',
  [A + 'LinearSolvers/IpTSymLinearSolver.cpp'], [('scaled solve', A + 'LinearSolvers/IpTSymLinearSolver.cpp')])
p('C25', 'Line search steps stay within bounds and terminate',
  'A step accepted by the line search keeps slacks and bound multipliers strictly positive by the fraction-to-boundary rule, trial step sizes decrease to the documented minimum and then restoration is entered, and a rejected trial leaves the current iterate untouched.',
  ['inputs', 'histories', 'fault_sequences'], 'for all iterates, directions and acceptance outcomes', SOLVE + '.',
  [A + 'IpBacktrackingLineSearch.cpp'], [('backtracking', A + 'IpBacktrackingLineSearch.cpp')])
p('C26', 'Output goes to exactly the journals whose level admits it',
  'A message reaches a journal exactly when the journal accepts the category at at least the message level, and printing or flushing never affects the computation.',
  ['inputs', 'configurations'], 'for all levels, categories and journal sets', 'output is not compared in the tests.',
  [C + 'IpJournalist.cpp'], [('journal levels', C + 'IpJournalist.cpp')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
