#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the table is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))
A='src/Auxilary.c'; Q='src/qpSWIFT.c'; L='src/ldl.c'; Y='python/pyqpSWIFT.c'; M='matlab/qpSWIFT_mex.c'
S1='simulink/qpSWIFT_sfunc.c'; S2='simulink/qpSWIFT_sfunc_e.c'

prop('C01','An optimal exit code is always certified',
 "Whenever a solve returns the 'optimal' exit code (0), the iterate the caller reads (x, y, z, s) satisfies all of: stationarity residual norm < reltol/sqrt(3), inequality residual norm < reltol/sqrt(3), equality residual norm < reltol/sqrt(3) when equality constraints are present, and s'z/m < abstol, each comparison strict and evaluated on exactly that iterate with the caller's current tolerances. An iterate whose residual is NaN is never reported optimal, and no iterate is reported optimal through any other route.",
 ['inputs','histories'],'every problem, every tolerance setting, every iteration at which the solver stops',
 'The tests never assert on a residual or exit code; they sample a handful of problems that converge.',
 [Q,A],[('termination test in QP_SOLVE',Q),('computeresiduals',A)],
 [('stats.n_rx/n_ry/n_rz/n_mu','norms the test compares','include/Auxilary.h')],['return value of QP_SOLVE','stats->Flag'])
prop('C02','Residuals and objective describe the posed problem at the returned iterate',
 "In every iteration the solver evaluates rx = -(Px + A'y + G'z + c), ry = b - Ax, rz = h - Gx - s, mu = s'z/m and the objective 0.5*x'Px + c'x from the caller's matrices and the current iterate, with the A terms present exactly when equality constraints are. On an optimal exit the reported objective value is that of the returned x.",
 ['inputs','configurations'],'all sparsity patterns, sizes, with and without equality constraints',
 'Unit tests call single kernels on one or two fixed matrices and never assemble the residual; composition over all patterns is untested.',
 [A,Q],[('computeresiduals',A),('obj_value',A),('SparseMatrixMultiply / SparseMatrixTransMultiply',A)],(),['stats->fval','stats->n_*'])
prop('C03','Exit codes are truthful and iterations are bounded',
 "A solve on a freshly set-up problem returns only 0, 1, 2 or 3, returns the same code it stores in the statistics, and performs at most the configured maximum number of iterations, counting each completed step exactly once. It reports the iteration-limit code exactly when the limit was reached without meeting the termination test, the factorisation-failure code when the factorisation reports failure, and a problem already marked as failed at setup is not iterated on.",
 ['inputs','histories'],'every problem, iteration limit and termination route',
 'Tests do not assert on exit codes; limits and failure routes are never exercised.',
 [Q],[('main loop and exit-code selection in QP_SOLVE',Q),('IterationCount / maxit comparison',Q)],(),['return value of QP_SOLVE','stats->IterationCount','stats->Flag'])
prop('C04','Search directions come from the current KKT system',
 "In every iteration, each search direction is obtained from a factorisation of the KKT matrix whose inequality block has been refreshed to -s/z of the current iterate, and from a right-hand side rebuilt from the current residuals and complementarity target (rx; ry; rz - ds/z), with ds = -s*z for the predictor, -s*z - ds_a*dz_a + sigma*mu for the corrector and -s*z + sigma*mu in pure centering mode; the direction parts are unpacked with the x, y, z offsets of the same ordering, and ds-step is (ds - s*dz)/z. No solve phase runs against a stale, missing or differently permuted factorisation.",
 ['inputs','histories'],'every iteration of every solve, both predictor-corrector and pure centering modes, with and without equality constraints',
 'No test runs two iterations and inspects the direction; kernels are tested separately on tiny vectors.',
 [A,Q],[('updatekktmatrix / updatekktmatrix_b / form_ds',A),('kktsolve_1 / kktsolve_2',A)],[('stats.resolve_kkt','whether kktsolve_2 must refactor','include/Auxilary.h')],['delta_x, delta_y, delta_z, delta_s'])
prop('C05','Slacks and multipliers stay strictly inside the positive orthant',
 "Every update of the slacks s and inequality multipliers z moves by at most 0.99 of the distance to the boundary, and never by more than a full step: the step length is min(0.99*t, 1) with t no larger than -v[i]/dv[i] for every component i whose direction is negative, computed over all m components, separately for (x, s) and for (y, z). Positive iterates therefore stay positive, and primal variables move with the primal step, dual variables with the dual step, each along its own direction.",
 ['inputs','histories'],'all iterates, all directions, all m',
 'func_findsteplength checks two fixed vectors; combination with the 0.99 damping and the update is never checked.',
 [A,Q],[('findsteplength',A),('step damping in QP_SOLVE',Q),('updatevariables',A)],(),['s, z after each iteration'])
prop('C06','The starting point is strictly interior',
 "Setup leaves slacks s and multipliers z strictly positive for every problem: s is h - Gx shifted by 1 + (amount of its violation) when it is not already positive, z is the negated residual shifted likewise, where the shift uses the minimum and maximum over all m components; x and y are the corresponding parts of the solution of the initial linear system with right-hand side (-c; b; h).",
 ['inputs'],'all data, all m >= 1',
 'Setup is only run on a few fixed problems, and s, z are not inspected.',
 [A],[('kkt_initialize',A),('findminmax',A)],(),['s, z, x, y after setup'])
prop('C07','The assembled KKT matrix is the documented block matrix',
 "For every sparsity pattern, including empty rows or columns of G and A, setup assembles the compressed-column matrix [P A' G'; A 0 0; G 0 -I] (without the A blocks when there are no equality constraints): column pointers consistent with the stored entries, every entry at its block offset, the diagonal entry of each inequality column stored as the last entry of its column, and the declared number of nonzeros equal to the number stored.",
 ['inputs','configurations'],'all sparsity patterns of P, A, G; with/without A',
 'One fixed full-pattern example is assembled in a test; empty rows, and the consumer that relies on the last-entry layout, are never tried.',
 [A,Q],[('formkktmatrix_full',A),('kkt_nnz / kkt_m sizing',Q),('SparseMatrixTranspose',A)],(),['kkt->kktmatrix'])
prop('C08','Factorisation never divides by zero',
 "The numeric LDL' factorisation leaves every pivot D(k) with magnitude above a fixed positive threshold: a pivot whose magnitude is at or below that threshold is replaced by a fixed nonzero value of the same sign, on every column and whether or not a permutation is used, before any later column or solve divides by it.",
 ['inputs'],'all matrices, all columns k',
 'No test factorises a singular or nearly singular matrix.',
 [L],[('dynamic regularisation in LDL_numeric',L),('LDL_dsolve',L)],(),['D vector'])
prop('C09','Permutation and triangular solve phases invert each other exactly',
 "The linear solve gathers with x[j] = b[P[j]], applies forward substitution by columns in increasing order, divides by every pivot, applies back substitution by columns in decreasing order, and scatters with x[P[j]] = b[j], each over all n positions; symbolic analysis stores the inverse permutation Pinv[P[k]] = k for all k and column pointers that are the prefix sums of the column counts.",
 ['inputs'],'all n, all permutations, all L patterns',
 'None of the LDL routines has a unit test.',
 [L],[('LDL_perm, LDL_lsolve, LDL_dsolve, LDL_ltsolve, LDL_permt, LDL_symbolic',L)],(),['solution vector'])
prop('C10','Dense and sparse entry points pose the same problem',
 "The dense setup turns row-major or column-major data, as selected by the ordering argument for all of P, A and G alike, into compressed-column matrices with the right dimensions that contain exactly the nonzero entries of the caller's matrix at their own row and column, and otherwise sets up the same problem (same KKT system, initial point, permutation handling and defaults) as the sparse setup.",
 ['inputs','configurations'],'all matrices, both orderings, with and without A',
 'Two fixed matrices are converted in tests; non-square shapes with zeros in both orderings through the API are not compared.',
 [Q,A],[('QP_SETUP_dense dispatch',Q),('densetosparse / densetosparse_ROWMAJOR',A)],(),['P, A, G of the QP object'])
prop('C11','Setup and cleanup are paired: no leak, no double free',
 "For every configuration (with or without equality constraints, with caller-supplied or computed permutation, sparse or dense entry point, whatever the ordering step returned), the matching cleanup releases every block that setup and solve allocated exactly once, and never releases or reads released memory. Memory the caller passed in is never released.",
 ['configurations','inputs'],'all combinations of optional arguments and entry points',
 'Leaks and double frees of a combination the tests do not run are invisible, and the tests check no allocator state.',
 [Q,A],[('QP_CLEANUP / QP_CLEANUP_dense',Q),('AMD_RESULT == -3 marks a caller-owned permutation',Q)],(),['allocator'])
prop('C12','Caller data is never modified',
 "Setup, solve and cleanup never write to any array the caller passes in: P, A, G (pointers, indices, values), c, h, b and the permutation vector are bit-for-bit unchanged after any sequence of calls, so they can be shared between problems.",
 ['inputs','histories','configurations'],'all problems, all call sequences',
 'No test compares inputs before and after.',
 [Q,A,L],[('solver reads caller arrays through QP->P/A/G/c/h/b and kkt->P',Q)],(),['caller arrays'])
prop('C13','Work arrays are large enough for every access',
 "Every array the library allocates is large enough for every index its own loops use, for every n, m, p and nonzero count, with and without equality constraints and on the ordering-failure route: column-pointer arrays hold one extra element, stacked vectors hold n+m+p elements, the KKT arrays hold all assembled entries and the factor arrays hold all entries announced by the symbolic analysis.",
 ['inputs','configurations'],'all sizes and optional-argument combinations',
 'Overflows by one element are usually invisible at run time, and only a few sizes are run.',
 [Q,A,L],[('allocation sizes in QP_SETUP / QP_SETUP_dense / ldlinitialsolve',Q)],(),['heap'])
prop('C14','Solver instances share no mutable state',
 "Independent problem instances can be set up, solved and destroyed concurrently or interleaved without affecting each other: no library function writes a global or function-static variable, and results depend only on the instance and the caller's data.",
 ['schedules','histories'],'all interleavings of calls on distinct instances',
 'Tests are single-threaded and use one instance at a time.',
 [Q,A,L,'src/amd_order.c','src/amd_2.c','src/timer.c'],[('all state lives in the QP object',Q)],(),['QP objects'])
prop('C15','Temporary memory is released on every path, including allocation failure',
 "Every routine that allocates scratch memory (transposes, initial point, fill-reducing ordering, alternative factorisations) releases it exactly once on every path to its return, including the early-return and out-of-memory paths of the ordering, and never uses it afterwards.",
 ['fault_sequences','inputs'],'every return path, every allocation failing or succeeding in the ordering',
 'No allocation-failure injection exists in the tests.',
 [A,'src/amd_order.c',L],[('amd_l_order workspace release',"src/amd_order.c"),('SparseMatrixTranspose, Transpose_Row_Count, kkt_initialize',A)],(),['allocator'])
prop('C16','Everything a caller may read after a solve is defined',
 "After setup and one solve, every statistic, setting, scalar and solution component that belongs to the problem has been assigned on every route (optimal, iteration limit, factorisation failure, setup failure, with or without equality constraints); no value derived from uninitialised memory is returned, printed or used in a decision.",
 ['inputs','configurations'],'all termination routes, with/without A, any verbosity',
 'Uninitialised reads usually look fine in a test run.',
 [Q,A],[('stats initialisation in setup',Q),('stats updates in QP_SOLVE',Q)],(),['stats','x, y, z, s'])
prop('C17','The library is silent unless asked to print',
 "With verbosity 0 the library writes nothing to standard output or error in setup, solve or cleanup, whatever the outcome; with verbosity above 0 every printed value matches its format directive's type.",
 ['inputs','configurations'],'all outcomes, all verbosity levels',
 'Test output is not inspected.',
 [Q,Y],[('verbose > 0 guards',Q)],(),['stdout'])
prop('C18','Settings get documented defaults and caller overrides are honoured',
 "Both setups install the documented defaults (iteration limit 100, tolerances 1e-6, centering 100, verbosity 0), and the solve uses whatever limit, tolerances and verbosity the caller stored afterwards; the solver itself never changes the iteration limit, the tolerances or the verbosity.",
 ['configurations','histories'],'all option values, both entry points',
 'Tests do not read the settings back and do not check their effect.',
 [Q,'include/GlobalOptions.h'],[('options initialisation',Q)],(),['QP->options'])
prop('C19','Fill-reducing permutation handling is consistent',
 "A caller-supplied permutation is used as given for the initial solve and every later factorisation and solve; otherwise the ordering routine's result on the assembled KKT matrix is used, and if the ordering reports failure the identity permutation over all n+m+p positions is used instead. The same permutation and its inverse are used in symbolic analysis, numeric factorisation and all solves.",
 ['configurations','fault_sequences'],'with/without permutation, ordering success or failure, with/without A',
 'No test passes a permutation or makes the ordering fail.',
 [Q,A],[('Permut / amd_l_order / fallback in setup',Q),('ldlinitialsolve, kktsolve_1, kktsolve_2',A)],(),['kkt->P, kkt->Pinv'])
prop('C20','Matrix and permutation validators reject every malformed input',
 "The permutation validator accepts exactly the permutations of 0..n-1 (and a missing permutation), and the matrix validators accept exactly column-compressed patterns that start at 0, are nondecreasing and whose row indices are all in range, for every n including 0, reporting unsorted or duplicate row indices separately in the ordering's validator; they never read outside the arrays they were given.",
 ['inputs'],'all integer arrays',
 'The validators have no tests.',
 [L,'src/amd_valid.c'],[('LDL_valid_perm, LDL_valid_matrix',L),('AMD_valid','src/amd_valid.c')],(),['return value'])
prop('C21','The ordering routine reports its status truthfully',
 "The fill-reducing ordering returns its invalid status for missing arguments, negative size or an invalid matrix before touching the permutation, the out-of-memory status when a workspace cannot be obtained, and otherwise the validator's status, recording the same status in the caller's information array; an unsorted matrix is sorted into private copies and the caller's matrix is never modified.",
 ['inputs','fault_sequences'],'all inputs; each allocation failing or succeeding',
 'No test calls the ordering on invalid input or with failing allocation.',
 ['src/amd_order.c','src/amd_preprocess.c'],[('amd_l_order','src/amd_order.c')],(),['return value','Info[AMD_STATUS]'])
prop('C22','Python: malformed arguments are rejected before they are used',
 "The Python entry point checks element type and number of dimensions of each of c, h, P, G (and A, b when both are given) before it reads any of their dimensions, and checks every matrix dimension against the vector lengths, before any data is copied or any problem is set up; rejected input always raises TypeError and never crashes or reads out of bounds.",
 ['inputs'],'all tuples of arrays of any dtype, rank and shape',
 'syntax.py tries one malformed shape per argument; zero-dimensional arrays and combined mismatches are not tried.',
 [Y],[('argument checks in method_qpSWIFT',Y)],(),['TypeError'])
prop('C23','Python: no references are leaked or over-released',
 "On every path through the Python entry point, successful or raising, every reference it acquires is released or returned exactly once and no borrowed reference is released: converted copies, result arrays, dictionaries and option objects.",
 ['inputs','histories'],'every accept and reject path, every output level, with/without A',
 'Tests never look at reference counts.',
 [Y],[('Py_INCREF/Py_DECREF pairs, Py_BuildValue "O"',Y)],(),['reference counts'])
prop('C24','Python: an exception is set exactly when no result is returned',
 "The Python entry point returns no result exactly when it has set an exception: every rejecting path sets one, and no path that produces a result leaves an exception pending (including warnings turned into errors and out-of-range integers).",
 ['inputs'],'all paths',
 'Tests exercise a subset of rejections and no warnings-as-errors configuration.',
 [Y],[('PyErr_SetString + return NULL',Y),('PyErr_WarnEx for OUTPUT',Y)],(),['exceptions'])
prop('C25','Python: nothing touches Python objects while the GIL is released',
 "Between releasing and re-acquiring the interpreter lock the extension runs only solver code that works on the problem instance: no Python C-API function is reachable and no Python object is accessed, and the lock is re-acquired on every path before the next API call.",
 ['schedules'],'all thread interleavings',
 'Tests are single-threaded.',
 [Y,Q],[('Py_BEGIN_ALLOW_THREADS / Py_END_ALLOW_THREADS around QP_SOLVE',Y)],(),['interpreter lock'])
prop('C26','Python: option keys control the settings they name, within their ranges',
 "MAXITER (integer, 1..199), ABSTOL and RELTOL (floats strictly between 0 and 1), SIGMA (float > 0) and VERBOSE (integer >= 0) each set exactly the setting they name, after setup and before the solve; a value of the wrong type or range is rejected, NaN included, and omitted keys leave the documented defaults.",
 ['inputs'],'all option dictionaries',
 'syntax.py checks that some bad values raise; it never checks that a good value has the effect it names.',
 [Y],[('opts parsing',Y),('copy into QP->options',Y)],(),['settings used by the solve'])
prop('C27','Python: result fields carry the quantities they name',
 "The result dictionary maps sol, ExitFlag, Iterations, Setup_Time, Solve_Time, fval, kktTime, ldlTime, y, z and s to exactly those quantities of this solve, each vector with its full length and own copied storage, with the sections selected by OUTPUT (1: basic, 2: basic and advanced, otherwise solution only) and y present exactly when equality constraints were given.",
 ['inputs','configurations'],'all problems, all output levels',
 'Tests check key presence and type on one problem, not contents.',
 [Y],[('Py_BuildValue result construction',Y)],(),['returned dict'])
prop('C28','Python: each call sets up, solves and cleans up one problem on private copies',
 "Each successful Python call converts c, h, P, G (and A, b together) to contiguous double arrays, passes each to its own parameter of the dense setup with row-major ordering and matching dimensions, keeps those copies alive until the solve that reads them has finished, and runs setup, one solve and the dense cleanup exactly once in that order; a rejected call does none of it.",
 ['inputs'],'all accepted calls',
 'Tests run few problems and cannot see argument transposition on symmetric data or use after release.',
 [Y],[('getptr',Y),('QP_SETUP_dense / QP_SOLVE / QP_CLEANUP_dense calls',Y)],(),['solver calls'])
prop('C29','MATLAB gateway: arguments, options and results are wired correctly',
 "The MATLAB gateway validates each input (real, double, sparse where required, consistent sizes) before using it, passes P, A, G, c, h, b and the permutation to their own setup parameters, accepts each option only in its documented range and copies it to the setting it names, and returns x and the named information fields from this solve; it cleans up exactly once after the results are copied.",
 ['inputs','configurations'],'all argument counts and option structures',
 'MATLAB is not available to the test-suite; nothing tests this gateway.',
 [M],[('mexFunction',M)],(),['plhs'])
prop('C30','Simulink blocks: ports are wired to the right solver arguments',
 "Both Simulink blocks pass each input port's data to the matching dense-setup parameter with the declared dimensions and column-major ordering, clean up exactly once per step after copying the outputs, and write only values produced by this step's solve to their output ports.",
 ['inputs','configurations'],'all port data',
 'Simulink is not available to the test-suite; nothing tests these blocks.',
 [S1,S2],[('mdlOutputs',S1),('mdlOutputs',S2)],(),['output ports'])
prop('C34','The factorisation reproduces the matrix',
 "For every symmetric matrix whose pivots are not replaced, numeric factorisation after symbolic analysis yields a unit lower triangular L and diagonal D with L D L' equal to the (permuted) matrix: every column of L holds exactly the entries symbolic analysis announced for it, with strictly lower row indices in increasing order, entries of the lower triangle of the input are ignored, duplicate entries are summed, and success is reported.",
 ['inputs'],'all sizes, patterns, values and permutations',
 'None of the LDL routines has a unit test; end-to-end tests factorise a few matrices and never compare the product.',
 [L],[('LDL_symbolic / LDL_numeric',L)],[('Lp, Li, Lx, D, Parent, Lnz','the factor and its elimination tree',L)],['L, D','return value'])
prop('C31','Feasible convex problems are solved to tolerance',
 "For every strictly feasible convex quadratic program of moderate conditioning, the solve returns the optimal exit code within the default iteration limit, and x is within tolerance of the true minimiser.",
 ['inputs'],'all feasible convex problems',
 'Only a few problems are run and none is compared with a known optimum.',
 [Q,A,L],[('Mehrotra predictor-corrector iteration',Q)],(),['x, exit code'])
prop('C32','The computed ordering is a fill-reducing permutation',
 "For every valid pattern the ordering routine writes a permutation of 0..n-1, so that the factor it leads to has no more fill than announced.",
 ['inputs'],'all patterns',
 'The ordering is run on a few KKT patterns only.',
 ['src/amd_2.c','src/amd_1.c','src/amd_postorder.c'],[('AMD_2 quotient-graph elimination','src/amd_2.c')],(),['P'])
prop('C33','Reported times are the elapsed times of the phases they name',
 "Setup, solve, KKT and factorisation times are the wall-clock durations of those phases, nonnegative and additive.",
 ['inputs','schedules'],'all runs',
 'Timing is not asserted in tests.',
 ['src/timer.c',Q,A],[('tic / toc','src/timer.c')],(),['stats->t*'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
