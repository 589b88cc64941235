TECH = 'static analysis: interprocedural abstract interpretation of the SSA form into closed-form value summaries, compared with reference summaries '
TRUST = ' Not a proof: what the normal forms do not settle is compared by random interpretation of the two summaries (nothing is executed), floating point addition and multiplication are treated as real arithmetic, and clang\'s SSA, the engine and the object contract of QP_SOLVE are trusted. Obligations the engine cannot summarise are printed as undecided and do not fail.'
CLAIMS = {
 'C01': (TECH + '(guard implication at the exit of the solve loop)', 'The guard under which QP_SOLVE returns 0 implies the certified condition of the returned iterate, on every path, for every object satisfying the setup contract, with and without equality constraints and for re-solves.' + TRUST),
 'C02': (TECH + '(residuals, norms, objective)', 'Residual vectors, their norms, mu and the objective at every solve phase and at an optimal exit equal the reference formulas over the caller\'s matrices and the current iterate.' + TRUST),
 'C03': (TECH + '(exit-code guards and the iteration counter)', 'The return value is the stored code and is in 0..3; each code is returned exactly under its documented guard; the counter is the number of completed steps, bounded by the limit.' + TRUST),
 'C04': (TECH + '(operands of every factorisation and solve phase)', 'Every factorisation consumes the KKT values refreshed with -s/z of the current iterate and every solve phase a right-hand side built from current residuals and complementarity target, and the directions are unpacked from the solution.' + TRUST),
 'C05': (TECH + '(step length and update summaries)', 'Step lengths equal min(0.99 t, 1) with t the exact distance to the boundary over all m components, applied to the matching variables, so s and z stay positive.' + TRUST),
 'C06': (TECH + '(starting point)', 'x, y, z, s at the return of both setup functions equal the starting-point formulas (solution of the initial KKT system, gap, shift into the cone) and s, z are strictly positive.' + TRUST),
 'C07': (TECH + '(KKT assembly)', 'The assembled upper triangular CSC matrix in factor order holds exactly the entries of [P A\' G\'; A 0 0; G 0 -I], every diagonal position is present, and the positions refreshed by the solver are the -I block.' + TRUST),
 'C08': (TECH + '(column recurrence of D)', 'The value every iteration of the column loop leaves at D[k], as a function of an arbitrary computed pivot, never vanishes; and over the whole recurrence small pivots only are replaced, keeping their sign.' + TRUST),
 'C09': (TECH + '(permutation, triangular and diagonal solves, symbolic analysis)', 'Summaries of the five solve kernels and of the symbolic analysis (as a recurrence) equal their definitions for every order, pattern and permutation.' + TRUST),
 'C34': (TECH + '(recurrences of the symbolic analysis and numeric factorisation)', 'L, D from the recurrence summaries satisfy the defining equations of L D L\' = P A P\', with the announced structure, and the success return.' + TRUST),
 'C10': (TECH + '(dense entry point)', 'Matrices stored by the dense setup hold exactly the nonzero entries of the caller\'s row- or column-major data, and the object equals field by field the one the sparse setup builds from them.' + TRUST),
 'C18': (TECH + '(defaults and options)', 'After setup every option has its documented default and statistics start from the documented state.' + TRUST),
 'C19': (TECH + '(permutation)', 'The supplied permutation (or the identity) is used: Pinv is its inverse, covers all rows, and the permuted matrix is consistent with it.' + TRUST),

 'C11': (TECH + '(allocation and release events)', 'Every block allocated by setup or solve is released exactly once by cleanup (or by the function that allocated it), nothing is used after its release, and only library blocks are released, for every way of calling setup.' + TRUST),
 'C12': (TECH + '(stores and their targets)', 'No store of setup, solve or cleanup, and no output of a kernel, can designate an array the caller passed in.' + TRUST),
 'C13': (TECH + '(extents of objects and offsets of accesses)', 'Every load and store of setup, solve and the factorisation kernels stays inside its object, and every array a kernel receives is as long as the kernel uses it.' + TRUST),
 'C14': (TECH + '(stores to global or static storage, and reads of mutable globals)', 'No store of any library function can designate a global or function-static variable, no result depends on one that some function writes, and no library-external stateful routine (rand, strtok, ...) is used; what setup, solve and cleanup touch is reachable from the instance or the caller data.' + TRUST),
 'C15': (TECH + '(allocation and release events of every allocating routine)', 'Every scratch block is released exactly once on every path of the routines that allocate, for every subset of failing allocations, and is not used after its release.' + TRUST),
 'C16': (TECH + '(definedness of exit, print and decision values)', 'With every field that setup leaves unassigned treated as undefined, no exit value, decision, kernel input or printed value of the solve depends on an undefined value, on any route and at the first, second and an arbitrary iteration.' + TRUST),
 'C17': (TECH + '(guards of output calls and format directives)', 'Every output call reachable from setup, solve and cleanup is guarded by verbosity > 0, and every printed value has the type its directive expects.' + TRUST),
 'C20': (TECH + '(validators as recurrences)', 'The accept condition of the validators equals its definition for arrays up to the sampled sizes including 0 and malformed pointers, with every read inside the arrays.' + TRUST),
 'C21': (TECH + '(status and information array of the ordering)', 'Status value, information array and permutation stores of the ordering entry point equal the documented outcome for every argument class and every failing allocation; the caller matrix is never stored to.' + TRUST),
}
TPY = 'static analysis: abstract interpretation of the extension entry point over models of the CPython and NumPy C-API into guarded events, replayed per class of calls '
TPT = ' The class of calls is a valuation of the summary (shapes, element types, layouts, option values), nothing is executed; the models of the C-API calls are trusted, and allocation failures inside the API are not modelled.'
CLAIMS.update({
  'C22': (TPY + '(dimension reads, copies and setup of malformed calls)', 'In every class of malformed calls no array field is read beyond the array, nothing is copied or set up, and TypeError is set and NULL returned.' + TPT),
  'C23': (TPY + '(reference counts)', 'Every reference acquired is released or returned exactly once, no borrowed or freed reference is released or used, in every class of accepted and rejected calls.' + TPT),
  'C24': (TPY + '(error indicator)', 'NULL is returned exactly when an exception is set, in every class of calls, including conversions that overflow and warnings raised as errors.' + TPT),
  'C25': (TPY + '(interpreter lock)', 'Between release and re-acquisition of the lock no API call and no access to memory of a Python object is made, the calls alternate, and no solver function reaches the C-API.' + TPT),
  'C26': (TPY + '(settings seen by the solve)', 'The settings stored in the problem when the solve starts are the documented function of the options; out-of-range, NaN and wrongly typed values reach neither setup nor solve.' + TPT),
  'C27': (TPY + '(contents of the returned dictionary)', 'Keys, sections, shapes, storage and values of the returned dictionary equal those of the solved problem, for every output level with and without equality constraints.' + TPT),
  'C28': (TPY + '(operands and order of setup, solve, cleanup)', 'Setup receives the dimensions, private double copies of the right arrays in the layout it is told, once, followed by one solve and the dense cleanup.' + TPT),
})

NA = {}
