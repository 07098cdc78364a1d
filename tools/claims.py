"""Which properties have a check: id -> (level_note, technique)."""
SE = 'symbolic execution of the real Python code, z3 (QF_LRA/NRA/LIA/FP)'
IR = ('symbolic interpretation of the LLVM IR of the real C code, z3 '
      '(QF_NRA, bounds-checked memory); counterexamples replay on the '
      'compiled code')
FIT = ('The whole fit() runs symbolically; numerical solvers and scores are '
       'replaced by unknowns (every real outcome), data rows are tagged.')
CLAIMS = {
    'C01': ('Every double/integer setting for bootstrap counts up to the bound; '
            'IEEE double arithmetic in the solver.', SE),
    'C02': ('Every real coefficient array and threshold of the listed small shapes.',
            SE),
    'C03': ('Every real coefficient array of the listed shapes. ' + FIT, SE),
    'C04': (FIT, SE),
    'C05': (FIT, SE),
    'C06': (FIT, SE),
    'C07': (FIT, SE),
    'C08': (FIT + ' MPI is a simulated communicator with checked buffers.', SE),
    'C09': ('Every array content of the listed shapes, dtypes, roots and rank '
            'counts on a simulated communicator.', SE),
    'C10': ('Every real data matrix and solver answer of the listed shapes; '
            'the scaler is the documented model of StandardScaler. ' + FIT, SE),
    'C11': ('Every real coefficient pair and data of the listed shapes; the '
            'scipy minimizer is replaced by an unknown result.', SE),
    'C12': ('Pairs of consecutive fits with every solver answer. ' + FIT, SE),
    'C13': ('Every value of the free entries of inputs of the listed shapes '
            '(all entries for losses, gradients and decompositions); writes '
            'inside numerical libraries are outside.', SE),
    'C14': ('Every real design, response and span of the listed shapes; '
            'log10 and powers with their algebraic laws.', SE),
    'C15': ('Every real response, prediction and likelihood of the listed '
            'shapes; log and exp with their algebraic laws.', SE),
    'C16': ('Every real input of the listed shapes; exp is uninterpreted with '
            'its algebraic laws.', SE),
    'C17': ('Every real input, label vector and mask of the listed shapes; exp '
            'and log are uninterpreted with their algebraic laws.', SE),
    'C18': ('Every mask, and every real input, setting and optimizer answer of '
            'the listed shapes; the optimizer is replaced by an unknown point.', SE),
    'C19': ('Every real design, response, weight and penalty of the listed '
            'shapes, one to three sweeps; the linearization is an unknown '
            'during sweeps and checked by itself.', SE),
    'C20': ('Every real input, setting and optimizer answer of the listed shapes; '
            'the optimizer is replaced by an unknown point.', SE),
    'C21': ('Every real input of the listed shapes; overflow is decided by '
            'bounding every exponent argument.', SE),
    'C22': ('Every real model and input of the listed shapes; exp with its '
            'algebraic laws.', SE),
    'C23': ('Every real matrix of singular vectors, expected count and '
            'uniform draw of the listed shapes.', SE),
    'C24': ('Every outcome of every column draw for the listed numbers of '
            'columns, bootstraps and ranks; SVD and splitter are stubs.', SE),
    'C25': ('Every integer or real entry of settings of up to three entries.',
            SE),
    'C26': ('Every real basis of the listed shapes; Cauchy-Schwarz is used '
            'as a lemma, square roots are canonical symbols.', SE),
    'C27': ('Every resample, dissimilarity and labelling for the listed '
            'shapes; factorizer and clusterer are unknowns.', SE),
    'C28': ('Every real or integer matrix and regression outcome of the '
            'listed shapes; the regression itself is an unknown.', SE),
    'C29': ('Every value of every option, native return code and callback '
            'argument of the listed call sequences; the native solver is an '
            'arbitrary script. The wrapper is translated from its Cython '
            'source; counterexamples replay on the compiled wrapper.',
            SE),
    'C30': ('Every parameter value, callback answer, cancellation and '
            'allocation failure for n and m up to the listed bounds, doubles '
            'as exact reals (special values one at a time); values stored in '
            'later iterations are over-approximated by arbitrary ones.', IR),
    'C31': ('Every start, L1 weight, penalized range and objective/gradient '
            'sequence for n <= 2, doubles as exact reals; directions of later '
            'iterations are over-approximated by arbitrary ones.', IR),
    'C32': ('Every objective/gradient sequence, tolerance and step bound for '
            'n <= 2 and up to three trials or iterations, doubles as exact '
            'reals; directions of later iterations are over-approximated by '
            'arbitrary ones.', IR),
    'C33': ('Every value of every random draw of generators of the listed '
            'sizes; the distributions themselves are numpy\'s.', SE),
    'C34': ('Every integer seed and every draw of complete fits; one known '
            'finding is excluded (see KNOWN_FINDINGS). ' + FIT, SE),
    'C35': (FIT, SE),
    'C36': ('Every value of every numeric setting; names, flags and objects '
            'are choices out of lists.', SE),
}
NOT_APPLICABLE = {}
NOTES = ('Symbolic execution of the real pyuoi sources with z3; see DESIGN.md.')
