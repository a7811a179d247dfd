#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'mpnum/mparray.py'
S = 'mpnum/mpstruct.py'
O = 'mpnum/mpsmpo.py'
L = 'mpnum/linalg.py'
P = 'mpnum/povm/mppovm.py'
Q = 'mpnum/povm/localpovm.py'
F = 'mpnum/factory.py'
A = 'mpnum/utils/array_transforms.py'
E = 'mpnum/utils/extmath.py'
H = 'mpnum/utils/physics.py'

# id, title, statement, over, quantifier text, why tests cannot, files,
# mechanism [(name, where)], observe_at
PROPS = [
 ('C01', 'Dense arrays survive conversion to matrix product form and back',
  'Converting a dense array (in local or global leg order, with any number of legs per site, with or without outer virtual legs, or as a tensor product of factors) into a matrix product array and back returns the same numbers, the same leg order and no spurious complex type. The conversion to a dense array equals the contraction of the local tensors. Length, leg shapes, number of legs, ranks, size and dtype reported by the object agree with its local tensors.',
  ['inputs'], 'every dense array or chain of local tensors: any sites, legs, leg sizes (including 1), dtype, memory layout and canonical form',
  'The suite samples a fixed grid of uniform shapes; mixed leg counts, size-one legs, float32, non-contiguous arrays and rank-deficient arrays are not in it.',
  [M, A], [('from_array/from_array_global/from_kron/to_array', M), ('_extract_factors', M), ('global_to_local/local_to_global', A)],
  ['return value of to_array/to_array_global', 'local tensors of the result']),
 ('C02', 'Linear arithmetic agrees with dense arithmetic',
  'Sum, difference, negation, scaling and division by a scalar (in place or not, real, complex or integer scalar) and weighted sums of any number of matrix product arrays represent exactly the corresponding dense combination, for every mixture of dtypes, ranks and canonical forms. In-place operations modify and return the same object. Operands of different lengths and non-scalar factors are refused.',
  ['inputs'], 'all operands (shapes, ranks, dtypes, canonical forms), all scalars and weight sequences',
  'Tests use uniform random float arrays in one gauge and a few scalars; mixed dtypes and canonical forms are not sampled.',
  [M], [('__add__, __sub__, __mul__, __imul__, __truediv__, __itruediv__', M), ('sumup, _local_add', M)],
  ['dense contraction of the result']),
 ('C03', 'Contractions and products agree with their dense counterparts',
  'Site-wise dot products over any selection of legs, partial dot products of chains of different length (either operand shorter, any start site), inner products (conjugating the first argument), sandwiches with one or two different vectors, norm, norm distance, local outer product and chain product equal the dense tensor contraction. This holds for every admissible axis specification (integers, negative numbers, sequences) and for chains too long for a dense array. Dot and chain products have the type of the first operand unless another type is requested.',
  ['inputs'], 'all operands of any gauge and all axis specifications',
  'Tests use one or two axis specifications on uniform shapes; sequences of several axes, negative axes, operands in mixed canonical forms and unequal leg counts are not combined.',
  [M, L], [('dot, partialdot, inner, sandwich, chain, localouter, norm, normdist, _local_dot', M), ('_eig_leftvec_add', L)],
  ['returned scalar or dense contraction of the result']),
 ('C04', 'Reductions over legs agree with dense reductions',
  'Summing over legs (every documented form of the axes argument), trace, partial trace with per-site axes, diagonal extraction, indexing of the first leg, iteration over a leg, and removal of sites without legs (optionally of singleton sites) give the same values, leg order and iteration order as the dense operation. Sites whose axes are left out keep their legs. A full reduction yields a scalar. Indexing and partial traces have the type of the operand unless another type is requested.',
  ['inputs'], 'all arrays and all admissible axes arguments',
  'The tests sample few axes forms on uniform shapes; per-site mixtures of None, empty and multi-axis tuples are not enumerated.',
  [M], [('sum, get, axis_iter', M), ('trace, partialtrace, diag, prune, _prune_ltens', M)],
  ['dense contraction of the result']),
 ('C05', 'Structural transforms only rearrange the represented array',
  'Transposition, adjoint, complex conjugation, reshaping, flattening, grouping and splitting of sites, chain reversal, exchange of virtual and local legs, splitting a chain, rank padding, injecting sites and copying represent exactly the corresponding rearrangement of the dense array. Inverse operations restore the array. Invalid groupings are refused.',
  ['inputs'], 'all arrays (any legs, ranks, dtype, canonical form), all positions, group sizes and axis orders',
  'Tests sample uniform shapes; inhomogeneous legs, all positions, and operands in mixed canonical forms are not covered jointly.',
  [M], [('T, transpose, adj, conj, reshape, ravel, group_sites, split_sites, vleg2leg, leg2vleg, split, reverse, pad_ranks', M), ('inject', M)],
  ['dense contraction of the result']),
 ('C06', 'The reported canonical form is always truthful',
  'After any sequence of public operations, every site reported as left-canonical (right-canonical) really has a local tensor which is an isometry from the left (right), for the object operated on and for every object returned. The reported form always leaves at least one site which is in neither group. Updates of local tensors never leave a stale claim behind.',
  ['histories', 'inputs'], 'all finite histories of constructions, arithmetic, transforms, canonicalizations, compressions and local tensor updates',
  'Tests check the form right after single operations on fresh arrays; stale claims need a particular history.',
  [S, M], [('LocalTensors._update / update / canonical_form', S), ('T, transpose, conj, reshape, vleg2leg, leg2vleg, split, __mul__, _compress_svd_*, from_array', M)],
  ['canonical_form and local tensors after each operation']),
 ('C07', 'Canonicalization reaches the requested form and keeps the array',
  'Canonicalizing to any admissible pair of left and right bounds (integers, negative integers, "afull", None) makes at least the requested sites canonical, keeps previously canonical sites compatible with the request and does not change the represented array or increase ranks. Bounds out of range and bounds that overlap are refused with an index error and a value error. The norm computed afterwards is the l2 norm of the array.',
  ['inputs', 'histories'], 'all arrays in all current forms, all requested bounds, repeated requests',
  'Tests start from uncanonicalized random arrays with uniform ranks; rank-deficient and over-ranked tensors in mixed forms with repeated requests are not enumerated.',
  [M, S], [('canonicalize, _rcanonicalize, _lcanonicalize, norm', M), ('update', S)],
  ['local tensors and canonical_form after the call']),
 ('C08', 'Operations have no side effects and results share no mutable state',
  'Operations documented to return a new array change neither the numbers nor the canonical form of their operands, and later in-place changes of the operands (or of the result) never show up in the other object. Operations documented to re-gauge in place never change the represented array. Local tensors handed out are read-only, and local tensor containers given to constructors are not modified.',
  ['histories', 'inputs'], 'all operations followed by all in-place modifications of any participant',
  'Aliasing needs a specific two-step history (derive, then modify in place) which the tests do not enumerate.',
  [M, S], [('copy-on-write by replacement of local tensors', S), ('_roview', S), ('__imul__ replaces instead of modifying', M)],
  ['local tensors of all participants before and after']),
 ('C09', 'SVD compression is a faithful projection with the promised error',
  'SVD compression returns an array whose ranks respect the requested maximum and whose overlap with the original equals its own squared norm, which is the returned number. Its distance from the original is bounded by the discarded singular values, nothing is lost if no rank is cut, a relative error bound discards at most the allowed fraction of the singular values at each cut, and both sweep directions and every initial canonical form behave alike. The out-of-place variant leaves the original untouched, invalid methods and directions are refused.',
  ['inputs', 'configurations'], 'all arrays, ranks, relative errors, directions, SVD functions and starting forms',
  'Tests use uniform full-rank random arrays; degenerate, rank-deficient, over-ranked and already canonical arrays with every option are not combined.',
  [M, E], [('compress, compression, _compress_svd, _compress_svd_l, _compress_svd_r', M), ('truncated_svd', E)],
  ['compressed array, returned overlap, ranks']),
 ('C10', 'Variational compression never loses to its start vector',
  'Variational compression returns an array with the requested rank bound whose overlap with the original equals its own squared norm and the returned number. Its distance to the original is not larger than that of the best multiple of the start vector and does not grow with more sweeps. Original and start vector are not modified by the out-of-place variant, and an insufficiently specified request is refused.',
  ['inputs', 'configurations'], 'all arrays, start vectors, ranks, numbers of sweeps and numbers of varied sites',
  'Tests compare a few fixed-seed runs with SVD compression; monotonicity and the overlap identity are not checked for arbitrary starts.',
  [M], [('_compression_var, _adapt_to, _adapt_to_add_l, _adapt_to_add_r, _adapt_to_new_lten', M)],
  ['compressed array and returned overlap']),
 ('C11', 'Singular values are the Schmidt values of every cut',
  'The singular values reported for the bipartitions after 1, 2, ... sites are the singular values of the corresponding dense matrix unfolding, in that order, up to zeros. Asking for them, fully or partly, does not change the represented array. A single site has no bipartition.',
  ['inputs', 'histories'], 'all arrays in all canonical forms; consumers stopping anywhere',
  'Tests consume the iterator completely, for uniform full-rank arrays only.',
  [M], [('singularvals, _compress_svd_r', M)], ['values yielded; array after each step']),
 ('C12', 'Embedding and summing local terms gives the sum on the full chain',
  'Embedding a local array on a slice of a chain multiplies it with the embedding tensor (identity by default) on all other sites. The sum of local terms equals the sum of the embedded terms, for any widths, slices, dtypes and embedding tensor, and for nearest neighbour type slices its rank stays at the documented smaller value. Regular slices start at zero, advance by the offset, end at the end of the chain, and impossible combinations are refused.',
  ['inputs'], 'all local terms, widths, slices and embedding tensors',
  'Tests sample a few lengths with one dtype and identity embedding.',
  [M, E], [('embed_slice, local_sum, _local_sum_identity, regular_slices', M), ('block_diag', E)],
  ['dense contraction of the result']),
 ('C13', 'Stored arrays come back unchanged',
  'Dumping an array to a file or to a group inside a file and loading it gives local tensors with bitwise identical entries, shapes and dtypes and the same canonical form. The same holds for pickles and deep copies. Several arrays in groups of the same file do not disturb each other. Dumping does not change the array.',
  ['inputs', 'histories'], 'all arrays, forms, dtypes, targets (path or group), several dumps per file',
  'The tests dump one array per file and compare few attributes.',
  [M], [('dump, load', M)], ['loaded local tensors and form']),
 ('C14', 'State conversions and reductions agree with dense quantum states',
  'Conversions between vectors, purifications and operators represent |v><v|, the traced-out purification, and for trivial conversions the same state. Reduced states for any requested supports, and for all windows of a given width, equal the partial trace of the dense state, in the documented order. Forms with and without explicit start sites agree.',
  ['inputs'], 'all states (any local dimensions, ancilla dimensions, ranks, forms), all lists of supports or widths',
  'Tests use uniform dimensions and few supports; non-uniform system and ancilla dimensions and repeated, overlapping or unsorted supports are not sampled.',
  [O], [('reductions_mpo, reductions_pmps, reductions_mps_as_mpo, reductions_mps_as_pmps', O), ('mps_to_mpo, mps_to_pmps, pmps_to_mpo, pmps_reduction, pmps_dm_to_array', O)],
  ['dense contraction of the result']),
 ('C15', 'The variational eigensolver reports honest eigenvalue estimates',
  'The variational eigensolver returns a normalized vector together with a value which is its expectation value and lies inside the spectrum of the Hermitian operator (for two or more varied sites up to the truncation of the bond), and is at least as good as the start vector. With a start vector of full rank it finds the extreme eigenvalue exactly. Start vector and operator are not modified, and unsupported requests are refused.',
  ['inputs', 'configurations'], 'all Hermitian operators, start vectors, ranks, sweeps and numbers of varied sites',
  'Tests compare with dense diagonalization for a few fixed seeds and uniform dimensions.',
  [L], [('eig, _eig_minimize_locally, _eig_leftvec_add, _eig_rightvec_add, _eig_local_op', L)],
  ['eigenvalue and eigenvector returned']),
 ('C16', 'The eigensolver for sums solves the eigenproblem of the sum',
  'The variational eigensolver for a sum of operators and vectors (a vector standing for its projector) behaves like the one for the single operator that equals the sum: its value is the expectation value of the sum in the returned normalized vector, lies inside the spectrum, and is exact for start vectors of full rank. The summands and the start vector are not modified.',
  ['inputs', 'configurations'], 'all lists of operators and vectors, ranks, sweeps, varied sites',
  'Tests sample a few sums with fixed seeds.',
  [L], [('eig_sum, _eig_sum_minimize_locally, _eig_sum_leftvec_add, _eig_sum_rightvec_add, _eig_minimize_locally2', L)],
  ['eigenvalue and eigenvector returned']),
 ('C17', 'Factory functions deliver what they promise',
  'Generated arrays have the requested sites, legs, ranks (capped at the maximal sensible rank unless forced) and dtype. Identity, zero and diagonal constructors represent exactly these arrays; random vectors and operators are normalized, random Hermitian operators are Hermitian, random density operators are positive with unit trace, random local Hamiltonians are Hermitian. Maximal ranks are exact for chains of any length.',
  ['inputs', 'configurations'], 'all sites, local dimensions (uniform or per site), ranks, dtypes and flags',
  'Tests check a few shapes with uniform dimensions.',
  [F, M], [('random_mpa, random_mps, random_mpo, random_mpdo, random_local_ham, zero, eye, diagonal_mpa, random_op, random_state, random_vec, _unitary_haar, _generate, _zrandn', F), ('full_rank', M)],
  ['dense contraction and metadata of the result']),
 ('C18', 'Random results are reproducible from the given random state',
  'Every function accepting a random state gives identical results for identically seeded states, uses only that state, and neither reads nor changes the global random state when one is given. Successive calls with the same state object give different results. This includes sampling, random start vectors and randomized decompositions.',
  ['histories', 'inputs'], 'all randomized functions, all seeds, any state of the global generator',
  'Tests always pass a seeded state and compare nothing with a second run under a different global state.',
  [F, M, L, P, E], [('randstate arguments', F), ('_compression_var', M), ('eig, eig_sum', L), ('MPPovm.sample', P), ('randomized_svd, approx_range_finder', E)],
  ['results of paired runs; state of the global generator']),
 ('C19', 'Local measurements are valid and informationally complete as claimed',
  'The predefined local measurements (X, Y and Z type, their parts and the full Pauli type measurement, any dimension) consist of positive operators which sum to the identity, and the ones flagged as informationally complete span the whole operator space. The probability map of a measurement gives Tr(rho M_i) for every element, and for informationally complete measurements the linear inversion map recovers every state from its probabilities. Elements given as vectors stand for their projectors, and the concatenation of measurements yields the weighted union of their elements.',
  ['inputs', 'configurations'], 'all local dimensions and all user supplied elements',
  'Tests cover few dimensions and only predefined elements.',
  [Q], [('POVM, concat, x_povm, y_povm, z_povm, pauli_parts, pauli_povm', Q)],
  ['elements and maps']),
 ('C20', 'Measurement probabilities agree with the dense quantum state',
  'For a measurement given in matrix product form and a state given as vector, purification or operator, the probabilities as matrix product array or dense array equal Tr(rho M) for every outcome, for every implementation choice and for measurements on parts of the chain (either smaller or embedded or repeated). Elements, outcome counts and the probability map agree with the dense elements. Expectation values and block probabilities over all positions are reported in order. Dense probabilities of a state which is not normalized within the tolerance are refused.',
  ['inputs', 'configurations'], 'all measurements, local dimensions, states, implementations and start sites',
  'Tests use one local measurement and uniform dimensions.',
  [P], [('MPPovm.pmf, pmf_as_array, expectations, embed, block, repeat, eye, from_local_povm, elements, probability_map, block_pmfs_as_array', P), ('MPPovmList.pmf, pmf_as_array, block, repeat; pauli_mpp, pauli_mpps', P)],
  ['probabilities returned']),
 ('C21', 'Sampling draws outcomes from the true distribution',
  'Samples drawn from a measurement of a state follow the exact joint outcome distribution for every sampling method, group size and state representation, never contain an outcome of probability zero, and are valid outcome indices in documented order. Packed and unpacked samples describe the same outcomes. Conditional sampling of any group of sites given the previous ones uses the exact conditional distribution.',
  ['inputs', 'histories'], 'all states, measurements, methods, group sizes and numbers of samples',
  'The tests compare coarse statistics for product distributions; correlated and sparse distributions are not covered.',
  [P], [('MPPovm.sample, _sample_direct, _sample_cond, _sample_cond_single', P)],
  ['samples; probabilities passed to the random generator']),
 ('C22', 'Estimated probabilities count the samples they are given',
  'Packing and unpacking of samples are inverse to each other for all outcome counts. The estimated distribution of a set of samples is the relative frequency of each outcome, also when estimated for another measurement from the samples of a finer or wider one, where the coarse graining of matching elements is exact. The reported number of effective samples is the number of samples used, and combined estimates are the sample-weighted averages.',
  ['inputs'], 'all samples, outcome counts, measurements, supports and sample weights',
  'Tests compare with one simple measurement; singleton outcomes, unequal outcome counts and partial matches are not covered jointly.',
  [P], [('pack_samples, unpack_samples, est_pmf, match_elems, est_pmf_from, est_pmf_from_mpps', P)],
  ['estimates returned']),
 ('C23', 'Linear functional estimates equal the empirical mean and variance',
  'The exact value and variance of a linear functional of outcome probabilities agree with the dense distribution; its estimate from samples is the sample mean of the coefficients, with the unbiased estimate of the variance of that mean. Estimates assembled from other measurements or from lists of measurements (with weights) equal the corresponding combination. Functionals which are not covered by the available measurements are reported as undefined (nan).',
  ['inputs'], 'all states, measurements, coefficients, samples and weights',
  'Tests sample product functionals with statistical tolerances.',
  [P], [('lfun, est_lfun, lfun_from, est_lfun_from, _lfun_estimator, _mppl_lfun_estimator', P)],
  ['value and variance returned']),
 ('C24', 'Projection onto probability distributions is correct',
  'The projection of real or nearly real numbers onto non-negative normalized distributions yields a non-negative array of unit sum with the shape of the input, leaves valid distributions unchanged, and is idempotent up to rounding. Imaginary parts, negative entries and deviations of the sum are accepted up to exactly the given tolerances and refused beyond them; entries at or below the truncation threshold become zero. Real arrays are projected in place and returned, complex input is not modified.',
  ['inputs'], 'all arrays, tolerances and truncation thresholds',
  'Tests sample a handful of arrays.',
  ['mpnum/utils/pmf.py'], [('project_nonneg, project_pmf', 'mpnum/utils/pmf.py')], ['return value']),
 ('C25', 'Compressing sums of product vectors is exact when the rank suffices',
  'The fast weighted sum of product vectors with compression equals the plain weighted sum whenever the target rank suffices, for every number of summands, weights and SVD function, and never exceeds the target rank. The fast inner product of product vectors with a vector equals the general inner product. Summands are not modified.',
  ['inputs'], 'all summands, weights, target ranks',
  'Tests use a single length and random weights.',
  ['mpnum/special.py'], [('sumup, inner_prod_mps', 'mpnum/special.py')], ['dense contraction of the result']),
 ('C26', 'Truncated and randomized decompositions are optimal as promised',
  'The truncated decomposition returns orthonormal factors and the largest singular values in descending order, reproducing the best low-rank approximation, with at most the requested number of values. The randomized decomposition reproduces matrices of sufficiently low rank exactly, returns orthonormal factors, handles tall, wide, real and complex matrices alike, and its range finder returns an orthonormal basis of the range.',
  ['inputs', 'configurations'], 'all matrices (shape, rank, dtype, degenerate values), target ranks, transposition and power iterations',
  'Tests use a few shapes of real matrices with fast decay.',
  [E], [('truncated_svd, randomized_svd, approx_range_finder, _standard_normal, svd_normalize', E)],
  ['factors returned']),
 ('C27', 'Spin chain Hamiltonians and exact energies agree with each other',
  'The sparse and the matrix product representation of a cyclic nearest neighbour Hamiltonian are the same operator, namely the sum of the given terms around the ring. The local terms of the cyclic XY model give its Hermitian Hamiltonian, and the exact ground state energy formula equals the smallest eigenvalue of that Hamiltonian for every admissible chain length and every asymmetry; lengths for which the formula is not valid are refused. The Pauli matrices and operators provided for building Hamiltonians are the standard ones.',
  ['inputs', 'configurations'], 'all chain lengths and coupling parameters',
  'Tests sample few lengths and random couplings.',
  [H], [('cXY_E0, cXY_local_terms, sparse_cH, mpo_cH', H)], ['energies, matrices']),
 ('C28', 'Dense array utilities rearrange and embed exactly',
  'Conversion between global and local leg order is a bijection in both directions for every number of sites and legs. Block-diagonal joins place every block at its offset for any axes and dtypes, partial traces over any sites equal the explicit index sum, and the Kronecker product of many factors equals the nested product. Inputs are not modified.',
  ['inputs'], 'all arrays, axes, sites and factors',
  'Tests sample few shapes.',
  [A, E], [('global_to_local, local_to_global', A), ('block_diag, partial_trace, mkron, matdot', E)], ['arrays returned']),
 ('C29', 'Replacing local tensors keeps the chain consistent or is refused',
  'Replacing one local tensor or several adjacent ones (any index, negative index, slice, extended slice, any canonical claim) either yields a well formed chain containing exactly the given tensors with all other sites untouched, or is refused with an error. A refused replacement leaves the chain as it was. Chains with mismatching neighbouring ranks can never be constructed.',
  ['inputs', 'histories'], 'all chains, indices, slices and replacement tensors, valid or not',
  'Tests cover single valid replacements; invalid ones, negative indices and wrong counts are not sampled.',
  [S], [('LocalTensors.__init__, update, __setitem__, _update', S)], ['local tensors after the call']),
 ('C30', 'Arrays with named axes contract and reorder by name',
  'An array with named axes keeps the assignment of names to axes through every history of renaming (several names at once, also exchanging names), conjugation and contraction. Contracting pairs of named axes sums over exactly these axes and keeps the names of all others, and conversion to a plain array returns the axes in the requested order. Duplicate, unknown or missing names are refused, and operands never change.',
  ['inputs', 'histories'], 'all arrays, names, orders, pairs of contracted axes and histories',
  'Tests contract one or two arrays with distinct sizes, where a wrong assignment of names raises an error; equal sizes and exchanged names are not sampled.',
  ['mpnum/_named_ndarray.py'], [('named_ndarray', 'mpnum/_named_ndarray.py')], ['axis names and values of the results']),
 ('C31', 'Results depend on the arguments only, not on earlier or concurrent calls',
  'Every computation with explicitly given operands and random state returns the same result whatever the process computed before: after any sequence of other computations (also with operands of equal shape and different values), when it is repeated, after the caller has overwritten arrays it received or objects it passed, when several computations run in different threads (also sharing operands which none of them modifies), and when generators are advanced in turns. No function changes global state (the global random state, numpy error and print settings, warning filters, environment, working directory).',
  ['histories', 'schedules'], 'all sequences and interleavings of computations in one process',
  'Every test computes its result once and in one order; caches and shared buffers show up in particular sequences only.',
  [M, S, O, L, P, Q, F, A, E, H], [('all public functions', M), ('mppovm', P), ('random objects', F)], ['values returned', 'global state of numpy and the package']),
 ('C32', 'Failures reach the caller, spare operands and leave objects consistent',
  'When an operation fails because of an error raised by something the caller supplied (decomposition or eigenvalue function, random state, iterable, function of outcomes, storage) or because it refuses its arguments, the error reaches the caller, operands and unrelated objects keep their values, and an object modified in place stays a valid chain of the original shape whose canonical form claim is true; interrupted lossless compression does not change the values. The operation can be repeated afterwards with the correct result.',
  ['inputs', 'crash_points', 'fault_sequences'], 'all operations and all points at which a supplied function, random state, iterable or the storage can fail',
  'Tests never let anything supplied by the caller fail, and no refused call is followed by an inspection of the operands.',
  [M, S, O, L, P, Q, F], [('MPArray.compress', M), ('LocalTensors.update', S), ('eig, eig_sum', L), ('lfun, est_lfun', P), ('random objects', F)], ['operands and objects after a failure']),
 ('C33', 'Ranks grow as documented and long chains stay tractable',
  'The representation stays compact: sums have at most the sum of the ranks, products and partial dot products the product of the ranks, tensor products, partial traces, conjugation, transposition, scalar multiples, reshaped or split legs and extracted parts keep the ranks of their operands, reductions keep the ranks of the state (squared for pure states), and compression never increases ranks. All operations which are defined on local tensors (arithmetic, inner products, norms, sandwiches, canonicalization, compression, reductions, sampling outcomes, probabilities of outcomes, storage, construction) work on chains of 200 sites within memory polynomial in the ranks, and give the correct values there.',
  ['inputs'], 'all operands, including chains whose dense form can not be stored',
  'Tests use chains short enough for dense comparison, where exponential intermediate results and too large ranks are not noticed.',
  [M, O, P, F, 'mpnum/special.py'], [('MPArray operations', M), ('reductions', O), ('outcome probabilities, samples', P)], ['ranks of results', 'memory', 'entries and transfer matrices of long chains']),
]

NA = []


def claimed(pid):
    return os.path.exists(os.path.join(HERE, 'mon', 'props', pid.lower() + '.py'))


def main():
    notes = {}
    npath = os.path.join(HERE, 'tools', 'level_notes.json')
    if os.path.exists(npath):
        with open(npath) as f:
            notes = json.load(f)
    checks, na = [], list(NA)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, title, st, over, text, why, files, mech, obs in PROPS:
            assert len(title) <= 80, title
            f.write(json.dumps({
                'id': pid, 'title': title, 'statement': st,
                'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [
                    {'name': n, 'where': w} for n, w in mech],
                    'observe_at': obs, 'hook_needed': None}},
                sort_keys=False) + '\n')
            if claimed(pid):
                checks.append({
                    'property': pid,
                    'quick_cmd': 'bash check.sh {} quick'.format(pid),
                    'thorough_cmd': 'bash check.sh {} thorough'.format(pid),
                    'technique': 'runtime monitoring: randomized hostile '
                                 'workloads on the real code, every operation '
                                 'judged by an independent reference oracle',
                    'level': 'exploration',
                    'level_note': notes.get(pid, 'oracle checks on sampled executions; bounded to small '
                                  'dense sizes plus some long chains'),
                })
            else:
                na.append({'property': pid, 'reason': 'check not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': '/opt/venv/bin/python -B -c "import numpy, scipy, h5py"',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
