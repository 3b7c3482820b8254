"""single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["thewalrus/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []),
    ))


prop("C01", "Hafnian and loop hafnian equal the matching sums",
     "For every symmetric matrix, real, complex or integer, the hafnian returned by every public entry point and every method equals the sum over perfect matchings of products of entries, and the loop hafnian equals the sum over matchings in which an index may also be matched to itself through the diagonal. Odd size gives 0 (without loops) and the empty matrix gives 1.",
     "all symmetric matrices of each size (even, odd, empty), all entry values including zeros, all methods, loop and no-loop",
     "tests compare a few all-ones/random matrices and closed forms; entries are a continuum and the kernel is a polynomial identity that must hold for all of them",
     ["_hafnian.py", "reference.py"],
     [("glynn / inclusion-exclusion kernels", "thewalrus/_hafnian.py _haf,_calc_hafnian,_calc_loop_hafnian"), ("recursive kernel", "thewalrus/_hafnian.py recursive_hafnian, solve"), ("dispatch and validation", "thewalrus/_hafnian.py hafnian")],
     observe=["thewalrus.hafnian", "thewalrus.loop_hafnian"])
prop("C02", "Repeated-index hafnians equal hafnians of the expanded matrix",
     "The hafnian (or loop hafnian with displacement diagonal) of a matrix with per-index repetition numbers equals the hafnian of the matrix obtained by actually repeating rows and columns, for every repetition vector including zeros and odd totals, and for both summation methods. Reducing a matrix by repetitions or by a photon pattern selects exactly those rows, columns and diagonal entries.",
     "all matrices, displacement vectors and repetition vectors (incl. zeros, odd totals), all methods and flags",
     "tests use a handful of random matrices and repetition patterns",
     ["_hafnian.py"],
     [("edge-kept enumeration over repeated indices", "thewalrus/_hafnian.py matched_reps, find_kept_edges, get_AX_S"), ("finite-difference/inclusion-exclusion weights", "thewalrus/_hafnian.py _calc_loop_hafnian, _haf"), ("row repetition", "thewalrus/_hafnian.py reduction")],
     observe=["thewalrus.hafnian_repeated", "thewalrus.loop_hafnian", "thewalrus.reduction"])
prop("C03", "Structured hafnian algorithms agree with the hafnian",
     "The algorithms specialised to sparse, banded and low-rank symmetric matrices return exactly the (loop) hafnian of that matrix, whatever its zero pattern or bandwidth, and for the low-rank form whatever the factor. For the sparse form a restriction to a subset of indices gives the hafnian of that submatrix.",
     "all matrices of the structured class up to the bound; every zero pattern, every index subset, every band width and rank",
     "tests use random instances of a few bandwidths/ranks",
     ["_hafnian.py", "_low_rank_haf.py"],
     [("memoised subset recursion", "thewalrus/_hafnian.py hafnian_sparse"), ("banded dynamic programme", "thewalrus/_hafnian.py hafnian_banded, bandwidth"), ("coefficient extraction", "thewalrus/_low_rank_haf.py low_rank_hafnian")],
     observe=["thewalrus.hafnian_sparse", "thewalrus.hafnian_banded", "thewalrus.low_rank_hafnian"])
prop("C04", "Batched loop hafnians equal the individual loop hafnians",
     "Computing loop hafnians for a batch of values of one repetition number, or for a batch of displacement vectors, gives for each batch position exactly the loop hafnian that a separate computation for that value gives, for every pattern of fixed repetitions including odd totals, zeros and cutoff 0.",
     "all matrices, displacements, fixed patterns, cutoffs, with and without odd modes, both methods",
     "tests sample random matrices; odd/even edge completion and cutoff corners are combinatorial",
     ["loop_hafnian_batch.py", "loop_hafnian_batch_gamma.py"],
     [("even/odd kernels", "thewalrus/loop_hafnian_batch.py _calc_loop_hafnian_batch_even/_odd"), ("edge completion", "thewalrus/loop_hafnian_batch.py add_batch_edges_even/_odd"), ("displacement batch", "thewalrus/loop_hafnian_batch_gamma.py")])
prop("C05", "Multidimensional Hermite polynomials follow their recursion",
     "The array of multidimensional Hermite polynomials up to a cutoff, plain or renormalised, equals the loop hafnians of the repeated matrix (times the normalisation), for any symmetric matrix, vector and per-mode cutoffs; the standard, modified and batched variants agree up to their documented convention, and the matrix elements of an interferometer are the corresponding special case. The gradient of the array is its exact derivative with respect to matrix and vector.",
     "all matrices, vectors, cutoffs in the bound",
     "tests compare few cutoffs with closed forms for one or two modes",
     ["_hermite_multidimensional.py"],
     [("recursion kernels", "thewalrus/_hermite_multidimensional.py _hermite_multidimensional(_renorm)"), ("interferometer kernels", "thewalrus/_hermite_multidimensional.py _interferometer(_renorm)"), ("gradient kernels", "thewalrus/_hermite_multidimensional.py _grad_hermite_multidimensional(_renorm)")],
     observe=["thewalrus.hermite_multidimensional", "thewalrus.hafnian_batched", "thewalrus.interferometer", "thewalrus.grad_hermite_multidimensional"])
prop("C06", "Permanents equal the sum over permutations",
     "For every square matrix, real, complex or integer, each permanent algorithm returns the sum over permutations of products of entries (1 for the empty matrix), and the permanent with row and column repetitions equals the permanent of the expanded matrix.",
     "all matrices per size, all algorithms, all repetition vectors",
     "tests compare all-ones and random matrices of a few sizes",
     ["_permanent.py"],
     [("Gray-code Ryser kernel", "thewalrus/_permanent.py perm_ryser"), ("Gray-code Glynn/BBFG kernel", "thewalrus/_permanent.py perm_bbfg"), ("dispatch", "thewalrus/_permanent.py perm, permanent_repeated")],
     observe=["thewalrus.perm", "thewalrus.permanent_repeated"])
prop("C07", "Bristolian functions are threshold-detection probabilities",
     "The Bristolian and the unitary Bristolian give, for every input Fock pattern, click pattern and transmission, exactly the total probability of all output photon patterns that click in those detectors; individual Fock-output probabilities equal the squared modulus of the scattering permanent with the factorial normalisation.",
     "all interferometer matrices (lossy and unitary), all input and output/click patterns in the bound, zero photons included",
     "tests use a few random interferometers",
     ["_permanent.py"],
     [("inclusion-exclusion over clicked subsets", "thewalrus/_permanent.py brs, ubrs"), ("pattern probabilities", "thewalrus/_permanent.py fock_prob, fock_threshold_prob")])
prop("C08", "Torontonians equal their inclusion-exclusion definition",
     "The torontonian and loop torontonian, direct or recursive, equal the signed sum over mode subsets of the inverse square-root determinant (with the exponential displacement factor for loops) for every admissible matrix, and the threshold probabilities of a Gaussian state derived from them are those of the state, whichever algorithm is used.",
     "all matrices O with the doubled structure and I-O positive definite, all displacements, all click patterns",
     "tests compare few random Gaussian states; the recursion updates a Cholesky factor whose correctness depends on the entry order of every subset",
     ["_torontonian.py"],
     [("power-set sum", "thewalrus/_torontonian.py numba_tor, numba_ltor"), ("recursive Cholesky update", "thewalrus/_torontonian.py quad_cholesky, recursiveTor, recursiveLTor"), ("probabilities", "thewalrus/_torontonian.py threshold_detection_prob, numba_vac_prob")])
prop("C09", "Characteristic polynomial and power traces are exact",
     "For every square matrix the characteristic polynomial coefficients and the traces of powers returned are the exact ones, for any requested order (below, equal to and above the matrix size) including sizes 0 and 1, and the argument is left unchanged.",
     "all matrices per size, including zero columns and already-Hessenberg ones (all pivot branches), all requested orders",
     "tests use a few random matrices and miss degenerate pivots",
     ["charpoly.py"],
     [("Householder reduction", "thewalrus/charpoly.py reduce_matrix_to_hessenberg, apply_householder"), ("La Budde recurrence", "thewalrus/charpoly.py _charpoly"), ("Newton continuation", "thewalrus/charpoly.py powertrace")])
prop("C10", "Montrealer functions equal the sum over perfect matching loops",
     "The Montrealer and loop Montrealer of a matrix (and displacement vector) equal the sum over the reduced single-pair (and loop) matchings that define them, both in the fast algorithm and in the reference implementation.",
     "all matrices/vectors of the documented block form per size",
     "tests compare few random matrices",
     ["_montrealer.py", "reference.py"],
     [("subset sum with power loops", "thewalrus/_montrealer.py montrealer, lmontrealer, power_loop"), ("reference sums", "thewalrus/_montrealer.py mtl, lmtl; thewalrus/reference.py rpmp, rspm")])
prop("C11", "Reference enumerations of matchings are complete and free of duplicates",
     "The reference generators enumerate every perfect matching, every single-pair matching and every partition exactly once, and the reference hafnian is the sum over them for every matrix.",
     "all matrices per size; all element orders",
     "tests check counts for a few sizes",
     ["reference.py"],
     [("generators", "thewalrus/reference.py T, spm, pmp, partitions"), ("reference hafnian", "thewalrus/reference.py hafnian")])
prop("C12", "Conversions between Gaussian representations are mutually consistent",
     "For every Gaussian state, the Husimi (Q) matrix, the quadrature covariance matrix and the adjacency (A) matrix are the ones defined by the quadrature-to-amplitude change of basis and invert each other for every value of hbar; real and complex displacement vectors convert back and forth exactly.",
     "all covariance matrices and means per mode count, all hbar > 0",
     "tests use fixed states and mostly hbar=2",
     ["quantum/conversions.py", "samples.py"],
     [("change of basis", "thewalrus/quantum/conversions.py Qmat, Covmat, Amat, Xmat"), ("displacements", "thewalrus/quantum/conversions.py complex_to_real_displacements, real_to_complex_displacements")])
prop("C13", "Reduced states select exactly the requested modes in the requested order",
     "Taking the reduced Gaussian state on a list of modes returns the means and covariances of exactly those modes in the order given, for every list of distinct modes, and rejects modes that do not exist.",
     "all means/covariances, all ordered mode lists",
     "tests use sorted subsets of few modes",
     ["quantum/conversions.py", "symplectic.py"],
     [("index selection", "thewalrus/quantum/conversions.py reduced_gaussian; thewalrus/symplectic.py reduced_state")])
prop("C14", "State predicates decide exactly what they name",
     "The predicates on covariance and symplectic matrices accept a matrix exactly when it is symmetric and satisfies the uncertainty relation (valid), has unit purity (pure), exceeds vacuum noise (classical), or preserves the symplectic form, up to the stated tolerances and for every hbar.",
     "all real matrices of the bounded sizes, all hbar",
     "tests check a few accepted and rejected matrices",
     ["quantum/gaussian_checks.py", "symplectic.py"],
     [("uncertainty relation", "thewalrus/quantum/gaussian_checks.py is_valid_cov"), ("purity / classicality", "thewalrus/quantum/gaussian_checks.py is_pure_cov, is_classical_cov"), ("symplectic form", "thewalrus/quantum/gaussian_checks.py is_symplectic, thewalrus/symplectic.py is_symplectic")])
prop("C15", "Symplectic gates are symplectic and act as documented",
     "Every gate matrix is symplectic and implements the documented Heisenberg action for every parameter value; embedding into more modes leaves the other modes untouched, the two quadrature orderings convert into each other exactly, and loss or a passive transformation gives the state obtained by mixing with vacuum.",
     "all gate parameters, all mode placements, all states, all hbar",
     "tests check fixed parameters and placements",
     ["symplectic.py"],
     [("gate constructors", "thewalrus/symplectic.py squeezing, two_mode_squeezing, beam_splitter, rotation, interferometer"), ("embedding", "thewalrus/symplectic.py expand, expand_vector, expand_passive"), ("channels", "thewalrus/symplectic.py loss, passive_transformation, reduced_state")])
prop("C16", "Matrix decompositions reconstruct their input with factors of the stated kind",
     "Each canonical decomposition returns factors of the promised form (symplectic, orthogonal, unitary, diagonal, non-negative, ordered) whose product is the given matrix, for every admissible matrix, including degenerate spectra.",
     "all admissible matrices per size, including degenerate and diagonal ones",
     "tests use random, hence generic, matrices",
     ["decompositions.py"],
     [("Williamson", "thewalrus/decompositions.py williamson, symplectic_eigenvals"), ("Bloch-Messiah, Iwasawa", "thewalrus/decompositions.py blochmessiah, pre_iwasawa, iwasawa"), ("Takagi", "thewalrus/decompositions.py takagi")])
prop("C17", "Photon-number statistics equal the operator moments of the Gaussian state",
     "Means, variances, covariances, higher moments and cumulants of photon number, and normally or s-ordered expectations, equal the moments of the Gaussian state computed from its characteristic function, for every state, mode choice and hbar.",
     "all means, covariances, mode lists, orders, hbar",
     "tests check coherent, squeezed and thermal special cases",
     ["quantum/means_and_variances.py"],
     [("closed forms", "thewalrus/quantum/means_and_variances.py photon_number_mean, photon_number_covar, ..."), ("ordered expectations", "thewalrus/quantum/means_and_variances.py normal_ordered_expectation, s_ordered_expectation"), ("cumulants", "thewalrus/quantum/means_and_variances.py photon_number_cumulant")])
prop("C18", "Threshold-click statistics are those of the state",
     "The mean number, variance and cumulants of detector clicks equal the moments of the distribution of click patterns of the Gaussian state, for every state and hbar.",
     "all states in the bound, all mode subsets, all hbar",
     "tests check a few states",
     ["quantum/means_and_variances.py"],
     [("means and variances", "thewalrus/quantum/means_and_variances.py mean_clicks, variance_clicks"), ("cumulants", "thewalrus/quantum/means_and_variances.py click_cumulant")])
prop("C19", "Fock representation of Gaussian states is correct and consistent",
     "Single amplitudes, single density-matrix elements, full state vectors and full density matrices of a Gaussian state agree with each other and with the state's defining moments, for every state, hbar, cutoff and post-selection pattern.",
     "all means/covariances, all Fock indices below the cutoff, all post-selection patterns, all hbar",
     "tests use two or three states with closed-form amplitudes",
     ["quantum/fock_tensors.py"],
     [("elements", "thewalrus/quantum/fock_tensors.py density_matrix_element, pure_state_amplitude, _prefactor"), ("arrays", "thewalrus/quantum/fock_tensors.py density_matrix, state_vector")])
prop("C20", "Probabilities and marginals are bookkept correctly",
     "Photon-number probability tables are the diagonal of the density matrix, marginals of a probability table are obtained by summing over exactly the other modes, in the mode order asked for, and the truncation bound counts exactly the probability outside the cutoff.",
     "all probability tables and mode lists in the bound",
     "tests use marginals of one or two modes of particular states",
     ["quantum/fock_tensors.py"],
     [("marginals", "thewalrus/quantum/fock_tensors.py n_body_marginals"), ("truncation bounds", "thewalrus/quantum/fock_tensors.py tvd_cutoff_bounds"), ("table", "thewalrus/quantum/fock_tensors.py probabilities")])
prop("C21", "Loss and noise maps transform photon distributions as physical channels",
     "Applying detector loss to a photon-number table thins every photon independently with the given efficiency, applying dark noise convolves each mode with its noise distribution, and both act on each mode independently of the number and order of modes.",
     "all probability tables, all efficiencies in [0,1], all noise distributions, all mode counts",
     "tests use one- and two-mode examples",
     ["quantum/fock_tensors.py"],
     [("loss", "thewalrus/quantum/fock_tensors.py loss_mat, update_probabilities_with_loss"), ("noise", "thewalrus/quantum/fock_tensors.py update_probabilities_with_noise, _update_1d")])
prop("C22", "Fock-space gate tensors are those of the Gaussian gates",
     "The Fock-basis tensor of a Gaussian unitary and the closed-form tensors of displacement, squeezing, two-mode squeezing, beam splitter and Mach-Zehnder gates give the matrix elements of the corresponding operator for every parameter and cutoff.",
     "all gate parameters, all indices below the cutoff",
     "tests check fixed parameters",
     ["fock_gradients.py", "quantum/fock_tensors.py"],
     [("recursions", "thewalrus/fock_gradients.py displacement, squeezing, two_mode_squeezing, beamsplitter, mzgate"), ("general tensor", "thewalrus/quantum/fock_tensors.py fock_tensor")])
prop("C23", "Gradients of Fock gates are the exact derivatives",
     "The gradient routines return the exact partial derivatives of the corresponding gate tensors with respect to each parameter, at every parameter value and for every matrix element below the cutoff.",
     "all parameters and indices below the cutoff",
     "tests compare with finite differences at sampled points",
     ["fock_gradients.py"],
     [("gradients", "thewalrus/fock_gradients.py grad_displacement, grad_squeezing, grad_two_mode_squeezing, grad_beamsplitter, grad_mzgate")])
prop("C24", "Gaussian fidelity is symmetric and correct",
     "The fidelity of two Gaussian states is symmetric, equals the overlap formula when one state is pure, is 1 on identical pure states, and rejects states of mismatched size, for every hbar.",
     "all pairs of states in the bound, all hbar",
     "tests check special states",
     ["quantum/gaussian_checks.py"],
     [("fidelity", "thewalrus/quantum/gaussian_checks.py fidelity")])
prop("C25", "Entanglement measures use the right bipartition and spectrum",
     "The von Neumann entropy, entanglement entropy and logarithmic negativity are the documented functions of the symplectic spectrum of the (partially transposed or reduced) covariance matrix of the requested bipartition, zero for product states, symmetric under exchanging the parts, for every hbar.",
     "all states in the bound, all bipartitions, all hbar",
     "tests check two-mode squeezed vacuum",
     ["quantum/entanglement.py"],
     [("partition", "thewalrus/quantum/entanglement.py get_partition"), ("measures", "thewalrus/quantum/entanglement.py vonneumann_entropy, entanglement_entropy, log_negativity")])
prop("C26", "Results do not depend on the choice of hbar",
     "Rescaling hbar together with the quadrature means and covariances leaves every physical result (probabilities, amplitudes, photon statistics, predicates, fidelities, entanglement measures) unchanged.",
     "all hbar > 0 and all states in the bound, every public function with an hbar argument",
     "the suite runs nearly everything with hbar=2",
     ["quantum/conversions.py", "quantum/fock_tensors.py", "quantum/means_and_variances.py", "quantum/gaussian_checks.py", "quantum/entanglement.py", "quantum/photon_number_distributions.py"],
     [("hbar plumbing", "every function with an hbar argument in thewalrus/quantum and thewalrus/symplectic.py")])
prop("C27", "The hafnian sampler draws from the state's photon-number distribution",
     "For every Gaussian state, the probability with which the sampler returns each photon pattern below the cutoff equals the pattern's probability under the state (conditioned as documented at the cutoff), for every outcome of its internal random draws and every hbar.",
     "all states in the bound, all random draws, all hbar",
     "tests do statistical checks on a few states",
     ["samples.py"],
     [("conditional chain", "thewalrus/samples.py generate_hafnian_sample, _hafnian_sample"), ("decomposition", "thewalrus/samples.py decompose_cov, get_heterodyne_fanout, mu_to_alpha")], over=("inputs", "histories"))
prop("C28", "The torontonian sampler draws from the click distribution",
     "For every Gaussian state, the probability with which the threshold sampler returns each click pattern equals the pattern's probability under the state, with and without displacement and for every hbar.",
     "all states in the bound, all random draws, all hbar",
     "tests do statistical checks on a few states",
     ["samples.py"],
     [("conditional chain", "thewalrus/samples.py generate_torontonian_sample, _torontonian_sample")], over=("inputs", "histories"))
prop("C29", "Classical and graph samplers draw from the distributions they document",
     "Samplers for classical states, thermal graph samples and rank-one graphs draw with exactly the documented probabilities: classical states are sampled from the state's own P-function, thermal samples have the requested mean photon number.",
     "all states/graphs in the bound, all random draws, all hbar",
     "tests do statistical checks on a few states",
     ["samples.py", "csamples.py"],
     [("classical", "thewalrus/samples.py hafnian_sample_classical_state, torontonian_sample_classical_state"), ("thermal", "thewalrus/csamples.py"), ("rank one", "thewalrus/samples.py hafnian_sample_graph_rank_one, photon_number_sampler")], over=("inputs", "histories"))
prop("C30", "Adjacency-matrix encodings hit the requested mean",
     "The scaling computed for an adjacency matrix yields a Gaussian state with exactly the requested mean number of photons or clicks, and the Q matrix built from an adjacency matrix is the one of that state.",
     "all symmetric matrices in the bound, all requested means",
     "tests use random graphs",
     ["quantum/adjacency_matrices.py", "csamples.py"],
     [("scaling", "thewalrus/quantum/adjacency_matrices.py adj_scaling, adj_scaling_torontonian, _mean_clicks_adj"), ("encoding", "thewalrus/quantum/adjacency_matrices.py adj_to_qmat")])
prop("C31", "Total photon-number distributions are correct",
     "The total photon-number distributions of squeezed and lossy squeezed states, their convolutions and characteristic functions equal those obtained from the individual modes' distributions, for every squeezing, efficiency and number of modes.",
     "all squeezing parameters, efficiencies, mode counts, orders",
     "tests compare a few parameter values",
     ["quantum/photon_number_distributions.py"],
     [("distributions", "thewalrus/quantum/photon_number_distributions.py")])
prop("C32", "Grouped click probabilities are those of the detectors' grouping",
     "The grouped click probabilities equal the distribution of click counts per group of detectors of the state, for every input, interferometer and grouping.",
     "all inputs, interferometers and groupings in the bound",
     "tests use few groupings",
     ["grouped_click_probabilities.py"],
     [("grouping", "thewalrus/grouped_click_probabilities.py grouped_click_probabilities, grouped_click_probabilities_squeezed")])
prop("C33", "Random matrix generators return matrices of the promised class",
     "Every random covariance is a valid (or pure) state covariance, every random symplectic is symplectic, every random interferometer is unitary (orthogonal when real), block and banded interferometers have exactly the promised structure, for every outcome of the random draws.",
     "all outcomes of the random draws, sizes, hbar, flags",
     "tests check a few seeds",
     ["random.py"],
     [("generators", "thewalrus/random.py")], over=("inputs", "histories"))
prop("C34", "Inputs are never modified",
     "No public function changes the arrays the caller passes in: after any call every argument has the value it had before.",
     "all inputs in the bound, every public function taking arrays",
     "no test checks it systematically",
     ["_hafnian.py", "_permanent.py", "_torontonian.py", "charpoly.py", "symplectic.py", "quantum/fock_tensors.py", "quantum/conversions.py", "samples.py", "decompositions.py"],
     [("copies before in-place work", "in-place kernels throughout thewalrus/")])
prop("C35", "Kernels never access memory out of bounds and parallel loops do not race",
     "No compiled kernel reads or writes outside its arrays for any admissible input, and every loop marked parallel gives the same result for every order and interleaving of its iterations.",
     "all inputs in the bound, all iteration orders of parallel loops",
     "compiled kernels run without bounds checks, so the tests cannot observe an overrun; races need schedules",
     ["_hafnian.py", "_permanent.py", "_torontonian.py", "charpoly.py", "_hermite_multidimensional.py", "_montrealer.py", "loop_hafnian_batch.py", "loop_hafnian_batch_gamma.py", "fock_gradients.py"],
     [("indexing in compiled kernels", "all numba-compiled functions"), ("parallel reductions", "thewalrus/_hafnian.py _calc_loop_hafnian; thewalrus/_permanent.py; thewalrus/_torontonian.py; batch kernels")], over=("inputs", "schedules"))
prop("C36", "Invalid inputs are rejected and valid ones accepted",
     "Every public matrix function accepts each matrix of its documented domain and raises its documented error for a matrix outside it (wrong type, not square, not symmetric, odd dimension, NaN, mismatched lengths), never returning a value silently.",
     "all matrices within and outside the domain up to the bound",
     "tests try one bad input per check",
     ["_hafnian.py", "_torontonian.py", "_permanent.py", "decompositions.py", "symplectic.py", "quantum/gaussian_checks.py"],
     [("validation", "thewalrus/_hafnian.py input_validation; thewalrus/_torontonian.py tor_input_checks; ...")])
prop("C37", "Distinguishable squeezed light statistics are sums over the independent sources",
     "For distinguishable squeezers, photon-number means and covariances equal those of the sum of the independent Gaussian contributions of each squeezer propagated alone, for every squeezing, transmission and efficiency.",
     "all squeezing parameters, transmission matrices and efficiencies in the bound",
     "tests compare few parameters",
     ["quantum/distinguishable_squeezers.py"],
     [("sums over sources", "thewalrus/quantum/distinguishable_squeezers.py number_means, number_cov, sample")])

prop("C38", "The numeric type of the inputs does not change the result",
     "For every function of matrices, vectors or probability tables, integer-valued inputs given as integer, real or complex arrays lead to the same values, or the type is refused with an error; in particular no result is silently truncated to integers.",
     "all integer-valued inputs in the stated ranges, in every supported array type, with every real value of the remaining parameters",
     "tests compare integer and real arrays at few fixed matrices and for few functions",
     ["_hafnian.py", "_permanent.py", "_hermite_multidimensional.py", "loop_hafnian_batch.py", "symplectic.py", "quantum/fock_tensors.py"],
     [("conversions and result buffers", "thewalrus/_hafnian.py hafnian, loop_hafnian; thewalrus/symplectic.py loss; thewalrus/quantum/fock_tensors.py update_probabilities_with_noise; thewalrus/_hermite_multidimensional.py")])

prop("C39", "The approximate hafnian is an unbiased estimator",
     "hafnian(A, approx=True, num_samples=N), for every non-negative symmetric matrix, averages N independent random determinants whose expectation over the normal draws is exactly the hafnian; matrices with negative or complex entries are refused.",
     "all non-negative matrices up to the bound and all outcomes of the random draws",
     "tests compare one noisy estimate with wide tolerances",
     ["_hafnian.py"],
     [("Barvinok estimator", "thewalrus/_hafnian.py hafnian_approx, _one_det, hafnian (approx branch)")])
prop("C40", "Results do not depend on earlier calls",
     "Calling any deterministic public function again with equal arguments gives equal results whatever was called before and whatever the caller did to the arrays it was given or passed in earlier; memoised generators of matchings yield the same complete sequence to every reader under every interleaving.",
     "all histories of bounded length, all matrices of the borrowed families",
     "tests call each function in one order only",
     ["reference.py", "_hafnian.py", "symplectic.py", "quantum/"],
     [("memoised generators", "thewalrus/reference.py memoized, partitions, T, spm, pmp"), ("public functions", "thewalrus/*.py")])

TECH = "symbolic execution of the real source with SMT (z3) discharge, counterexample replay on the compiled code"
LEVEL = "model_checking"
NOTE = "All-values verdict within the stated bounds (sizes, orders); real arithmetic instead of floats; numpy/numba primitives modelled by their mathematical meaning and re-validated by replaying a witness of every case on the real code."


def main():
    have = []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")) and p["id"] not in NA:
            have.append(p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = dict(
        version=1, setup_cmd="./run.py --selftest",
        checks=[dict(property=i, quick_cmd="./run.py --property %s" % i, thorough_cmd="./run.py --property %s --tier thorough" % i,
                     evidence_file="evidence/%s.json" % i, technique=TECH, level=LEVEL, level_note=NOTE) for i in have],
        not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "not claimed yet: the symbolic check for this property is still being built")) for p in P if p["id"] not in have],
        notes="No hooks in /repo are needed: the engine interprets /repo's current source directly.",
    )
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
    print(len(P), "properties;", len(have), "claimed")


if __name__ == "__main__":
    main()
