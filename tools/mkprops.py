"""Writes /verif/properties.jsonl (one property per line); edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))
TB="curvlinops/_torch_base.py"
p("C01","Hessian products equal the second derivative of the empirical risk",
 "For every model, loss (reduction mean or sum), parameter list, data set and split into mini-batches, applying the Hessian operator to a vector or matrix gives the matrix of second derivatives of the empirical risk with respect to the listed parameters, in list order, applied to it. If block sizes are given, cross derivatives between parameters of different blocks (consecutive groups of the given sizes) are treated as zero and everything inside a block is exact.",
 ["inputs","configurations"],"all networks, losses, reductions, parameter values/orders/subsets, data, batch splits, block partitions and multiplied vectors; decided on small integer networks where the exact value is rational",
 "The tests compare a dozen fixed random float32 networks against functorch; they cannot enumerate batch splits x parameter subsets x block partitions x losses, and their tolerance hides small systematic errors.",
 ["curvlinops/hessian.py",TB],[("double backward per block","curvlinops/hessian.py:_matmat_batch"),("mini-batch accumulation and normalisation",TB+":_matmat,_get_normalization_factor")],
 observe=["HessianLinearOperator @ X"])
p("C02","GGN products equal J^T (loss Hessian) J of the empirical risk",
 "For every model, loss (reduction mean or sum), parameter list, data set and mini-batch split, applying the generalized Gauss-Newton operator gives the sum over data of Jacobian-transpose times loss Hessian (w.r.t. the model output) times Jacobian, with the normalisation the loss reduction implies over the whole data set, applied to the vector or matrix. It is symmetric positive semi-definite and equals the Hessian whenever the model is linear in the listed parameters.",
 ["inputs","configurations"],"all networks, losses, reductions, parameters, data, batch splits and multiplied vectors",
 "Tests sample a fixed list of random networks at float32 tolerance; unequal batches, multi-term losses, parameter subsets and column counts are covered only in a few combinations.",
 ["curvlinops/ggn.py",TB],[("GGN-vector product per column","curvlinops/ggn.py:_matmat_batch"),("accumulation",TB+":_matmat")],observe=["GGNLinearOperator @ X"])
p("C03","Empirical Fisher is the normalised sum of loss-term gradient outer products",
 "For MSE, cross-entropy and BCE-with-logits losses (mean or sum), any data split and any parameter list, the empirical Fisher operator represents the sum over all loss terms (data points and sequence positions) of the outer product of the un-averaged loss-term gradient, divided for reduction mean by the total number of loss terms (and additionally the output dimension for MSE and BCE). The value does not depend on how data are batched.",
 ["inputs","configurations"],"all supported losses, reductions, output shapes with extra dimensions, batch splits, parameters and vectors",
 "Scaling errors that cancel for equal batch sizes, one output dimension or one loss term per datum pass the sampled cases.",
 ["curvlinops/gradient_moments.py",TB],[("pseudo-loss whose GGN is the EF, reduction factor","curvlinops/gradient_moments.py:_matmat_batch")],observe=["EFLinearOperator @ X"])
p("C04","Monte-Carlo Fisher is a fixed, seeded, correctly distributed label sample",
 "Every product with a Monte-Carlo Fisher operator uses one and the same matrix: the documented normalised sum of outer products of loss gradients at labels drawn from the model's predictive distribution, the same labels for all columns, all calls and all operators built with the same seed and data. Over seeds, labels follow the model's likelihood, so the average over seeds is the Fisher (for these losses the GGN), with the variance shrinking by the number of samples.",
 ["inputs","histories","configurations"],"all seeds, numbers of samples, losses, reductions, data and call histories",
 "Tests compare one long average against a loose tolerance; they cannot decide that each single product is explained by some label assignment, that repeated calls reuse it, or that label frequencies match the likelihood.",
 ["curvlinops/fisher.py"],[("re-seeding before each product","curvlinops/fisher.py:_matmat"),("would-be gradients","curvlinops/fisher.py:sample_grad_output")],
 state=[("generator","random stream used to draw labels","curvlinops/fisher.py")],observe=["FisherMCLinearOperator @ X"])
p("C05","Jacobian and transposed Jacobian: exact entries, data order, mutual adjoints",
 "The Jacobian operator's row for datum n and output entry c contains the derivatives of that output with respect to the listed parameters, rows ordered by the order in which the data are presented across mini-batches; the transposed Jacobian operator is its exact transpose. Each operator's adjoint is the other, on the same data.",
 ["inputs","configurations"],"all models, output shapes, parameter lists, uneven batch splits, vectors and matrices in all formats",
 "Tests use a few random networks; offsets between batches, output shapes with several trailing dimensions and adjoints of adjoints are not enumerated.",
 ["curvlinops/jacobian.py",TB],[("concatenation over batches","curvlinops/jacobian.py:JacobianLinearOperator._matmat"),("row-window per batch","curvlinops/jacobian.py:TransposedJacobianLinearOperator._matmat"),("adjoint construction","curvlinops/jacobian.py:_adjoint")],observe=["@","adjoint()","to_scipy().rmatvec"])
p("C06","Data-set quantities do not depend on how the data are split into mini-batches",
 "For every operator whose definition is an average or sum over data (Hessian, GGN, empirical Fisher, non-sampled KFAC factors, gradient and loss), any re-partitioning or re-ordering of the same data into mini-batches of any sizes, including single-element and uneven ones, gives the same result; the loss and gradient equal those of the whole data set evaluated at once. Data may be any re-iterable of (input, target) pairs, including dict-like inputs with a batch-size function, and an explicitly given number of data points is used as the data-set size in the normalisation.",
 ["inputs","configurations","schedules"],"all partitions and orders of a data set into mini-batches, all reductions and losses",
 "The tests use one fixed two-batch split per case; normalisation errors that vanish for that split or for equal sizes are invisible.",
 [TB,"curvlinops/kfac.py","curvlinops/gradient_moments.py"],[("normalisation by batch size over data-set size",TB+":_get_normalization_factor"),("covariance corrections","curvlinops/kfac.py:_accumulate_gradient_covariance"),("gradient_and_loss",TB)],
 state=[("accumulator","running sum over consumed batches",TB+":_matmat")],observe=["@","gradient_and_loss()"])
p("C07","Parameter list order and choice only permute and select rows and columns",
 "Permuting the parameter list of a curvature or Jacobian operator permutes the corresponding row/column groups of the represented matrix, and listing only some parameters yields exactly the corresponding principal (for Jacobians: column) sub-matrix; frozen or unlisted parameters never contribute. For KFAC the same holds with the layer-wise structure, where a weight and bias are coupled only if both are listed and joint treatment is requested.",
 ["inputs","configurations"],"all permutations and subsets of the parameters of a network",
 "Tests use the full list in model order or drop all weights/biases; permuted or interleaved lists are covered by one or two cases.",
 [TB,"curvlinops/kfac.py","curvlinops/hessian.py"],[("parameter mapping","curvlinops/kfac.py:compute_parameter_mapping"),("per-parameter lists","curvlinops/_torch_base.py")],observe=["@"])
p("C08","Products are one linear map across input formats; malformed input is rejected",
 "For every operator, a vector or matrix given as one flat tensor or as a list of tensors describes the same point, the result comes back in the same format and describes the same image, columns of a matrix are mapped independently, and the map is linear. Objects that are not a tensor or list of tensors, or whose shapes do not match the operator's input space, or whose tensors disagree in the number of columns, raise ValueError; an operator whose implementation returns wrong output shapes raises ValueError instead of returning them.",
 ["inputs"],"all operators, tensor-product shapes (scalars, vectors, higher order), column counts including one, tensors or lists, and all malformed inputs",
 "Tests try a handful of valid and three invalid inputs on one shape; ambiguous and degenerate shapes (scalar parameters, one column, one-element spaces, one parameter) are not enumerated.",
 [TB],[("input check and preprocessing",TB+":_check_input_and_preprocess"),("output check and postprocessing",TB+":_check_output_and_postprocess")],observe=["@"])
p("C09","SciPy export represents the same matrix in every SciPy product",
 "The exported SciPy operator has the same shape and its matvec, matmat, rmatvec and rmatmat on any NumPy vector, single-column or multi-column array (any real dtype, any memory layout) equal the original operator and its adjoint applied to the same numbers, without changing the array. Results of floating inputs keep the input's dtype, and inputs of integer or boolean dtype are not truncated.",
 ["inputs","configurations"],"all operators, parameter dtypes (incl. half precision), array dtypes, layouts and shapes",
 "Tests only pass float64/float32 random arrays in C order.",
 [TB],[("export and dtype/device conversion",TB+":to_scipy,_scipy_compatible")],observe=["to_scipy()"])
p("C10","Using an operator changes nothing but its result",
 "Computing products, adjoints, exports, properties, gradients or losses leaves the caller's vectors, lists, arrays, data, parameters, gradient fields, requires-grad flags, buffers (unless the model's own forward pass updates them), train/eval mode, installed hooks and global random number state exactly as they were. Later calls leave results handed out earlier as they are, and later changes to a returned result do not affect later products. The same holds when a product fails with an exception raised by the data source, the model or the loss.",
 ["histories","fault_sequences","inputs"],"all operators, call histories and failure points",
 "Tests check returned values only; nothing looks at the inputs, hooks or model after a call or a failed call.",
 [TB,"curvlinops/kfac.py","curvlinops/inverse.py","curvlinops/experimental/activation_hessian.py"],[("hook removal","curvlinops/kfac.py:_compute_kfac"),("context manager","curvlinops/experimental/activation_hessian.py:store_activation"),("out-of-place products","curvlinops/inverse.py:KFACInverseLinearOperator._matmat")],
 state=[("hooks","forward hooks on the user's modules","curvlinops/kfac.py")],observe=["caller-owned objects before/after each call"])
p("C11","Determinism check accepts deterministic set-ups and rejects all others",
 "With the check enabled, construction raises RuntimeError whenever two passes over the data give a different data-set loss or gradient or two products differ, and, for operators that require a fixed data order, whenever any mini-batch's inputs, targets, predictions, losses or gradients differ. It never rejects a deterministic model and data source, and for operators without a fixed-order requirement it does not reject a source that presents the same data in a different order or split in every pass.",
 ["schedules","configurations","histories"],"all sequences of mini-batches a data source may present in successive passes, all operators",
 "The tests contain one batch-norm, one dropout and one permuting case; which of the compared totals matters, and the acceptance side under re-ordering, is untested.",
 [TB],[("two concurrent passes, accumulated totals, per-batch comparison, product comparison",TB+":_check_deterministic")],observe=["construction outcome"])
p("C12","KFAC represents the documented Kronecker-factored approximation",
 "For Linear and Conv2d layers, every Fisher type, expand or reduce setting, loss, reduction, weight-sharing, convolution hyper-parameters and batch split, the KFAC operator is block-diagonal over layers with each block the Kronecker product of the documented gradient covariance and input covariance (gradient covariance alone for a separate bias, input extended by one for joint treatment), with the documented data-set normalisation. With a fixed seed sampled factors are reproducible and each is explained by labels drawn from the model's likelihood.",
 ["inputs","configurations"],"all supported layer types and hyper-parameters, Fisher types, losses, reductions, parameter subsets and splits",
 "Tests verify special exactness cases on random networks; the definition of the approximation itself (which differs from the Fisher) is not checked on general ones.",
 ["curvlinops/kfac.py","curvlinops/kfac_utils.py"],[("factor accumulation","curvlinops/kfac.py:_hook_accumulate_input_covariance,_accumulate_gradient_covariance"),("loss handling","curvlinops/kfac.py:_compute_loss_and_backward"),("patch extraction","curvlinops/kfac_utils.py"),("Kronecker product","curvlinops/kfac.py:_matmat")],
 state=[("input/gradient covariances","Kronecker factors per layer","curvlinops/kfac.py")],observe=["KFACLinearOperator @ X"])
p("C13","KFAC trace, det, logdet and Frobenius norm are those of the represented matrix",
 "For every KFAC operator (any parameter subset, separate or joint weight-bias treatment, any factors), its trace, determinant, log-determinant and Frobenius norm equal those of the dense matrix the operator's products represent. This holds in whatever order and however often they and products are requested.",
 ["inputs","histories","configurations"],"all factors, layer sets, parameter subsets and query orders",
 "Tests check freshly computed factors of a few networks in one query order.",
 ["curvlinops/kfac.py"],[("Kronecker identities and caching","curvlinops/kfac.py:trace,det,logdet,frobenius_norm")],
 state=[("cached properties","values computed at most once per factor set","curvlinops/kfac.py:_reset_matrix_properties")],observe=["trace/det/logdet/frobenius_norm"])
p("C14","KFAC factors are computed once, completely, and survive failures cleanly",
 "Kronecker factors are computed in one complete pass over the data at the first use (product, property or inverse product) and reused afterwards: later results do not change, and no further data pass happens, whatever else is called in between, including the user running the model. If that first pass fails part-way (data source, model or loss raises), the next use computes complete factors from scratch, as if the failed attempt had not happened.",
 ["histories","fault_sequences","crash_points"],"all call histories over the operator and its inverse with failures at every batch",
 "No test injects failures or interleaves other uses of the model.",
 ["curvlinops/kfac.py","curvlinops/inverse.py"],[("lazy computation guard and hook clean-up","curvlinops/kfac.py:_matmat,_compute_kfac")],
 state=[("factors","absent or complete","curvlinops/kfac.py")],observe=["@ results", "number of data passes", "hooks on the model"])
p("C15","KFAC state dictionaries restore an equivalent, independent operator",
 "Loading a state dictionary into a new or existing KFAC operator over the same architecture makes all its products, properties and model parameters equal to the source's at save time, whether or not factors were computed, and also when the operator had factors of its own. A dictionary for another loss, reduction or set of layers is rejected with ValueError and leaves the target unchanged, and afterwards neither operator's computations change the other's results.",
 ["histories","configurations"],"all interleavings of compute, save, load and use over two operators, all Fisher types, parameter subsets and loss settings",
 "Tests do one save/load round trip with everything computed and all parameters.",
 ["curvlinops/kfac.py"],[("serialisation","curvlinops/kfac.py:state_dict,load_state_dict,from_state_dict")],
 state=[("saved state","dictionary with factors, properties and hyper-parameters","curvlinops/kfac.py")],observe=["@","trace/det/logdet/frobenius_norm","model parameters"])
p("C16","KFAC inverse is the inverse of the damped KFAC matrix for every damping mode",
 "The inverse operator applied to the damped KFAC matrix is the identity, where the damped matrix adds the given damping(s) to the Kronecker factors (one value, or a pair for input and gradient factors), the pi-scaled square roots of the damping clipped from below for heuristic damping, or damping times identity to the Kronecker product for exact damping. This holds for all layer types and parameter subsets, separate or joint biases, with or without caching, and when a factorization only succeeds in double precision and the retry is enabled.",
 ["inputs","configurations"],"all factors, damping modes and values, parameter subsets, formats and cache settings",
 "Tests compare against the same formulas on a few random networks; the clipping, fallback, pair and retry branches are hit rarely or never.",
 ["curvlinops/inverse.py"],[("damping","curvlinops/inverse.py:_compute_damping"),("factor inversion","curvlinops/inverse.py:_compute_inverse_factors"),("application","curvlinops/inverse.py:_matmat")],
 observe=["KFACInverseLinearOperator @ X"])
p("C17","KFAC inverse gives history-independent results and restores from its state",
 "Repeated and interleaved products with a KFAC inverse, with caching on or off and after any other calls on it or on the underlying operator, give the same result for the same input, and the input is not modified. Saving and restoring its state dictionary, with or without cached inverses, yields an inverse with the same products and settings.",
 ["histories"],"all histories of products, property queries, saves and loads over an operator and its inverse",
 "A past defect (damping added repeatedly to cached eigenvalues) shows that single products do not settle it; tests do one or two calls.",
 ["curvlinops/inverse.py"],[("inverse cache","curvlinops/inverse.py:_compute_or_get_cached_inverse"),("serialisation","curvlinops/inverse.py:state_dict,load_state_dict")],
 state=[("inverse cache","per-layer inverses","curvlinops/inverse.py")],observe=["@","state_dict()"])
p("C18","Sub-matrix operators equal the indexed matrix for every index history",
 "After any sequence of (re)definitions, a sub-matrix operator has the shape and the products (vector, single column, matrix, adjoint and transposed) of the underlying matrix restricted to the given rows and columns in the given order, for any real or integer operator and input dtype. Duplicate, non-integer or out-of-range indices raise ValueError and leave the operator as it was.",
 ["inputs","histories"],"all index lists over small matrices, all sequences of redefinitions, valid or not",
 "Tests use two index sets with distinct float inputs and never redefine after failure.",
 ["curvlinops/submatrix.py"],[("validation and shape update","curvlinops/submatrix.py:set_submatrix"),("embedding and selection","curvlinops/submatrix.py:_matvec,_matmat,_adjoint")],
 state=[("indices","current row and column indices","curvlinops/submatrix.py")],observe=["@","rmatvec","adjoint()"])
p("C19","Iterative inverses solve the system to the configured accuracy",
 "The CG (positive definite) and LSMR inverse operators applied to A x return x up to the accuracy their (default or user-set) hyper-parameters promise, column by column for matrices, and re-setting hyper-parameters takes effect for later products only. The Neumann inverse returns exactly the scaled truncated series with the configured number of terms and scale, and raises ValueError as soon as NaNs appear if the check is enabled.",
 ["inputs","histories","configurations"],"all small (symmetric positive definite) systems, hyper-parameter histories, vectors and matrices",
 "Tests use fixed hyper-parameters at loose tolerances and never the LSMR defaults.",
 ["curvlinops/inverse.py"],[("solver calls and hyper-parameters","curvlinops/inverse.py:CGInverseLinearOperator,LSMRInverseLinearOperator"),("truncated series","curvlinops/inverse.py:NeumannInverseLinearOperator._matvec")],observe=["@","matvec_with_info"])
p("C20","Hutchinson estimators evaluate their definition at an admissible random vector",
 "Each sample of the trace, diagonal and squared-Frobenius estimators equals v.(Av), v*(Av) and (Av).(Av) for one freshly drawn vector v with independent +1/-1 or standard normal entries, so that the average over all sign vectors is exactly the trace, diagonal or squared Frobenius norm, for every square (norm: any) matrix. Every sign vector is equally likely and successive samples are independent.",
 ["inputs","histories"],"all matrices, all sign vectors, both distributions",
 "Tests check a relative error decrease on one random matrix.",
 ["curvlinops/trace/hutchinson.py","curvlinops/diagonal/hutchinson.py","curvlinops/norm/hutchinson.py","curvlinops/sampling.py"],[("sampling","curvlinops/sampling.py"),("estimate","sample()")],observe=["sample()", "A @ v"])
p("C21","Hutch++ is unbiased for every sketch and exact on the sketched subspace",
 "For every square matrix and sketch drawn, the Hutch++ estimate is the trace on the cached sketch subspace plus the Hutchinson estimate on its orthogonal complement; its average over all sign vectors is exactly the trace, and it is exact when the sketch captures the whole range of a symmetric matrix or the whole space. The subspace is computed once per estimator and does not change with later samples.",
 ["inputs","histories"],"all matrices, sketch dimensions and sign vectors",
 "Tests check an average on one random matrix.",
 ["curvlinops/trace/meyer2020hutch.py"],[("subspace cache","curvlinops/trace/meyer2020hutch.py:maybe_compute_and_cache_subspace"),("projection","curvlinops/trace/meyer2020hutch.py:sample")],
 state=[("Q, trace on Q","cached subspace","curvlinops/trace/meyer2020hutch.py")],observe=["sample()","A @ v"])
p("C22","Spectral density estimates follow the Lanczos quadrature and its caching rules",
 "Lanczos nodes and squared first components form the Gauss quadrature of the operator for the drawn start vector (matching all moments up to twice the number of steps minus one); the (log-)density is the documented sum of Gaussian bumps at the mapped nodes, averaged over the requested number of repeats, on the documented grid between the padded spectral boundaries, where given boundaries are used as given and missing ones are estimated. Cached variants run only the missing iterations, return the same as the uncached function for the same start vectors, and are independent of the order in which hyper-parameters are requested.",
 ["inputs","histories","configurations"],"all symmetric operators, numbers of steps/repeats, hyper-parameters, partial boundaries and request histories",
 "Tests compare to a dense density at a coarse tolerance in one request order.",
 ["curvlinops/papyan2020traces/spectrum.py"],[("Lanczos iteration","fast_lanczos"),("density from iteration","lanczos_approximate_spectrum_from_iter, lanczos_approximate_log_spectrum_from_iter"),("cache","_get_lanczos_iters"),("boundaries","approximate_boundaries, approximate_boundaries_abs")],
 state=[("lanczos iterations","cached eigen-decompositions","curvlinops/papyan2020traces/spectrum.py")],observe=["return values","A @ v calls"])
p("C23","Activation Hessian equals the loss Hessian with respect to the chosen feature",
 "For every network, loss and choice of intermediate feature (layer, input or output side, tensor position), the activation Hessian operator is the exact matrix of second derivatives of the single batch's loss with respect to that flattened feature, with shape batch size times feature dimension squared. More than one batch, unknown layers, unknown sides or out-of-range output positions are rejected.",
 ["inputs","configurations"],"all networks, layers, sides, batch sizes, losses and vectors",
 "Tests use two networks and three activations.",
 ["curvlinops/experimental/activation_hessian.py"],[("feature capture","store_activation"),("double backward","_matmat_batch")],observe=["@"])
p("C24","Outer-product operators and projectors represent sum_i c_i a_i a_i^T",
 "For every coefficient vector and matrix of columns, the outer-product operator's products with vectors, single columns and matrices, from either side, equal those of the sum of c_i a_i a_i^T. The projector onto an orthonormal basis is idempotent, symmetric, fixes the basis and annihilates its complement.",
 ["inputs"],"all small coefficient and column matrices, vectors and matrices",
 "There is no test of this module.",
 ["curvlinops/outer.py"],[("einsum contraction","curvlinops/outer.py:_matvec")],observe=["@","rmatvec"])
p("C25","Reference implementations in the examples package agree with the definitions",
 "The dense functorch reference functions (Hessian, GGN, empirical Fisher, Jacobian, gradient and loss) return the matrices, in the given parameter order and data order, that the definitions of the corresponding operators prescribe. They do so for every supported loss, reduction, batch split, parameter subset and dict-like input, so that comparing an operator with them is meaningful.",
 ["inputs","configurations"],"all small networks, losses, parameter orders/subsets, splits, dict inputs",
 "These functions are the oracle of the tests; nothing checks them independently.",
 ["curvlinops/examples/functorch.py","curvlinops/examples/utils.py"],[("dense references","curvlinops/examples/functorch.py")],observe=["return values"])
p("C26","Unsupported configurations are rejected at construction, supported ones accepted",
 "Unsupported losses, Fisher types, KFAC settings, sample counts, parameters in unsupported layers, block sizes that are non-positive, do not add up or are not supported, dict-like data without batch-size function, inconsistent numbers of loss terms, damping combinations, non-square or too-small matrices for estimators, and unknown distributions raise the documented exception before any result is returned. Every documented combination is accepted.",
 ["configurations"],"all combinations of constructor arguments over their documented and undocumented values",
 "Tests probe single bad values; combinations and the acceptance side are not enumerated.",
 ["curvlinops/kfac.py","curvlinops/fisher.py","curvlinops/gradient_moments.py","curvlinops/inverse.py",TB,"curvlinops/trace/hutchinson.py"],[("argument checks","constructors")],observe=["constructor outcome"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
