P = prop

P("C06", "Operand formats and columns agree",
  "Every curvature and Jacobian operator gives the same numbers for a vector, for the columns of a "
  "matrix, for a matrix passed as one tensor or as a list of tensors in parameter format, and for "
  "the transposed multiplication where supported; the result comes back in the operand's format. "
  "Each result column depends on its own operand column only.",
  ["inputs", "configurations"],
  "all operators, operand formats, numbers of columns, parameter shapes",
  TESTS + "shape-one dimensions and one-column matrices are special cases that each operator and "
  "format combination must get right", [BASE, "hessian.py", "ggn.py", "jacobian.py", "kfac.py"],
  [("format handling", "_torch_base.py: PyTorchLinearOperator")],
  A + "provenance polynomials of result blocks per operand format",
  "Results in all formats must be the same polynomials and formats." + TRUST)
P("C07", "Adjoint operators are the transpose of the operator",
  "For every operator that supports it, the adjoint's product equals the product with the "
  "transposed documented matrix, adjoint of the adjoint gives the operator back, and symmetric "
  "operators equal their adjoint.",
  ["inputs", "configurations"],
  "all operators, operand formats, parameter subsets",
  TESTS + "adjoint shapes and products are compared on a few square or fixed-size examples",
  [BASE, "jacobian.py", "kfac.py", "inverse.py"],
  [("adjoint", "_torch_base.py: PyTorchLinearOperator.adjoint")],
  A + "provenance polynomials of the adjoint's result blocks",
  "Blocks of the adjoint's result must be identical to those of the transposed matrix." + TRUST)
P("C12", "Iterative inverse operators solve the documented equation",
  "Each iterative inverse operator hands exactly the wrapped operator, the right-hand side (column "
  "by column), and the user's solver settings to the solver and returns the solver's solution; "
  "the truncated Neumann series returns exactly the documented partial sum with the chosen "
  "number of terms and scale.",
  ["inputs", "configurations"],
  "all wrapped operators, solver settings, operand formats, numbers of terms",
  "tests use well-conditioned systems on which wrong tolerances, limits or initial values give the "
  "same solution", ["inverse.py"],
  [("iterative solvers", "inverse.py: CGInverseLinearOperator, LSMRInverseLinearOperator"),
   ("series", "inverse.py: NeumannInverseLinearOperator")],
  A + "provenance polynomials and solver-call events",
  "Solver calls are events whose arguments must be the documented ones; the series is a polynomial "
  "in the operator's application." + TRUST)
P("C13", "Sub-matrix operator equals the selected rows and columns",
  "For all valid row and column selections, in any order and also after changing the selection, "
  "the sub-matrix operator's products and adjoint products equal those of the matrix sliced by "
  "the selection, without truncating or modifying the operand. Selections with repeated or "
  "out-of-range indices are rejected with a value error.",
  ["inputs", "configurations"],
  "all wrapped operators, selections, operand data types and formats",
  "tests compare a few random selections of float operands", ["submatrix.py"],
  [("selection", "submatrix.py: SubmatrixLinearOperator._matvec")],
  A + "provenance polynomials with symbolic selections",
  "Result must be identical to the polynomial of the sliced matrix." + TRUST)
P("C14", "Outer product and projector operators equal their documented matrix",
  "The outer product operator multiplies with the documented sum of scaled outer products, and the "
  "projector with the projection onto the span of the given orthonormal vectors, for "
  "vectors and matrices and in the adjoint.",
  ["inputs", "configurations"],
  "all coefficient and vector sets, operand formats and data types",
  "tests compare a few random matrices", ["outer.py"],
  [("products", "outer.py: OuterProductLinearOperator, Projector")],
  A + "provenance polynomials of the result",
  "Result must be identical to the documented polynomial." + TRUST)
P("C15", "SciPy export multiplies with the same matrix",
  "An operator exported to SciPy has the same shape, the operator's floating data type, and its "
  "products and adjoint products with arrays equal the operator's own, for every input data type "
  "and any device of the parameters; results are arrays of the documented type and do not lose "
  "precision or fractional parts.",
  ["inputs", "configurations"],
  "all operators, devices, parameter data types, array data types and shapes",
  "tests run on the CPU with float arrays", [BASE],
  [("export", "_torch_base.py: PyTorchLinearOperator.to_scipy")],
  A + "provenance polynomials with dtype and device tracking",
  "Blocks must be identical to the operator's; truncating casts and device transfers are events."
  + TRUST)
P("C16", "Gradient and loss equal those of the full data set",
  "The total gradient and loss an operator reports equal the loss over all batches, with the "
  "documented normalization, and its gradient in every parameter block, for every data set and "
  "reduction.",
  ["inputs", "configurations"],
  "all operators with a loss, batch splits, reductions, parameter subsets",
  TESTS + "normalization depends on sizes which coincide in small tests", [BASE],
  [("gradient and loss", "_torch_base.py: gradient_and_loss")],
  A + "provenance polynomials of loss and gradient",
  "Polynomials must be identical to the documented ones." + TRUST)
P("C17", "Randomized trace and diagonal estimators are unbiased as documented",
  "For every operator, number of queries and supported distribution, each estimator's expectation "
  "over its random vectors is the documented quantity, and the estimate only uses the requested "
  "number of products.",
  ["inputs", "configurations", "histories"],
  "all operators, sample counts, distributions, sketches, and further calls on the same estimator",
  "tests average many samples under tolerances, which hides scale errors and correlated samples",
  ["trace/hutchinson.py", "trace/meyer2020hutch.py",
   "diagonal/hutchinson.py", "norm/hutchinson.py", "sampling.py"],
  [("estimators", "trace/, diagonal/, norm/"), ("random vectors", "sampling.py: random_vector")],
  A + "provenance polynomials with symbolic expectation over draws",
  "The symbolic expectation must equal the documented quantity; algebraic deflation identities are "
  "rewrites on units." + TRUST)
P("C18", "Spectral density approximations use the documented recurrences",
  "The Lanczos-based spectral density and the spectral-range estimates are computed, for every "
  "symmetric operator, from the operator's tridiagonalization with the documented starting vector, "
  "shift, scaling, weights and evaluation grid, and cached quantities equal recomputed ones.",
  ["inputs", "configurations", "histories"],
  "all operators, numbers of steps, repeats, grid sizes, boundaries and repeated calls",
  "tests compare smooth curves under large tolerances", ["papyan2020traces/spectrum.py"],
  [("Lanczos", "papyan2020traces/spectrum.py: fast_lanczos, lanczos_approximate_spectrum")],
  A + "provenance polynomials and events for decompositions",
  "Recurrence vectors and weights must be identical to the documented polynomials." + TRUST)
P("C19", "Activation Hessian products equal the documented matrix",
  "For every network, layer, and choice of layer input or output, multiplying the activation "
  "Hessian operator gives the second derivative of the documented loss with respect to that "
  "intermediate activation, for every column and operand format.",
  ["inputs", "configurations"],
  "all networks, layers, input/output choices, activation shapes, operand formats",
  "tests use two small networks", ["experimental/activation_hessian.py"],
  [("storing activations", "experimental/activation_hessian.py: store_activation"),
   ("products", "experimental/activation_hessian.py: _matmat")],
  A + "provenance polynomials with activations as variables",
  "Blocks must be identical to the second derivative of the loss in the activation." + TRUST)
OPF = [BASE, "hessian.py", "ggn.py", "gradient_moments.py", "fisher.py", "jacobian.py", "kfac.py"]
P("C20", "Results do not depend on the order of batches between passes",
  "If the data set yields the same batches in another order on every pass (as a shuffling loader "
  "does), every curvature product, gradient, loss and Kronecker factor is the documented one: each "
  "batch contributes exactly once, with its own labels. The determinism check does not reject such "
  "data for operators that sum over the data.",
  ["inputs", "configurations", "histories"],
  "all orders of the batches in all passes, models, losses, reductions, operators",
  "tests iterate over lists, whose order never changes", OPF,
  [("loop over the data", "_torch_base.py: _loop_over_data"),
   ("Kronecker factors", "kfac.py: _compute_kfac")],
  A + "provenance polynomials under data passes with changing orders",
  "Results of each abstract path must be identical to the documented polynomial although every "
  "pass yields another order; three families of orders are analysed." + TRUST)
P("C21", "Data-set size enters the scale exactly and is not recomputed if given",
  "With mean reduction every operator, gradient, loss and Kronecker factor is normalized by the "
  "given number of data points, or by the counted number if none is given, also for dict-like "
  "inputs and user-defined batch sizes. If the number is given, constructing an operator does not "
  "traverse the data for counting.",
  ["inputs", "configurations"],
  "all numbers of data points (not necessarily the data's own), batch splits, input types",
  TESTS + "the given number always equals the counted one", OPF,
  [("counting", "_torch_base.py: PyTorchLinearOperator.__init__")],
  A + "provenance polynomials and data-pass events",
  "Scales are symbolic; traversals are counted on every abstract path." + TRUST)
P("C22", "Operands, parameters, data and factors of the user are never modified",
  "No operation of any operator or estimator writes to memory the user owns (operands, parameters, "
  "their gradient fields, data, lists passed in, activations), and no result shares memory with "
  "it, so that modifying a result does not change the user's data.",
  ["inputs", "configurations", "histories"],
  "all operators, estimators, inverse operators, exports, operand formats, and failing calls",
  "tests compare numbers of one call and never look at the operand afterwards",
  OPF + ["inverse.py", "submatrix.py", "outer.py", "trace/hutchinson.py"],
  [("format handling", "_torch_base.py: PyTorchLinearOperator"),
   ("in-place accumulation", "kfac.py, inverse.py")],
  A + "ownership and alias analysis of abstract storages (escape and write effects)",
  "Every in-place effect on every abstract path of all analysed uses must target storage the "
  "library allocated, and returned storages must be disjoint from the user's." + TRUST)
P("C23", "The model, its parameters, modes and gradients are left as they were",
  "After constructing or using any operator or estimator, successfully or not, the model's "
  "parameter values, devices, data types, requires-grad flags, gradient fields, training mode, "
  "buffers and attributes are those from before. The training mode in which the user put the model "
  "is the one it is evaluated in.",
  ["inputs", "configurations", "fault_sequences"],
  "all operators and uses, failures at every use of the model, loss or data",
  "tests do not inspect the model afterwards and never make a call fail half-way", OPF,
  [("temporary moves between devices", "_torch_base.py: to_device, gradient_and_loss"),
   ("gradients", "_torch_base.py, kfac.py")],
  A + "effect analysis of the user's model with fault injection",
  "The abstract model's state at the end of every path (normal or raising) must equal the state at "
  "its beginning." + TRUST)
P("C24", "Forward hooks never outlive the operation that registered them",
  "After every operation, successful or failing at any point, all hooks registered on the user's "
  "model or its layers are removed again, and no hook replaced a layer's input or output by "
  "something else.",
  ["inputs", "configurations", "fault_sequences"],
  "all networks, layers, failures of the model, loss, data or backward pass at each position",
  "tests only use successful runs", ["kfac.py", "experimental/activation_hessian.py"],
  [("hooks of the Kronecker factors", "kfac.py: _compute_kfac"),
   ("hooks storing activations", "experimental/activation_hessian.py: store_activation")],
  A + "typestate analysis of hook handles with fault injection",
  "On every abstract path, including those of injected failures, each registered handle must be "
  "removed." + TRUST)
P("C25", "A failed operation leaves no trace: retrying gives the documented result",
  "If an operation fails because the model, loss, data, wrapped operator or a factorization fails "
  "once, the failure reaches the caller, and repeating the operation, or any other operation on the "
  "same object, gives the same result as on a fresh object.",
  ["fault_sequences", "histories", "configurations"],
  "all operators and estimators, failures at each use of user code or factorizations, all "
  "following operations",
  "tests never inject failures; partially accumulated caches only show after one",
  ["kfac.py", "inverse.py", BASE, "trace/meyer2020hutch.py"],
  [("cached factors", "kfac.py: _compute_kfac"), ("cached scalars", "kfac.py: trace, det, logdet"),
   ("cached subspace", "trace/meyer2020hutch.py")],
  A + "fault injection into abstract paths followed by provenance comparison",
  "One failure is injected at every event of user code; the following operation's result must be "
  "identical to the documented polynomial." + TRUST)
P("C26", "Random draws come only from the operator's own seeded generator",
  "Operators that sample (Monte-Carlo Fisher, sampled Kronecker factors) draw only from their own "
  "generator, re-seeded with the given seed for every product, so that equal products use equal "
  "samples and the seed selects them; the global generators are neither used nor re-seeded outside "
  "the documented determinism check. Distinct examples and samples use distinct draws.",
  ["inputs", "configurations", "histories"],
  "all operators, seeds, devices, sequences of operations in between",
  "a test compares two consecutive products at most; draws shared between batches or the global "
  "generator keep the expectation nearly right", ["fisher.py", "kfac.py"],
  [("generator", "fisher.py: _matmat, sample_grad_output"),
   ("sampling labels", "kfac.py: draw_label")],
  A + "effect analysis of random draws as named units per generator state",
  "Every draw event must belong to a generator created by the operator and seeded with the user's "
  "seed; equal products must be identical polynomials." + TRUST)
P("C27", "Results and cached state are detached from the autograd graph",
  "No result and no state kept between calls requires gradients or keeps the graph of the model's "
  "evaluation, and no operation needs a graph that another one has freed. Operating inside or "
  "outside the user's own gradient computations gives the same results.",
  ["inputs", "configurations", "histories"],
  "all operators, configurations, numbers of products and batches",
  "attached graphs give the right numbers and only cost memory or fail in a later call", OPF,
  [("batch products", "hessian.py, ggn.py, gradient_moments.py, fisher.py, jacobian.py"),
   ("hooks", "kfac.py")],
  A + "graph-dependence analysis of abstract tensors",
  "Each abstract tensor carries the set of graphs it depends on; results and stored attributes "
  "must have none." + TRUST)
P("C28", "Tensors meet on one device and in one data type",
  "With parameters on any device and in any floating-point type, and data on another device, all "
  "operations combine only tensors of one device and type, and results have the parameters' device "
  "and type (or the operand's, for array exports).",
  ["inputs", "configurations"],
  "all operators, devices of parameters, data and operands, floating-point types",
  "the tests run on a machine without accelerator, where all devices coincide, and mostly in "
  "one type", OPF + ["inverse.py"],
  [("moving data", "_torch_base.py: _loop_over_data"), ("allocations", "all modules")],
  A + "device and data type inference for abstract tensors",
  "On every abstract path no operation may mix devices or implicitly change the type, with a "
  "second abstract device that the sandbox does not have." + TRUST)
P("C29", "The determinism check notices every deviation and raises no false alarm",
  "If data, predictions, losses or gradients deviate between two evaluations during construction "
  "with the check enabled, in any batch and at any of the evaluations, construction fails with a "
  "runtime error; deterministic setups always pass. With the check disabled, nothing is evaluated "
  "for checking.",
  ["inputs", "configurations", "fault_sequences"],
  "all operators, batches and positions of a single deviation, losses, devices, input types",
  "tests use a few blatant sources of randomness which deviate everywhere at once", [BASE],
  [("checks of batches, totals and products", "_torch_base.py: _check_deterministic")],
  A + "symbolic single deviation at each evaluation, tracked through all comparisons",
  "For each position of one deviation (a fresh unit) every abstract path must end in a "
  "RuntimeError; without one, none may." + TRUST)
P("C30", "Malformed operands and configurations are rejected with a value error",
  "Operands of wrong type, length, shape or format, invalid options, selections, distributions, "
  "block sizes, layer names and state dicts are rejected with a value error before anything is "
  "computed from them or modified. They are never silently accepted or truncated.",
  ["inputs", "configurations"],
  "all operators, inverse operators and estimators; all sizes of the malformed argument",
  "tests reject a handful of malformed inputs; checks of shapes must catch all of them, also where "
  "sizes coincide", OPF + ["inverse.py", "submatrix.py", "sampling.py",
                           "trace/meyer2020hutch.py"],
  [("operand checks", "_torch_base.py: _check_input_and_preprocess"),
   ("option checks", "constructors")],
  A + "symbolic shapes through the validation code",
  "For symbolic sizes, every abstract path of a malformed use must end in a ValueError." + TRUST)
P("C31", "Unsupported setups are refused instead of giving wrong numbers",
  "Loss functions, labels, layers or mixed parameter devices and types for which an operator is "
  "not defined lead to an error (not-implemented, or runtime error for mixed parameters), for "
  "every subset of parameters and every batch in which they occur.",
  ["inputs", "configurations"],
  "all operators, losses, non-binary labels in any batch, layers, parameter subsets",
  "tests probe one example each; a refused setup that is accepted yields plausible numbers",
  ["gradient_moments.py", "fisher.py", "kfac.py", "kfac_utils.py", BASE],
  [("refusals", "constructors, sample_grad_output, loss_hessian_matrix_sqrt")],
  A + "exception analysis over all abstract paths",
  "Every abstract path of an unsupported use must end in the documented error." + TRUST)
P("C32", "State dictionaries restore the operator exactly",
  "Saving and restoring a Kronecker-factored operator or its inverse, at any time and into a fresh, "
  "used or differently configured operator, gives an operator with the same options, factors, "
  "cached scalars and products, without recomputing factors. A state dict that does not fit "
  "is rejected and leaves the operator unchanged.",
  ["configurations", "histories"],
  "all options, networks, queries before saving, states of the receiving operator",
  "tests save and restore one default configuration", ["kfac.py", "inverse.py"],
  [("state dicts", "kfac.py, inverse.py: state_dict, load_state_dict, from_state_dict")],
  A + "provenance comparison of the states and products before and after",
  "States, products and scalars of both operators must be identical; data passes of the restored "
  "one are counted." + TRUST)
P("C33", "Results do not depend on earlier operations",
  "Whatever was done with an operator before (products in any format, adjoints, exports, gradients, "
  "scalar queries, updates of the model's parameters in between), each product and gradient is the "
  "documented one for the current parameter values, and earlier results stay as they were returned. "
  "Kronecker-factored operators keep using the factors they once computed.",
  ["histories", "inputs", "configurations"],
  "all operators, sequences of operations and parameter updates between them, operand formats",
  "tests construct an operator, make a few products with the same parameters and compare "
  "each at once; stale buffers and caches need a second, different operation to show",
  OPF + ["inverse.py", "experimental/activation_hessian.py"],
  [("products", "_torch_base.py: PyTorchLinearOperator.__matmul__, to_scipy"),
   ("cached factors", "kfac.py: _matmat; inverse.py: _compute_or_get_cached_inverse")],
  A + "provenance comparison and alias analysis over sequences of operations",
  "Each result of a sequence must be identical to the documented polynomial after the whole "
  "sequence, with units per version of the parameters, and own its memory." + TRUST)

P("C34", "Rounding errors stay within the precision of the data type",
  "Every product, scalar and estimate differs from its exactly computed value by an error that is "
  "proportional to the precision of the operator's data type.",
  ["inputs"], "all models, data, operands and data types",
  "tests compare a few well-conditioned examples with loose tolerances",
  OPF + ["inverse.py"],
  [("accumulation over the data", "_torch_base.py: CurvatureLinearOperator"),
   ("factor inversion", "inverse.py: KFACInverseLinearOperator")],
  None, None,
  na="Magnitudes and conditioning are run-time quantities; interval bounds over unbounded inputs through "
     "eigen-decompositions and sums of unknown length are vacuous. Rounding to coarser types is covered by C15 and C28.")
P("C35", "Solvers and estimators reach their accuracy",
  "With the default options, iterative inverses reach their tolerance, and randomized estimates and spectral "
  "densities reach their documented accuracy with the documented number of products.",
  ["inputs"], "all matrices, operands and draws",
  "tests use a few matrices of known spectrum and fixed seeds",
  ["inverse.py", "trace/hutchinson.py", "trace/meyer2020hutch.py", "diagonal/hutchinson.py",
   "norm/hutchinson.py", "papyan2020traces/spectrum.py"],
  [("solvers", "inverse.py: CGInverseLinearOperator, LSMRInverseLinearOperator, NeumannInverseLinearOperator"),
   ("estimators", "trace/, diagonal/, norm/, papyan2020traces/")],
  None, None,
  na="Convergence and variance depend on the spectrum of the wrapped matrix and on the draws, which are not "
     "in the source. Equations, options, recurrences and unbiasedness are covered by C12, C17 and C18.")
P("C36", "Time and memory grow linearly with data and operands",
  "A product takes time proportional to the data and the number of columns and memory that does not grow with the number of batches.",
  ["inputs", "histories"], "all data-set sizes, numbers of columns and parameters",
  "tests do not measure resources",
  OPF,
  [("batch loop", "_torch_base.py: CurvatureLinearOperator"), ],
  None, None,
  na="Run time and memory are decided by the tensor library at run time; only numbers of passes and products "
     "are countable in the source, and those are checked with C17, C18, C21 and C32.")
