"""Source of properties.jsonl and MANIFEST.json (run ``python3 tools/props.py``)."""

import json
import os

PROPS = []
NA = []

TESTS = ("the test suite compares a handful of fixed small networks, seeds and data sets "
         "numerically; ")


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={"files": ["curvlinops/" + f for f in files],
                 "mechanism": [{"name": n, "where": w} for n, w in mech]}))
    if na:
        NA.append({"property": pid, "reason": na})
    else:
        PROPS[-1]["_t"] = (technique, note)


A = "abstract interpretation of the syntax trees: "
BASE, LIB = "_torch_base.py", "curvlinops/"
TRUST = (" Sound for the analysed uses up to the transfer functions of torch/NumPy/SciPy/einops in"
         " sa/ and the abstract user objects of sa/user.py; paths with constructs outside the"
         " domain are reported as undecided in the evidence, never as violations.")

prop("C01", "Hessian products equal the documented matrix",
     "For every model, loss, reduction and data set, multiplying the Hessian operator onto a "
     "matrix or vector gives the second derivative of the total loss over all batches, with the "
     "documented normalization, in every parameter block and column. With a block structure, "
     "only the documented diagonal blocks contribute.",
     ["inputs", "configurations"],
     "all models, losses, reductions, batch splits, parameter subsets and orders, dtypes, devices, "
     "operand formats and block partitions",
     TESTS + "they cannot quantify over batch sizes, data sizes and parameter values, and use few "
     "block partitions", ["hessian.py", BASE],
     [("batch-wise Hessian-vector products", "hessian.py: _matmat_batch"),
      ("accumulation over data", "_torch_base.py: CurvatureLinearOperator._matmat")],
     A + "provenance polynomials of every result block",
     "Every result block of every abstract path is a polynomial in symbolic units (batch sizes, "
     "derivatives, operand columns) and must be identical to the documented one." + TRUST)
prop("C02", "GGN products equal the documented matrix",
     "For every model, loss, reduction and data set, multiplying the generalized Gauss-Newton "
     "operator gives the sum over all data of transposed Jacobian times loss Hessian times "
     "Jacobian times the operand, with the documented normalization, in every parameter block and "
     "column.",
     ["inputs", "configurations"],
     "all models, losses, reductions, batch splits, parameter subsets, dtypes, devices, formats",
     TESTS + "they cannot quantify over batch sizes, data sizes and parameter values",
     ["ggn.py", BASE], [("batch-wise GGN-vector products", "ggn.py: _matmat_batch")],
     A + "provenance polynomials of every result block",
     "Result blocks must be identical, as polynomials in symbolic units, to the documented sum."
     + TRUST)
prop("C03", "Empirical Fisher products equal the documented matrix",
     "For every model, supported loss, reduction and data set, multiplying the empirical Fisher "
     "operator gives the documented scaled sum, over all per-example gradients (evaluated with "
     "the true labels), of the gradient's outer product with itself times the operand.",
     ["inputs", "configurations"],
     "all models, the three supported losses, both reductions, outputs with and without additional "
     "dimensions, batch splits, operand formats",
     TESTS + "the scaling depends on sizes which coincide in small tests",
     ["gradient_moments.py", BASE],
     [("batch-wise per-example gradient products", "gradient_moments.py: _matmat_batch")],
     A + "provenance polynomials of every result block",
     "Result blocks must be identical, as polynomials in symbolic sizes and gradients, to the "
     "documented sum." + TRUST)
prop("C04", "Monte-Carlo Fisher is unbiased for the documented matrix",
     "For every model, supported loss, reduction, data set and number of samples, the expectation "
     "over the drawn labels of a product with the Monte-Carlo Fisher operator equals the product "
     "with the documented Fisher (generalized Gauss-Newton) matrix. Each sample is drawn from the "
     "model's own predictive distribution of that example.",
     ["inputs", "configurations"],
     "all models, supported losses, reductions, sample counts, batch splits, operand formats",
     "tests compare averages of many samples under large tolerances on a few networks, which hides "
     "scale errors and wrong distributions in unusual configurations",
     ["fisher.py", BASE],
     [("drawing would-be gradients", "fisher.py: sample_grad_output"),
      ("batch-wise products", "fisher.py: _matmat_batch")],
     A + "provenance polynomials, with a symbolic expectation over the draws",
     "The symbolic expectation of each result block must be identical to the documented "
     "polynomial; distributions of draws are tracked as units." + TRUST)
prop("C05", "Jacobian products follow the data order, blocks per batch",
     "For every model and data set, the Jacobian operator's product stacks, in the order of the "
     "data, one block of rows per batch, each being the Jacobian of that batch's outputs times the "
     "operand, with the output's shape. The transposed operator applies the transpose of exactly "
     "this matrix.",
     ["inputs", "configurations"],
     "all models, batch splits (of unequal sizes), output shapes, parameter subsets and orders, "
     "operand formats",
     TESTS + "with few batches of nearly equal size, a wrong assignment of rows goes unnoticed",
     ["jacobian.py", BASE],
     [("row blocks per batch", "jacobian.py: JacobianLinearOperator._matmat"),
      ("slices of the operand per batch", "jacobian.py: TransposedJacobianLinearOperator._matmat")],
     A + "provenance polynomials of every result block with symbolic row offsets",
     "Row offsets are symbolic sums of batch sizes; each block must be identical to the documented "
     "one." + TRUST)
prop("C08", "Kronecker factors equal the documented statistics",
     "For every supported network, loss, curvature type, weight-sharing approximation and data "
     "set, the Kronecker factors hold the documented second moments: of the layer inputs, and of "
     "the backpropagated vectors whose sum over outer products is the loss Hessian with respect to "
     "the model's outputs (or its unbiased estimate, or the true gradients). The scaling over "
     "reductions, data-set size, shared positions and samples is the documented one.",
     ["inputs", "configurations"],
     "all networks of supported layers, losses, curvature types, approximations, reductions, "
     "batch splits, sizes of shared dimensions, sample counts",
     TESTS + "many scale factors coincide for the sizes in the tests, and not all combinations of "
     "loss, type, approximation and extra dimensions are run",
     ["kfac.py", "kfac_utils.py"],
     [("input statistics", "kfac.py: _hook_accumulate_input_covariance"),
      ("gradient statistics", "kfac.py: _accumulate_gradient_covariance"),
      ("backpropagated vectors", "kfac.py: draw_label, kfac_utils.py: loss_hessian_matrix_sqrt")],
     A + "provenance polynomials of hook-accumulated factors",
     "Each factor's blocks must be identical to the documented polynomial (in expectation for "
     "sampled labels); square roots of the loss Hessian are checked by an algebraic rule." + TRUST)
prop("C09", "Kronecker-factored products equal the documented block matrix",
     "Multiplying the Kronecker-factored operator onto a matrix or vector gives, for every "
     "supported layer, the Kronecker product of its two factors applied to that layer's "
     "parameters, in the order the parameters were given, with no coupling between layers. Weight "
     "and bias are treated jointly or separately as configured.",
     ["inputs", "configurations"],
     "all networks, parameter subsets and orders, separate or joint treatment, present or absent "
     "factors, operand formats",
     TESTS + "permutations of parameters and partially trainable layers are sampled only",
     ["kfac.py"], [("products with the factors", "kfac.py: _matmat")],
     A + "provenance polynomials with role-typed Kronecker indices",
     "Blocks must be identical to the documented Kronecker products for symbolic factors." + TRUST)
prop("C10", "Kronecker-factored trace, determinant and norm are exact and stay exact",
     "Trace, determinant, log-determinant and Frobenius norm of the Kronecker-factored operator "
     "equal the documented functions of its factors, for every network and parameter subset. "
     "Repeated queries, and queries after a failed one, give the same values.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all networks, parameter subsets, separate or joint treatment, orders of queries, failing "
     "factorizations",
     TESTS + "each query is made once, on healthy factors",
     ["kfac.py"], [("cached scalar functions", "kfac.py: trace, det, logdet, frobenius_norm")],
     A + "provenance polynomials, fault injection into abstract paths",
     "Returned scalars must be identical to the documented polynomial on every abstract path, also "
     "after an injected failure." + TRUST)
prop("C11", "Inverse Kronecker-factored products equal the documented damped inverse",
     "Multiplying the inverse of the Kronecker-factored operator gives the Kronecker product of "
     "the damped factors' inverses (or of the exactly damped Kronecker product), with plain or "
     "heuristic damping as configured, for every layer and parameter order. A failing "
     "factorization is retried in higher precision only as configured, and otherwise reported.",
     ["inputs", "configurations", "fault_sequences"],
     "all networks, parameter subsets and orders, damping values and schemes, caching, retries",
     TESTS + "damping schemes and retry paths are exercised on a few well-conditioned cases",
     ["inverse.py"], [("damped inverse factors", "inverse.py: _compute_inverse_factors"),
                      ("products", "inverse.py: KFACInverseLinearOperator")],
     A + "provenance polynomials with symbolic inverses and eigendecompositions",
     "Blocks must be identical to the documented inverses for symbolic factors and damping."
     + TRUST)

# ------------------------------------------------------------------------------ placeholders
exec(open(os.path.join(os.path.dirname(__file__), "props_more.py")).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    PROPS.sort(key=lambda p: p["id"])
    checks = []
    with open(f"{root}/properties.jsonl", "w") as f:
        for p in PROPS:
            t = p.pop("_t", None)
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
            if t:
                cmd = f"python3 -m sa.run {p['id']} --tier"
                checks.append({"property": p["id"], "quick_cmd": f"{cmd} quick",
                               "thorough_cmd": f"{cmd} thorough", "technique": t[0],
                               "level": "other", "level_note": t[1]})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks,
         "not_applicable": NA,
         "notes": "All checks parse /repo's current source on every run (nothing is imported or "
         "executed); see DESIGN.md."}
    with open(f"{root}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
