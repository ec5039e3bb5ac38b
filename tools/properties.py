"""Writes properties.jsonl and MANIFEST.json. Run after editing a property."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = "matrix/ops/"


def P(pid, title, statement, quant, why, files, mech, over=("inputs",), observe=(), technique=None, note=None, na=None):
    return dict(pid=pid, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                over=list(over), observe=list(observe), technique=technique, note=note, na=na)


TERMS = (
    "abstract interpretation of the syntax tree (dispatch, class, symbolic shape, data type, tensor "
    "terms); terms compared by value numbering and random interpretation"
)
NOTE = (
    "Interprets the current source of /repo abstractly, from every listed operation × classes × "
    "symbolic shapes, both ways at every unknown branch; nothing of /repo is imported or run. Equal "
    "value numbers prove an obligation for all values and sizes; other obligations are discharged if "
    "the terms agree under random interpretation in models of the path (error probability, not proof). "
    "Trusts the model of the numerical library and of plum. Paths or obligations that the domain cannot "
    "decide are counted in the evidence and stay quiet."
)
TABLE = (
    "abstract interpretation of the syntax tree; classes of results and warnings per path against a "
    "specification table ordered by structure"
)
WHY = (
    "The tests sample one random matrix of one fixed size per class; the guarantee is for all values, "
    "sizes, batch shapes and combinations of classes. The paths which depend on values (zero checks, "
    "ranks, symmetry), on unequal sizes and on partially batched components are barely sampled."
)
SIZES = "all combinations of the matrix classes, tensors and numbers, all values, sizes, and batch dimensions"

PROPS = [
    P("C01", "Sums, differences and negatives agree with the dense matrices",
      "Adding, subtracting or negating matrices of any classes, tensors and numbers, through functions or "
      "operators, gives a matrix whose dense version is the element-wise sum, difference or negative of the "
      "dense versions of the operands, with batch dimensions broadcast. Simplifications that depend on values "
      "(such as merging dependent low-rank factors or dropping components that vanish) do not change this.",
      SIZES, WHY, [OPS + "add.py", OPS + "subtract.py", OPS + "negative.py", OPS + "algorithms/"],
      [("methods for every pair of classes", OPS + "add.py"), ("alignment of low-rank columns", OPS + "algorithms/align.py")]),
    P("C02", "Element-wise products and quotients agree with the dense matrices",
      "Multiplying matrices of any classes, tensors and numbers element-wise, or dividing a matrix by a number, tensor "
      "or matrix, gives a matrix whose dense version is the element-wise product or quotient of the dense versions of "
      "the operands, with batch dimensions broadcast.",
      SIZES, WHY, [OPS + "multiply.py", OPS + "divide.py"],
      [("methods for every pair of classes", OPS + "multiply.py")]),
    P("C03", "Matrix products agree with the dense matrices",
      "The matrix product of any two matrices of compatible shapes, with either or both transposed, gives a matrix whose "
      "dense version is the product of the dense versions, with batch dimensions broadcast. This includes the product of "
      "an object with its own transpose, and simplifications that depend on values.",
      SIZES + ", all transposition flags", WHY, [OPS + "matmul.py"],
      [("methods for every pair of classes", OPS + "matmul.py")]),
    P("C04", "Kronecker products, product diagonals and triple products are exact",
      "The Kronecker product of two matrices, the diagonal of a matrix product, and the product of three matrices agree "
      "with the same expression of the dense versions of the operands, for all transposition flags and batch dimensions.",
      SIZES + ", all transposition flags", WHY, [OPS + "kron.py", OPS + "matmul_diag.py", OPS + "matmul.py"],
      [("methods for every pair of classes", OPS + "kron.py"), ("diagonal without the product", OPS + "matmul_diag.py")]),
    P("C05", "Sums, means, traces and diagonals agree with the dense matrix",
      "Summing or averaging a matrix over any axis or all axes, taking its trace, or extracting its diagonal gives what the "
      "same reduction of its dense version gives, for square and non-square matrices and with batch dimensions.",
      "all classes, values, sizes, batch dimensions and axes", WHY,
      [OPS + "sum.py", OPS + "mean.py", OPS + "trace.py", OPS + "diag.py", OPS + "diag_extract.py"],
      [("closed forms per class", OPS + "sum.py")]),
    P("C06", "Conversions and rearrangements represent the same entries",
      "Making a matrix dense, converting it to NumPy, casting, transposing, reshaping, flattening, squeezing, tiling, "
      "broadcasting, raising its rank or indexing it gives what the same rearrangement of its dense version gives.",
      "all classes, values, sizes, batch dimensions and arguments", WHY,
      [OPS + x for x in ("dense.py", "transpose.py", "cast.py", "reshape.py", "squeeze.py", "tile.py", "broadcast_to.py",
                         "broadcast_batch_to.py", "uprank.py", "to_numpy.py")] + ["matrix/matrix.py"],
      [("methods per class", OPS + "dense.py")]),
    P("C07", "Selecting rows, columns, batch elements or submatrices is exact",
      "Taking rows, columns or batch elements of a matrix with any indices or mask, and taking submatrices, gives what the "
      "same selection of its dense version gives, including repeated, negative and unsorted indices.",
      "all classes, values, sizes, batch dimensions, axes, and index lists and masks", WHY,
      [OPS + "take.py", OPS + "submatrix.py"], [("methods per class", OPS + "take.py")]),
    P("C08", "Block, concatenated and generated matrices have the right entries",
      "Matrices built from blocks, from diagonal blocks, by concatenation, by tiling blocks, or as zeros, ones, identities and "
      "filled diagonals of the shape of another matrix have exactly the entries of the dense construction.",
      SIZES, WHY, [OPS + x for x in ("block.py", "block_diag.py", "concat.py", "zeros.py", "ones.py", "eye.py", "fill_diag.py")]
      + ["matrix/tiledblocks.py"],
      [("attempts to keep structure", OPS + "block.py")]),
    P("C09", "Element-wise functions agree with the dense matrix",
      "The absolute value, square root, positive power and not-a-number check of a matrix agree, entry by entry, with the same "
      "function of its dense version.",
      "all classes, values, sizes and batch dimensions; positive exponents", WHY,
      [OPS + x for x in ("abs.py", "sqrt.py", "power.py", "isnan.py")], [("methods per class", OPS + "power.py")]),
    P("C10", "Inverses, Cholesky factors, roots and log-determinants are exact",
      "In exact arithmetic, the inverse of an invertible matrix, the Cholesky factor and root of a positive-definite matrix, its "
      "log-determinant and Schur complements satisfy their defining equations with respect to the dense version.",
      "all classes that support the operation, all values, sizes and batch dimensions; exact arithmetic", WHY,
      [OPS + x for x in ("inv.py", "pd_inv.py", "cholesky.py", "root.py", "logdet.py", "schur.py", "pd_schur.py")],
      [("matrix inversion lemma", OPS + "inv.py"), ("caches on the matrix", OPS + "cholesky.py")]),
    P("C11", "Solutions of linear systems are exact",
      "In exact arithmetic, solving a linear system against a matrix, against a triangular matrix, or against the product of a "
      "Cholesky factor and its transpose gives the solution of the system of the dense versions, with batch dimensions broadcast. "
      "(A zero right-hand side is returned as it is.)",
      SIZES + "; exact arithmetic", WHY,
      [OPS + x for x in ("solve.py", "triangular_solve.py", "cholesky_solve.py")],
      [("methods per class", OPS + "solve.py")]),
    P("C12", "Inverse quadratic forms, their diagonals and ratios are exact",
      "In exact arithmetic, the inverse quadratic form of a positive-definite matrix with one or two other matrices, its diagonal, "
      "and the trace of the ratio of two positive-definite matrices agree with the same expression of the dense versions.",
      SIZES + "; exact arithmetic", WHY,
      [OPS + x for x in ("iqf.py", "iqf_diag.py", "ratio.py")],
      [("shared Cholesky factor", OPS + "iqf.py")]),
    P("C13", "Reported shapes and ranks match what a matrix represents",
      "The shape, rank and batch shape which a matrix reports always equal those of its dense version, for the result of every "
      "operation.",
      "results of all operations on all classes, sizes and batch dimensions", WHY,
      [OPS + "shape.py", OPS + "shape_batch.py", OPS + "shape_matrix.py", OPS + "rank.py"],
      [("shape per class", OPS + "shape_matrix.py")]),
    P("C14", "Results have the data type of the dense computation",
      "An operation on matrices of one data type gives a result that reports, and whose components all have, the data type which "
      "the same operation on the dense versions has. Operands, or components of operands, of different data types give the promoted data "
      "type; zero matrices, and parts of matrices which vanish, take over the data type of what they are combined with.",
      "results of all operations on all classes, sizes and batch dimensions; operands and components of one data type or of different "
      "ones, Python numbers excluded", WHY,
      [OPS + "dtype.py", OPS + "cast.py", "matrix/constant.py"],
      [("data type from the components", OPS + "dtype.py")]),
    P("C15", "Results satisfy the structure that their class declares",
      "If an operation returns a matrix of a class which declares structure, such as triangularity, then the components of the result "
      "really have that structure, so that later operations may rely on it.",
      "results of all operations on all classes, sizes and batch dimensions", WHY,
      ["matrix/triangular.py", OPS + "add.py", OPS + "multiply.py", OPS + "matmul.py"],
      [("classes of results", OPS + "multiply.py")]),
    P("C16", "Operations keep the structure that they are specified to keep",
      "The result of an operation on structured matrices is never less structured than the operation is specified to give: zero "
      "matrices absorb, and diagonal, triangular, constant, low-rank and Kronecker structure survives in sums, products, transposes, "
      "inverses, reductions and selections that can keep it, and a diagonal plus a low-rank matrix is kept as such. The rank of a "
      "low-rank result is never higher than specified, and structure which depends on values (such as zeros or shared factors) is "
      "recognised when the values have it.",
      "all operations on all combinations of classes, sizes and batch dimensions; all outcomes of tests on values",
      "The tests compare numbers, and a dense result has the right numbers, so that loss of structure, and with it of the complexity "
      "for which the package exists, goes unnoticed for most combinations of classes, flags and batch dimensions.",
      [OPS + "add.py", OPS + "multiply.py", OPS + "matmul.py", OPS + "kron.py", OPS + "inv.py", OPS + "take.py", OPS + "algorithms/"],
      [("methods for every pair of classes", OPS + "add.py"), ("tests on values", OPS + "algorithms/")],
      technique=TABLE,
      note="Classes (and, for low-rank matrices, symbolic ranks) of the results of every abstract call on every path are compared, in "
      "the partial order of structure, with a committed specification table, which was generated from the pinned tree and reviewed by "
      "its principal rules in DESIGN.md. Calls that are not in the table and paths which the domain cannot decide stay quiet. Nothing "
      "of /repo is imported or run."),
    P("C17", "A warning is given exactly when structure is lost",
      "An operation which has to convert a structured matrix to a dense one, or a more structured one to a less structured one, without "
      "keeping its structure gives the corresponding warning. Operations which keep structure, and "
      "operations on dense matrices only, give no such warning.",
      "all operations on all combinations of classes, sizes and batch dimensions; all outcomes of tests on values",
      "The tests check warnings for some pairs of classes, once, with fixed sizes; whether a path warns depends on classes, flags, "
      "batch dimensions and values.",
      ["matrix/util.py"] + [OPS + x for x in ("add.py", "multiply.py", "matmul.py", "dense.py")],
      [("warnings per method", "matrix/util.py")],
      technique=TABLE,
      note="The warnings on every path of every abstract call are compared, per outcome (classes of the result), with a committed "
      "specification table. Calls which are not in the table stay quiet. Nothing of /repo is imported or run."),
    P("C18", "Operations do not change their operands, and stored results stay right",
      "No operation changes the matrices, arrays or lists which it is given, nor any global state; doing it again gives the same result, "
      "for the same operands and for equal-shaped other operands. Whatever a matrix stores for later, such as "
      "its Cholesky factor, is right at every later time, whichever operations come before.",
      "all operations on all combinations of classes, sizes and batch dimensions; repeated, after any quantity which operands store has "
      "been computed",
      "The tests make a new matrix for most operations and rarely do two operations on one object; sharing between operands, results and "
      "caches shows only in histories.",
      [OPS + x for x in ("cholesky.py", "pd_inv.py", "schur.py", "root.py", "dense.py")] + ["matrix/lowrank.py", "matrix/woodbury.py"],
      [("results stored on the matrix", OPS + "cholesky.py")], over=("inputs", "histories"),
      technique="abstract interpretation with an effect analysis: every write to an attribute, list, array or global is recorded; stored "
      "results are compared with their definition by value numbering and random interpretation"),
    P("C19", "Every call on matrices resolves to exactly one implementation",
      "For every function and all classes of its operands, exactly one implementation is the most specific, independently of the "
      "order in which modules are loaded. No combination of classes that the functions support is left without an implementation, and no "
      "implementation replaces another.",
      "all functions, and all tuples of up to three classes of matrices, arrays and Python numbers",
      "An ambiguous or missing implementation shows only when a certain tuple of classes is used; the tests use a few tuples per function.",
      ["matrix/ops/", "matrix/util.py", "matrix/matrix.py"],
      [("registration of implementations", OPS + "add.py"), ("resolution of ambiguities", "matrix/util.py")], over=("inputs", "programs"),
      technique="static resolution of multiple dispatch: signatures, precedences and class hierarchy from the syntax tree; exhaustive "
      "over tuples of classes",
      note="Exhaustive for the tuples of classes: signatures with their precedences and the hierarchy of classes are read from the source "
      "and resolved by a model of plum's rules. Unsupported tuples are listed in a committed table. Trusts the model of plum."),
    P("C20", "Operands that do not fit are rejected",
      "Operations on matrices of which the shapes or batch dimensions do not agree, constructions of matrices from components that "
      "do not fit, and operations for square matrices on others raise an exception. They never return a matrix as if the operands "
      "had other shapes.",
      "all combinations of classes, with sizes and batch dimensions that do not agree",
      "The tests check few combinations; structured matrices often do not touch a component whose size is wrong, so that nothing raises by "
      "itself.",
      [OPS + x for x in ("matmul.py", "matmul_diag.py", "add.py", "multiply.py", "solve.py", "broadcast_to.py")]
      + ["matrix/shape.py", "matrix/lowrank.py", "matrix/woodbury.py"],
      [("checks of shapes", "matrix/shape.py")],
      note="Every abstract call with symbolic sizes which do not agree must raise on every path on which the sizes are known to differ. "
      "By-design exceptions (zero right-hand sides, lazily checked components) are listed in DESIGN.md. Nothing of /repo is imported or "
      "run."),
    P("C21", "Samples have the covariance of the matrix",
      "Sampling a matrix gives, per sample and batch element, a linear function of independent noise whose covariance is exactly the "
      "dense version of the matrix. Samples are independent of each other, batch elements are too, the given random state is used, once, "
      "and the new state is returned.",
      "all classes that support sampling, all values, sizes, batch dimensions and numbers of samples; with and without a random state",
      "The tests can only look at moments of a few samples of one matrix, or at shapes; exact covariance, independence of samples and "
      "use of random states need the distribution for all values.",
      [OPS + "sample.py", OPS + "root.py"],
      [("sampling via the root", OPS + "sample.py")], over=("inputs", "histories"),
      technique="abstract interpretation; the sample is a term that is linear in noise symbols, whose responses give the covariance; "
      "use of random states is tracked like a typestate",
      note="The covariance is compared by random interpretation of terms. Sums of samples of partially batched components are only checked "
      "for their marginal covariance. Trusts that the library's normal noise is independent and standard. Nothing of /repo is run."),
    P("C22", "With cached control flow, operations do not look at values",
      "An operation whose control-flow outcomes were recorded gives, when it is replayed with these outcomes, the same result as before, "
      "uses exactly the recorded outcomes in order, and does not inspect the values of any array, so that it can be compiled.",
      "all operations of which the control flow depends on values, all combinations of classes, sizes and batch dimensions",
      "The tests compile a handful of functions; a branch on a value that is not recorded shows only for the classes and values that "
      "reach it.",
      [OPS + "algorithms/", OPS + "take.py", OPS + "submatrix.py"],
      [("recording of outcomes", OPS + "algorithms/")], over=("inputs", "histories"),
      technique="abstract interpretation with a taint of concrete values: each path is interpreted again with its recorded outcomes, and "
      "every branch or conversion which depends on values is an effect"),
    P("C23", "A matrix is abstract exactly if one of its components is",
      "A matrix is reported as abstract (part of a computation which is being traced) if and only if at least one of the arrays which it "
      "consists of is.",
      "all classes, all components, with and without batch dimensions",
      "The tests check it for few classes with all components traced at once.",
      [OPS + "isabstract.py"], [("components per class", OPS + "isabstract.py")]),
    P("C24", "The display of a matrix shows its batch, shape and data type",
      "Converting a matrix to a string shows its class, batch dimensions, shape and data type, each once and correctly, and has no "
      "effect: it does not warn, and it changes nothing.",
      "all classes, sizes and batch dimensions, and nested components",
      "The tests compare few strings of fixed sizes.",
      ["matrix/matrix.py", "matrix/util.py"], [("display of a matrix", "matrix/matrix.py")]),
    P("C25", "Operations on structured matrices form no larger arrays than they need",
      "An operation which gives no warning about a loss of structure computes with the components of its operands: it forms no array "
      "of which the number of elements per batch element grows faster, in the sizes of the operands, than that of what its operands "
      "or its result store, or than their numbers of rows and columns. In particular, it does not form the dense version of a "
      "structured operand or result on the way. Conversions to dense matrices are the exception, and so are the diagonal of a "
      "Kronecker product with non-square factors, submatrices and products of three matrices.",
      "all operations on all combinations of classes, sizes and batch dimensions",
      "The tests compare results on matrices of a few rows, for which an intermediate dense matrix costs nothing. The result is the "
      "same, and only its cost for large matrices, for which the package exists, differs.",
      [OPS + x for x in ("diag.py", "matmul_diag.py", "iqf_diag.py", "logdet.py", "sum.py", "matmul.py", "ratio.py", "schur.py")],
      [("diagonals without dense matrices", OPS + "diag.py"), ("matrix determinant lemma", OPS + "logdet.py")],
      technique="abstract interpretation with a symbolic storage analysis: the shape, a polynomial in symbolic sizes, of every array "
      "that a library function computes on every path is compared with what operands and result store",
      note="Monomials of the number of elements of every computed array must divide a monomial of what operands or result store. Views "
      "(reshaping, broadcasting, transposing) do not count; ranks of low-rank matrices are small constants; rows and columns of a "
      "Kronecker factor count as one size. Nothing of /repo is imported or run."),
    P("C26", "Operations on structured matrices do no more work than they need",
      "Count the multiplications of the matrix products, triangular solves, factorisations and inversions of arrays which an operation "
      "that gives no warning about a loss of structure computes, per batch element. This number grows no faster, in the sizes of the "
      "operands, than that of the operation on the components of its operands: products with diagonal and zero matrices need none; "
      "products with constant and low-rank matrices are products with their factors, and low-rank results are not multiplied out; "
      "Woodbury matrices are diagonal plus low rank, and are inverted and factorised through a matrix of the size of their rank; "
      "Kronecker products are multiplied, inverted and factorised factor by factor; triangular matrices are solved without "
      "factorisation; the diagonal or trace of a product needs no product; everything else is linear in what is stored. A product of "
      "three dense matrices, and the product of a Kronecker product of dense factors with a dense matrix, are computed in the order "
      "which needs the least multiplications, for all sizes.",
      "all operations on all combinations of classes, sizes and batch dimensions; all orders of sizes",
      "The tests compare results on matrices of a few rows, where any order of operations is fast enough. The result is the same, and "
      "only its cost for large matrices, for which the package exists, differs.",
      [OPS + x for x in ("matmul.py", "matmul_diag.py", "iqf.py", "iqf_diag.py", "logdet.py", "pd_inv.py", "schur.py", "ratio.py")],
      [("the order of three products", OPS + "matmul.py"), ("Kronecker products factor by factor", OPS + "matmul.py"),
       ("inverses of Woodbury matrices", OPS + "inv.py")],
      technique="abstract interpretation with a symbolic cost analysis: the number of multiplications of every numerical call on every "
      "path, a polynomial in symbolic sizes, is compared with the cost of the operation on the components, or with the cheapest order",
      note="Growth: total degree in all sizes, and the degree in every single size, with ranks constant. Order: evaluated for sizes "
      "sampled from those that the decisions of the path allow. Nothing of /repo is imported or run."),
]


def main():
    from mxa.props import PROPS as IMPL

    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"] or ["public functions of matrix and lab"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["pid"], "reason": p["na"]})
            continue
        assert p["pid"] in IMPL, p["pid"]
        checks.append({
            "property": p["pid"],
            "quick_cmd": f"python3-vt -m mxa.check {p['pid']}",
            "thorough_cmd": f"python3-vt -m mxa.check {p['pid']} --thorough",
            "technique": p["technique"] or TERMS,
            "level": "other",
            "level_note": p["note"] or NOTE,
        })
    json.dump({
        "version": 1,
        "setup_cmd": "python3-vt -m compileall -q mxa",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks are static: they parse /repo's current source and interpret it abstractly. No hooks in /repo.",
    }, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    import sys

    sys.path.insert(0, ROOT)
    main()
