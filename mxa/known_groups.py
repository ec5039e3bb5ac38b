"""Groups of the genuine defects which are recorded and not repaired. Only used to write
known_findings.json, which lists the exact cases."""
import re


def group(pid, f):
    rule, case, where, detail, path = f
    m = re.search(r"shapes=([^,\]]*)", case)
    shapes = m.group(1).split("/") if m else []
    if case.startswith("binary[") and len(shapes) == 2 and shapes[0] != shapes[1]:
        return (
            "K1",
            "element-wise arithmetic of matrices of different shapes that broadcast (for "
            "example a 1-by-1 diagonal, triangular, or Woodbury matrix with a larger matrix, "
            "or a constant matrix with a smaller structured matrix) does not broadcast",
        )
    if case.startswith("submatrix["):
        return (
            "K2",
            "submatrix of a diagonal, Woodbury, or triangular matrix with indices which are "
            "repeated or not increasing keeps the structure, which such indices break",
        )
    if case.startswith("block_diag_tiled[batch="):
        return (
            "K3",
            "block_diag of tiled blocks with batch dimensions raises, because the Kronecker "
            "product with an identity matrix without batch dimensions is not supported",
        )
    return None
