"""The properties: which cases, rules, and analyses decide each of them."""
from . import cases as C
from . import dispatch


class Prop:
    def __init__(self, pid, title, gens=(), rules=(), report=None, min_q=0, paths=(8, 24),
                 extra=None, factor=1, files=(), full=False):
        self.full = full  # Analyse all cases in both tiers.
        self.id, self.title = pid, title
        self.gens, self.rules = gens, tuple(rules)
        # Findings of these rules violate the property.
        self.report = tuple(report or tuple(rules) + ("raises",))
        self.min_q = min_q  # Least number of discharged obligations in the quick tier.
        self.paths = paths
        self.extra = extra
        self.factor = factor
        self.files = files

    def cases(self, thorough):
        def gen():
            for g in self.gens:
                for f, c in g():
                    yield f * self.factor, c

        return C.pick(gen(), thorough or self.full)


def _mixed(*gens):
    return gens


EVERYTHING = (
    C.sums,
    C.products_elementwise,
    C.matmuls,
    C.products_other,
    C.reductions,
    C.conversions,
    C.selections,
    C.blocks,
    C.elementwise,
    C.factorisations,
    C.solves,
    C.forms,
)

PROPS = {}


def prop(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.id] = p


V = ("value",)
prop("C01", "Sums and differences", (C.sums,), V, min_q=2500)
prop("C02", "Element-wise products and quotients", (C.products_elementwise,), V, min_q=1500)
prop("C03", "Matrix products", (C.matmuls,), V, min_q=2500)
prop("C04", "Other products", (C.products_other,), V, min_q=1500)
prop("C05", "Reductions", (C.reductions,), V, min_q=2500)
prop("C06", "Rearrangements", (C.conversions,), V, min_q=3500)
prop("C07", "Selections", (C.selections,), V, min_q=3000)
prop("C08", "Blocks", (C.blocks,), V, min_q=3000)
prop("C09", "Element-wise functions", (C.elementwise,), V, min_q=1500)
prop("C10", "Factorisations and inverses", (C.factorisations,), V, min_q=300)
prop("C11", "Linear systems", (C.solves,), V, min_q=1500)
prop("C12", "Quadratic forms and ratios", (C.forms,), V, min_q=700)
prop("C13", "Shapes", (C.rarely(EVERYTHING, 4), C.queries), ("shape",), ("shape", "raises: shape"), min_q=2000)
prop("C14", "Data types", EVERYTHING + (C.mixed(EVERYTHING + (C.queries,)),), ("dtype",), ("dtype", "raises: dtype"), min_q=2000, factor=4)
prop("C15", "Declared structure", EVERYTHING, ("structure",), ("structure",), min_q=2000, factor=4)

prop("C16", "Structure of results", (C.representatives(EVERYTHING),), ("kept",), ("kept",), min_q=12000, paths=(16, 16))
prop("C17", "Warnings", (C.representatives(EVERYTHING),), ("warned",), ("warned",), min_q=8000, paths=(16, 16))
prop("C18", "Operands and stored results", (C.warmed(EVERYTHING),), ("pure",), ("pure", "raises: pure"), min_q=12000, factor=8, paths=(6, 16))
prop("C19", "Dispatch", rules=("dispatch",), extra=dispatch.check, min_q=8000)
prop("C20", "Errors", (C.errors,), (), ("raises not",), min_q=9000, full=True)
prop("C21", "Sampling", (C.samples,), ("sample",), min_q=2000)
prop("C22", "Cached control flow", (C.cached_flow, C.rarely(EVERYTHING, 8)), ("replay",), ("replay", "raises: replay"), min_q=8000, paths=(4, 12))
prop("C23", "Abstractness", (C.abstracts,), ("abstract",), min_q=150)
prop("C24", "Display", (C.displays,), ("display",), min_q=1500)
prop("C25", "Sizes of intermediate arrays", (C.representatives(EVERYTHING, without=("matmul3", "submatrix")),), ("size",), ("size",), min_q=8000, paths=(8, 16))
prop("C26", "Work", (C.representatives(EVERYTHING, without=("matmul3", "submatrix")), C.chains), ("work", "order"), ("work", "order"), min_q=8000, paths=(8, 16))
