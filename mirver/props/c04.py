"""C04: normalising a structure."""
from ..specs import *

INFO = {
    'level': 'proof',
    'note': 'All clauses are proved for every structure with one species per coordinate and every tolerance below half of each edge, over the reals.',
    'bounded': ['effect of f64 rounding on the cell bounds (companion)'],
    'assumptions': ['the order of species names is a total order (strings are elements of a totally ordered set)'],
}


def build(V):
    V.spec(NormalizeFracVectors())
    V.spec(GetCartCoords())
    V.spec(NormalizeCoords())
