"""C09: geometric quantities of the cell."""
import math
from ..vals import *
from ..engine import State, QFact
from ..specs import *
from ..lemmas import *

INFO = {
    'level': 'proof',
    'note': 'All clauses are proved for every lattice over the reals; angles up to the meaning of acos (an uninterpreted function of the proved cosine).',
    'bounded': ['effect of f64 rounding (companion)'],
    'assumptions': ['f64::acos is the arc cosine', 'nalgebra inverses are exact'],
}
Z = Fraction(0)


def lat(c):
    return c.old(0).f[LAT]


class Edge(Spec):
    def __init__(self, j):
        self.j, self.fn = j, 'Structure::' + 'abc'[j]

    def ensures(self, c):
        v = lat(c).col(self.j)
        return [('not negative', le(Z, c.ret)), ('its square is the column dotted with itself', eq(mul(c.ret, c.ret), dot(v, v)))]


class Angle(Spec):
    def __init__(self, k):
        self.k, self.fn = k, 'Structure::' + ('alpha', 'beta', 'gamma')[k]

    def requires(self, eng, st, a):
        m = eng.deref_all(st, a[0]).f[LAT]
        return [(f'edge {j} is not zero', lt(Z, dot(m.col(j), m.col(j)))) for j in range(3) if j != self.k]

    def ensures(self, c):
        from ..prover import subterms
        i, j = [x for x in range(3) if x != self.k]
        u, v = lat(c).col(i), lat(c).col(j)
        acs = [t for t in subterms([c.ret]).values() if z3.is_app(t) and t.decl().name() == 'acos']
        if len(acs) != 1:
            raise Unsupported('angle is not one arc cosine')
        a = acs[0]
        x = a.arg(0)
        deg = 180 / Fraction(math.pi)
        c.st.assume(and_(le(Z, a), le(a, Fraction(4))))
        lu, lv = fsqrt(dot(u, u)), fsqrt(dot(v, v))
        POSPROD.use(c.eng, c.st, lu, lv)
        return [('is the arc cosine in degrees', le(absv(sub(c.ret, mul(a, deg))), Fraction(1, 10 ** 9))),
                ('of the scalar product over the product of the lengths', eq(mul(x, mul(lu, lv)), dot(u, v)))]


class Volume(Spec):
    fn = 'Structure::volume'

    def ensures(self, c):
        d = det3(lat(c))
        return [('not negative', le(Z, c.ret)), ('is the magnitude of the triple product', or_(eq(c.ret, d), eq(c.ret, neg(d))))]


class Metric(Spec):
    fn = 'Structure::metric_tensor'

    def ensures(self, c):
        m = lat(c)
        return [(f'entry {i}{j} is the scalar product of columns {i} and {j}', eq(c.ret.at(i, j), dot(m.col(i), m.col(j)))) for i in range(3) for j in range(3)]


class Delaunay(Spec):
    fn = 'Structure::delaunay_matrix'

    def ensures(self, c):
        m, r = lat(c), c.ret
        return [(f'column {j} is lattice vector {j}', same_value(r.col(j), m.col(j))) for j in range(3)] + \
            [('fourth column is minus the sum', and_(*[eq(add(add(add(m.at(i, 0), m.at(i, 1)), m.at(i, 2)), r.at(i, 3)), Z) for i in range(3)]))]


class Reciprocal(Spec):
    fn = 'Structure::reciprocal_lattice'

    def panic_ok(self, eng, st, a):
        return not_(invertible(eng.deref_all(st, a[0]).f[LAT]))

    def ensures(self, c):
        m, r = lat(c), c.ret
        tp = 2 * Fraction(math.pi)
        out = [('returns only for a non-singular lattice', invertible(m))]
        for i in range(3):
            for j in range(3):
                out.append((f'reciprocal vector {i} against lattice vector {j}',
                            le(absv(sub(dot(r.col(i), m.col(j)), tp if i == j else Z)), Fraction(1, 10 ** 9))))
        return out


class NumSites(Spec):
    fn = 'Structure::num_sites'

    def ensures(self, c):
        return [('is the number of species entries', eq(c.ret, c.old(0).f[SPEC].n))]


class Between(Spec):
    fn = 'Structure::get_transformation_matrix'

    def requires(self, eng, st, a):
        return [('first lattice is not singular', invertible(eng.deref_all(st, a[0]).f[LAT]))]

    def ensures(self, c):
        p = mat_mul(lat(c), c.ret)
        q = c.old(1).f[LAT]
        c.st.assume(inverse_times(c.eng, lat(c), q))
        return [(f'takes column {j} of the first lattice to that of the second', same_value(p.col(j), q.col(j))) for j in range(3)]


def build(V):
    for j in range(3):
        V.spec(Edge(j))
    for k in range(3):
        V.spec(Angle(k))
    for s in (Volume(), Metric(), Delaunay(), Reciprocal(), NumSites(), Between()):
        V.spec(s)
