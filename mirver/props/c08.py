"""C08: Delaunay reduction."""
from ..vals import *
from ..specs import *
from ..invloop import LoopInv
from ..lemmas import *

INFO = {
    'level': 'proof',
    'note': 'Partial correctness for every lattice and every number of reduction steps: the loop is verified by the invariant '
            '"the four vectors are the input lattice times an integral matrix whose first three columns have determinant plus or minus one, '
            'and the fourth is the negative of their sum". The matrix is a ghost value, read off the vectors. '
            'Giving up (a panic) is allowed by the property and not excluded.',
    'bounded': ['effect of f64 rounding (companion)'],
    'assumptions': ['every lattice vector is longer than twice the distance tolerance (precondition)'],
}
Z, ONE = Fraction(0), Fraction(1)
PAIRS = [(i, j) for i in range(4) for j in range(i + 1, 4)]


def coefficients(lat, v):
    """The matrix N with v = lat N, read off the first row of v (a candidate: its defining equation is an obligation)."""
    row = [lat.at(0, k) for k in range(3)]
    out = []
    for j in range(v.c):
        for k in range(3):
            x = v.at(0, j)
            out.append(x if not is_z(x) else from_z(z3.simplify(z3.substitute(x, *[(row[i], z3.RealVal(int(i == k))) for i in range(3)]), som=True)))
    return VMat(3, v.c, out)


def from_z(t):
    c = conc(t)
    return t if c is None else c


def unimodular(n):
    d = det3(VMat(3, 3, n.d[:9]))
    return or_(eq(d, ONE), eq(d, Fraction(-1)))


def belongs(lat, v, n):
    """v = lat n with n integral and the first three columns of n of determinant +-1."""
    ln = mat_mul(lat, n)
    return [(f'entry {i} of the basis is that of the lattice times the coefficients', eq(v.d[i], ln.d[i])) for i in range(3 * v.c)] + \
        [(f'coefficient {i} is whole', is_int(n.d[i])) for i in range(3 * v.c)] + [('the coefficients have determinant plus or minus one', unimodular(n))]


def vectors(mods, r, c):
    return [k for k, v in mods.items() if isinstance(v, VMat) and (v.r, v.c) == (r, c)]


class Steps(LoopInv):
    label = 'reduction steps'

    def __init__(self, lat):
        self.lat = lat

    def roles(self, eng, fr, st, mods):
        d, p = vectors(mods, 3, 4), vectors(mods, 6, 1)
        return {'D': d[0], 'P': p[0]} if len(d) == 1 and len(p) == 1 else None

    def fresh(self, eng, st, vals, role):
        if role == 'D':
            n = [to_real(fresh_int('n')) for _ in range(9)]
            self.n = VMat(3, 4, n + [neg(add(add(n[i], n[3 + i]), n[6 + i])) for i in range(3)])
            return mat_mul(self.lat, self.n)

    def inv(self, eng, st, v):
        d = v['D']
        n = coefficients(self.lat, d)
        return belongs(self.lat, d, n) + \
            [(f'coefficient {i} of the fourth vector is minus the sum of the others', eq(n.at(i, 3), neg(add(add(n.at(i, 0), n.at(i, 1)), n.at(i, 2))))) for i in range(3)] + \
            [(f'scalar product {k}', eq(v['P'].d[k], dot(d.col(i), d.col(j)))) for k, (i, j) in enumerate(PAIRS)]

    def exit(self, eng, st, v):
        d = v['D']
        return [(f'scalar product of vectors {i} and {j} not above the zero tolerance', le(dot(d.col(i), d.col(j)), Fraction(1, 10 ** 6))) for i, j in PAIRS]


class Delaunay(Spec):
    fn = 'Reducer::delaunay_reduce'
    panic_ok = True
    uses = (GetCartCoords(), GetFracCoords(), StructureNew(), NormalizeCoords())

    def parts(self, eng, st, a):
        r, s = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        return s, s.f[LAT], r.f[0], a[2]

    def requires(self, eng, st, a):
        s, lat, dtol, full = self.parts(eng, st, a)
        self.inv, self.lat, self.dtol = Steps(lat), lat, dtol
        return [('lattice is not singular', invertible(lat)), ('one species and coordinate per site', well_formed(s)), ('tolerance not negative', le(Z, dtol)),
                ('every lattice vector longer than twice the tolerance', Everywhere(3, longer_than(lat, dtol)))]

    def prepare(self, eng):
        eng.split_values = lambda fr: fr.body.name.endswith('delaunay_reduce')
        eng.loop_hook = lambda *a: self.inv(*a)
        eng.hints.append(self.hint)

    def hint(self, spec, eng, st, a):
        if isinstance(spec, GetFracCoords):
            n = coefficients(self.lat, eng.deref_all(st, a[0]))
            for j in range(3):
                st.assume(longer_than(self.lat, self.dtol)(*n.col(j).d))
                ZEROCOL[j].use(eng, st, *n.d)
            DETPROD.use(eng, st, *self.lat.d, *n.d)
            for s in (1, -1):
                CONG.use(eng, st, det3(n), Fraction(s), det3(self.lat))

    def ensures(self, c):
        s, lat, dtol, full = self.parts(c.eng, c.entry, c.args)
        new = c.ret
        v = new.f[LAT]
        n = coefficients(lat, v)
        out = belongs(lat, v, n)
        four = [v.col(0), v.col(1), v.col(2), mat_map2(lambda x, y: neg(add(x, y)), mat_map2(add, v.col(0), v.col(1)), v.col(2))]
        out += [(f'without shortening: vectors {i} and {j} obtuse', implies(not_(full), le(dot(four[i], four[j]), Fraction(1, 10 ** 6)))) for i, j in PAIRS]
        return out + same_sites(s, new, *last_perm(c))


def build(V):
    V.spec(Delaunay())
