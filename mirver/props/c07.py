"""C07: Niggli reduction."""
from ..vals import *
from ..specs import *
from ..invloop import LoopInv
from ..lemmas import *

INFO = {
    'level': 'proof',
    'note': 'Partial correctness for every lattice and every number of reduction steps: the loop is verified by the invariant '
            '"the accumulated matrix X is integral with determinant one and the current metric is X^T G X", and every way out of the loop '
            'satisfies the Niggli conditions. Giving up (a panic) is allowed by the property and not excluded.',
    'bounded': ['effect of f64 rounding (companion)'],
    'assumptions': ['the scaled tolerance tol * V^(1/3) is in [0, 1)', 'every lattice vector is longer than twice the distance tolerance'],
}
Z = Fraction(0)


def conditions(m, e):
    """Niggli conditions of the metric m within e (International Tables A, 9.2.2)."""
    a, b, c = m.at(0, 0), m.at(1, 1), m.at(2, 2)
    xi, eta, zeta = (mul(2, m.at(1, 2)), mul(2, m.at(0, 2)), mul(2, m.at(0, 1)))
    up = lambda x, y: le(x, add(y, e))
    same_ = lambda x, y: le(absv(sub(x, y)), e)
    s = add(add(add(xi, eta), zeta), add(a, b))
    return [('first edge not longer than the second', up(a, b)), ('second edge not longer than the third', up(b, c)),
            ('angles all acute or all non-acute', or_(and_(*[le(e, x) for x in (xi, eta, zeta)]), and_(*[le(x, e) for x in (xi, eta, zeta)]))),
            ('2bc within b^2', up(absv(xi), b)), ('2ac within a^2', up(absv(eta), a)), ('2ab within a^2', up(absv(zeta), a)),
            ('body diagonal', le(neg(e), s)),
            ('equal first edges', implies(same_(a, b), up(absv(xi), absv(eta)))), ('equal last edges', implies(same_(b, c), up(absv(eta), absv(zeta)))),
            ('special: 2bc = b^2', implies(same_(xi, b), up(zeta, mul(2, eta)))), ('special: 2ac = a^2', implies(same_(eta, a), up(zeta, mul(2, xi)))),
            ('special: 2ab = a^2', implies(same_(zeta, a), up(eta, mul(2, xi)))),
            ('special: 2bc = -b^2', implies(same_(xi, neg(b)), le(neg(e), zeta))), ('special: 2ac = -a^2', implies(same_(eta, neg(a)), le(neg(e), zeta))),
            ('special: 2ab = -a^2', implies(same_(zeta, neg(a)), le(neg(e), eta))),
            ('special: body diagonal', implies(same_(s, Z), le(add(mul(2, add(a, eta)), zeta), e)))]


def transpose(m):
    return VMat(m.c, m.r, [m.at(i, j) for i in range(m.r) for j in range(m.c)])


def gram(l):
    return mat_mul(transpose(l), l)


def is_identity(v):
    return isinstance(v, VMat) and (v.r, v.c) == (3, 3) and all(conc(v.at(i, j)) == int(i == j) for i in range(3) for j in range(3))


class Steps(LoopInv):
    label = 'reduction steps'

    def __init__(self, lat, dtol, eps):
        self.lat, self.dtol, self.eps, self.g = lat, dtol, eps, gram(lat)

    def roles(self, eng, fr, st, mods):
        x = [k for k, v in mods.items() if is_identity(v)]
        m = [k for k, v in mods.items() if isinstance(v, VMat) and (v.r, v.c) == (3, 3) and not is_identity(v)]
        return {'X': x[0], 'M': m[0]} if len(x) == 1 and len(m) == 1 else None

    def fresh(self, eng, st, vals, role):
        if role == 'X':
            return VMat(3, 3, [to_real(fresh_int('x')) for _ in range(9)])

    def inv(self, eng, st, v):
        x, m = v['X'], v['M']
        q = mat_mul(mat_mul(transpose(x), self.g), x)
        return [(f'entry {i} of the basis change is whole', is_int(x.d[i])) for i in range(9)] + [('the basis change has determinant one', eq(det3(x), Fraction(1)))] + \
            [(f'entry {i} of the metric belongs to the basis change', eq(m.d[i], q.d[i])) for i in range(9)]

    def exit(self, eng, st, v):
        return conditions(v['M'], self.eps)

    def after(self, eng, st, v):
        x = v['X']
        st.log.append(('basis change', x))
        for j in range(3):
            st.assume(longer_than(self.lat, self.dtol)(*x.col(j).d))
            ZEROCOL[j].use(eng, st, *x.d)
        DETPROD.use(eng, st, *self.lat.d, *x.d)
        CONG.use(eng, st, det3(x), Fraction(1), det3(self.lat))


class Niggli(Spec):
    fn = 'Reducer::niggli_reduce'
    panic_ok = True
    uses = (GetCartCoords(), GetFracCoords(), StructureNew(), NormalizeCoords())

    def parts(self, eng, st, a):
        r, s, tol = (eng.deref_all(st, x) for x in a)
        lat = s.f[LAT]
        return s, lat, r.f[0], mul(tol, F_POW(zr(absv(det3(lat))), z3.RealVal(Fraction(1, 3))))

    def requires(self, eng, st, a):
        s, lat, dtol, eps = self.parts(eng, st, a)
        self.inv = Steps(lat, dtol, eps)
        return [('lattice is not singular', invertible(lat)), ('one species and coordinate per site', well_formed(s)), ('tolerance not negative', le(Z, dtol)),
                ('scaled tolerance in [0,1)', and_(le(Z, eps), lt(eps, Fraction(1)))),
                ('every lattice vector longer than twice the tolerance', Everywhere(3, longer_than(lat, dtol)))]

    def prepare(self, eng):
        eng.split_values = lambda fr: fr.body.name.endswith('niggli_reduce')
        eng.loop_hook = lambda *a: self.inv(*a)

    def ensures(self, c):
        s, lat, dtol, eps = self.parts(c.eng, c.entry, c.args)
        new, x = c.ret, [v[1] for v in c.st.log if v[0] == 'basis change'][-1]
        lx = mat_mul(lat, x)
        out = [(f'lattice entry {i} is that of the input lattice times an integral matrix of determinant one', eq(new.f[LAT].d[i], lx.d[i])) for i in range(9)]
        out += [('basis change is integral with determinant one', and_(eq(det3(x), Fraction(1)), *[is_int(e) for e in x.d]))]
        out += conditions(gram(new.f[LAT]), eps)
        return out + same_sites(s, new, *last_perm(c))


def build(V):
    V.spec(Niggli())
