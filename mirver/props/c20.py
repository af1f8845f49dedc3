"""C20: standard conventional and primitive structures."""
from ..vals import *
from ..engine import State
from ..verify import Everywhere
from ..specs import *
from ..lemmas import *
from ..reference import CHARACTERS, MULTIPLICITY
from .c05 import ApplyTransformation
from .c07 import Niggli, conditions, gram, transpose
from .c06 import FindPrimitive as PrimitiveCell
from .c13 import ROWS, scaled
from .c14 import table

INFO = {
    'level': 'exploration',
    'note': 'Proved for every structure, against the contracts of the functions called: the conventional lattice is the Niggli-reduced lattice of the primitive '
            'cell times the tabulated matrix of its character, the primitive one that times the tabulated centring matrix; both are integral combinations of the '
            'primitive vectors, of the volume times the multiplicity of the centring and of exactly that volume. That the primitive cell is one and the '
            'sites of the result are checked on inputs only.',
    'bounded': ['the cell found by find_primitive_cell spans the translations of the input (the contract of C06 does not say so)',
                'sites of the results (companion; contract of apply_transformation in C05)', 'rounding of f64'],
    'assumptions': ['at least one and at most 65535 sites, tolerance positive, lattice not singular (preconditions)'],
}
Z = Fraction(0)


def fresh_structure(ty, lat):
    n = fresh_int('sites')
    sp = z3.Function(fresh_name('species'), I, I)
    return VStruct(ty, [lat, SSeq(n, lambda j: SStr(sp(zi(j)))), fresh_vecs(n, 'cart'), fresh_vecs(n, 'frac')])


class Called(Spec):
    """Contract of another module as a caller sees it; preconditions about sizes relative to the tolerance are assumed and listed."""
    small = ()

    def needs(self, eng, st, a):
        return []

    def requires(self, eng, st, a):
        out = []
        for nm, g in self.needs(eng, st, a):
            if nm in self.small or nm.startswith('tolerance below'):
                eng.assumptions.add(f'{self.fn} is called with its precondition: {nm}')
                if not isinstance(g, Everywhere):
                    st.assume(g)
            else:
                out.append((nm, g))
        return out


class FindPrimitive(Called):
    """Contract proved in C06."""
    fn = PrimitiveCell.fn

    def needs(self, eng, st, a):
        return PrimitiveCell.requires(self, eng, st, a)

    def result(self, eng, st, a, body):
        s = fresh_structure(body.locals[0], VMat(3, 3, [fresh_real('prim') for _ in range(9)]))
        st.log.append(('primitive', eng.deref_all(st, a[1]), s, eng.deref_all(st, a[0]).f[0]))
        return s

    def ensures(self, c):
        return [('right-handed', lt(Z, det3(c.ret.f[LAT]))), ('one species and coordinate per site', and_(le(0, c.ret.f[FRAC].n), well_formed(c.ret)))]


class Reduced(Called):
    fn = Niggli.fn
    small = ('scaled tolerance in [0,1)', 'every lattice vector longer than twice the tolerance', 'tolerance not negative')
    parts = Niggli.parts

    def needs(self, eng, st, a):
        return Niggli.requires(self, eng, st, a)

    def result(self, eng, st, a, body):
        s, lat, dtol, eps = self.parts(eng, st, a)
        x = VMat(3, 3, [to_real(fresh_int('x')) for _ in range(9)])
        r = fresh_structure(body.locals[0], mat_mul(lat, x))
        st.log.append(('reduced', s, r, x, eng.deref_all(st, a[2])))
        return r

    def ensures(self, c):
        s, lat, dtol, eps = self.parts(c.eng, c.entry, c.args)
        x = c.st.log[-1][3]
        out = [('basis change of determinant one', eq(det3(x), Fraction(1))), ('one species and coordinate per site', and_(eq(c.ret.f[FRAC].n, s.f[FRAC].n), well_formed(c.ret)))]
        DETPROD.use(c.eng, c.st, *lat.d, *x.d)
        CONG.use(c.eng, c.st, det3(x), Fraction(1), det3(lat))
        return out + conditions(gram(c.ret.f[LAT]), eps)


class Conventional(Called):
    fn = 'SymmetryAnalyzer::conventional_transformation_matrix'
    small = ('tolerance is positive and small against the squared lengths',)

    def __init__(self, conv):
        self.conv = conv

    def needs(self, eng, st, a):
        lat = eng.deref_all(st, a[1]).f[LAT]
        g, eps = gram(lat), scaled(Fraction(1e-5), lat)
        return [(self.small[0], and_(lt(Z, eps), lt(mul(100, eps), g.at(0, 0)), lt(mul(100, eps), g.at(1, 1))))] + \
            [('Niggli condition: ' + n, x) for n, x in conditions(g, eps)]

    def result(self, eng, st, a, body):
        r = eng.sym(st, body.locals[0], fresh_name('ret'))
        st.log.append(('conventional', eng.deref_all(st, a[1]), r.f[0], r.f[1]))
        return r

    def ensures(self, c):
        t, r = c.ret.f
        return [('a character', between(1, r, 44))] + [(f'basis of character {n}', implies(eq(r, n), same_value(t, self.conv[n]))) for n in ROWS]


class Centring(Called):
    fn = 'SymmetryAnalyzer::primitive_transformation_matrix'

    def __init__(self, prim):
        self.prim = prim

    def needs(self, eng, st, a):
        return [('a character from 1 to 44', between(1, eng.deref_all(st, a[1]), 44))]

    def result(self, eng, st, a, body):
        r = eng.sym(st, body.locals[0], fresh_name('ret'))
        st.log.append(('centring', eng.deref_all(st, a[1]), r.f[0]))
        return r

    def ensures(self, c):
        ch = c.old(1)
        return [(f'centring of character {n}', implies(eq(ch, n), same_value(c.ret.f[0], self.prim[n]))) for n in ROWS]


class Applied(Called):
    fn = ApplyTransformation.fn
    small = ('tolerance positive',)

    def needs(self, eng, st, a):
        s, t, tol = (eng.deref_all(st, x) for x in a)
        return [('one species and coordinate per site', well_formed(s)), ('tolerance positive', lt(Z, tol))] + edge_tols(mat_mul(s.f[LAT], t), tol)

    def result(self, eng, st, a, body):
        ref = base_ref(eng, st, a[0])
        s, t = eng.read(st, ref), eng.deref_all(st, a[1])
        new = fresh_structure(s.ty, mat_mul(s.f[LAT], t))
        eng.write(st, ref, new)
        st.log.append(('applied', s, t, new, eng.deref_all(st, a[2])))
        return VStruct(None, ())

    def ensures(self, c):
        new = c.new(0)
        return [('one species and coordinate per site', well_formed(new)), ('not singular', invertible(c.old(1)))]


class Standard(Spec):
    """Lattice of the standard conventional (or primitive) structure."""
    panic_ok = True

    def __init__(self, prim, tabs):
        self.prim, (self.conv, self.cen) = prim, tabs
        self.fn = 'SymmetryAnalyzer::get_standard_' + ('primitive' if prim else 'conventional') + '_structure'
        self.uses = (FindPrimitive(), Reduced(), Conventional(self.conv), Centring(self.cen), Applied())

    def requires(self, eng, st, a):
        s = eng.deref_all(st, a[1])
        return [('lattice is not singular', invertible(s.f[LAT])), ('one species and coordinate per site', well_formed(s)), ('tolerance positive', lt(Z, eng.deref_all(st, a[0]).f[0])),
                ('at least one site and at most 65535', and_(lt(0, s.f[FRAC].n), le(s.f[FRAC].n, 65535)))]

    def one(self, c, kind):
        xs = [x for x in c.st.log if x[0] == kind]
        if len(xs) != 1:
            raise Unsupported(f'not one call: {kind}')
        return xs[0]

    def ensures(self, c):
        s, dtol = c.old(1), c.old(0).f[0]
        p, r, v = (self.one(c, k) for k in ('primitive', 'reduced', 'conventional'))
        L, ch, new = p[2].f[LAT], v[3], c.ret
        out = [('the primitive cell is that of the structure passed in', p[1] is s or same_structure(p[1], s)), ('found with the tolerance of the analyzer', eq(p[3], dtol)),
               ('the reduced cell is that of the primitive one', p[2] is r[1] or same_structure(p[2], r[1])),
               ('the character is that of the reduced cell', same_value(v[1].f[LAT], r[2].f[LAT]))]
        yield from out
        rl = r[2].f[LAT]
        mats = [a[2] for a in c.st.log if a[0] == 'applied']
        if len(mats) != 1 + self.prim:
            raise Unsupported('other number of basis changes')
        for n in ROWS:
            yield (f'character {n}: the bases applied are the tabulated ones', implies(eq(ch, n), and_(*[same_value(m, w) for m, w in zip(mats, (self.conv[n], self.cen[n]))])))
        d, m = det3(L), rl
        for t in mats:
            DETPROD.use(c.eng, c.st, *m.d, *t.d)
            d, m = mul(d, det3(t)), mat_mul(m, t)
        if len(mats) == 2:
            CONG.use(c.eng, c.st, det3(mat_mul(rl, mats[0])), mul(det3(rl), det3(mats[0])), det3(mats[1]))
            CONG.use(c.eng, c.st, mul(det3(rl), det3(mats[0])), mul(det3(L), det3(mats[0])), det3(mats[1]))
        CONG.use(c.eng, c.st, det3(rl), det3(L), det3(mats[0]))
        yield ('lattice is the reduced one times the bases applied', same_value(new.f[LAT], m))
        yield ('signed volume is that of the primitive cell times the determinants of the bases applied', eq(det3(new.f[LAT]), d))


def same_structure(a, b):
    return and_(same_value(a.f[LAT], b.f[LAT]), eq(a.f[FRAC].n, b.f[FRAC].n))


def build(V):
    got = {}

    def run(eng, o):
        b, conv = table(V, eng, 'LATTICE_CHAR_TO_CONV_TRANS')
        prim = table(V, eng, 'CENTERING_TO_PRIM_TRANS')[1]
        got['conv'] = {n: VMat(3, 3, [Fraction(conc(x)) for x in transpose(conv.d[n][1]).d]) for n in ROWS}
        name = lambda k: eng.prog.ty(k.ty)['variants'][conc(k.d)]['name']
        cens = {name(k): m for k, m in prim.d.values()}
        got['cen'] = {}
        for n in ROWS:
            m = cens[CHARACTERS[n - 1][1]]
            got['cen'][n] = VMat(3, 3, [Fraction(conc(m.at(i, j)), conc(m.at(3, 3))) for j in range(3) for i in range(3)])
            t = got['conv'][n]
            for what, m, k in (('conventional', t, MULTIPLICITY[CHARACTERS[n - 1][1]]), ('primitive', mat_mul(t, got['cen'][n]), 1)):
                eng.oblige(State(), 'ensures', all(e.denominator == 1 for e in m.d), b.name, b.line, name=f'character {n}: {what} vectors are integral combinations of the reduced ones')
                eng.oblige(State(), 'ensures', det3(m) == k, b.name, b.line, name=f'character {n}: {what} cell has {k} times the volume of the reduced one')
    V.task('tabulated bases', 'LATTICE_CHAR_TO_CONV_TRANS', run)
    if got:
        for prim in (False, True):
            V.spec(Standard(prim, (got['conv'], got['cen'])))
