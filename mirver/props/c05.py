"""C05: change of basis of a structure."""
from ..vals import *
from ..engine import QFact
from ..models import VIter
from ..specs import *
from ..invloop import LoopInv
from ..lemmas import *
from ..verify import cut

INFO = {
    'level': 'other',
    'note': 'apply_transformation is proved for every structure, every matrix and any number of rounds of its search: lattice, '
            'refusal of a singular matrix, origin and species of every site, separation of the sites, at least |det T| times as many sites.',
    'bounded': ['at most |det T| times as many sites', 'every original site is represented', 'rounding of f64'],
    'assumptions': [
        'The tolerance is positive and below half of every edge of the new cell.',
        'The round counter of the search stays in the range of i32; that the search ends is not proved.',
        'T^-1 is the exact inverse.',
    ],
}
Z = Fraction(0)


class Found(LoopInv):
    """Sites collected so far (all three nested loops)."""
    label = 'sites found'
    nested = True

    def __init__(self, spec):
        self.spec = spec

    def roles(self, eng, fr, st, mods):
        self.body = fr.body
        f, s = [], []
        self.rounds = not any(isinstance(v, VIter) for v in mods.values())      # the outermost loop
        for k, v in mods.items():
            if not isinstance(v, Seq):
                continue
            new = self.changed[k][0]
            e = new.get(sub(new.n, 1))
            if isinstance(e, VMat):
                f.append(k)
            elif isinstance(e, (SStr, str)):
                s.append(k)
        return {'F': f[0], 'S': s[0]} if len(f) == 1 and len(s) == 1 else None

    def fresh(self, eng, st, vals, role):
        if role == 'F':
            n = fresh_int('found')
            st.assume(le(0, n))
            return fresh_vecs(n, 'found')
        sp = z3.Function(fresh_name('species'), I, I)
        return SSeq(vals['F'].n, lambda j: SStr(sp(zi(j))))

    def inv(self, eng, st, v):
        f, s = v['F'], v['S']
        if conc(f.n) == 0:
            return [('as many species as sites', eq(f.n, s.n))]
        self.spec.witness(st, s, f)
        return [('as many species as sites', eq(f.n, s.n)),
                ] + each('every site is an original one moved by lattice vectors', lambda k, x, y: self.spec.site(x, y), s, f) + \
            pairs('no two sites are congruent', f, lambda x, y: not_(congruent(x, y)))


    def exit(self, eng, st, v):
        st.log.append(('found', v))
        if self.rounds:
            return [('enough sites', le(sub(self.spec.need(), Fraction(1, 50)), to_real(v['F'].n)))]
        return []


class ApplyTransformation(Spec):
    fn = 'Structure::apply_transformation'
    uses = (NormalizeFracVectors(), GetCartCoords(), NormalizeCoords())

    def parts(self, eng, st, a):
        return [eng.deref_all(st, x) for x in a]

    def requires(self, eng, st, a):
        s, t, tol = self.parts(eng, st, a)
        self.s, self.t, self.tol = s, t, tol
        return [('one species and coordinate per site', well_formed(s)), ('tolerance positive', lt(Z, tol))] + edge_tols(mat_mul(s.f[LAT], t), tol)

    def panic_ok(self, eng, st, a):
        return eq(det3(self.parts(eng, st, a)[1]), Z)

    def prepare(self, eng):
        self.SITE = z3.Function(fresh_name('Site'), I, R, R, R, B)
        eng.loop_hook = Found(self)
        eng.split_values = lambda fr: fr.body.name.endswith('apply_transformation')
        eng.hints.append(self.hint)
        eng.counter_ok = lambda fr, msg: fr.body.name.endswith('apply_transformation') and 'verflow' in str(msg)

    def hint(self, spec, eng, st, a):
        if isinstance(spec, NormalizeFracVectors):
            m = mat_mul(self.s.f[LAT], self.t)
            for j in range(3):
                d = dot(m.col(j), m.col(j))
                SHARE.use(eng, st, self.tol, fsqrt(d), d)
        if isinstance(spec, GetCartCoords):
            m, x = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
            if conc(x.n) == 1:
                ZEROLEN.use(eng, st, *m.d, *x.get(0).d)

    def site(self, sp, x):
        return self.SITE(zi(sp.t), *[zr(y) for y in x.d])

    def need(self):
        return mul(to_real(self.s.f[CART].n), absv(det3(self.t)))

    def witness(self, st, s, f):
        """Instance of the closure of Site for an element just pushed: source site and position read off its terms."""
        if not (isinstance(f, PSeq) and isinstance(s, PSeq) and isinstance(s.v, SStr)):
            return
        x, sp = f.v.d[0], s.v.t
        if not (is_z(x) and is_z(sp) and x.num_args() == 12 and x.decl().eq(F_INV[0]) and sp.num_args() == 1):
            return
        k, y = sp.arg(0), VMat(3, 1, [x.arg(9 + i) for i in range(3)])
        st.assume(self.closure(k, y))

    def closure(self, k, y):
        """Site holds for the species of site k at T^-1 y if y is site k moved by whole vectors of the old lattice."""
        s, t = self.s, self.t
        return implies(and_(in_range(k, s.f[FRAC].n), congruent(y, s.f[FRAC].get(k))), self.site(s.f[SPEC].get(k), in_basis(t, y)))

    def ensures(self, c):
        s, t, tol = self.parts(c.eng, c.entry, c.args)
        new = c.new(0)
        f, sp, m = new.f[FRAC], new.f[SPEC], mat_mul(s.f[LAT], t)
        # Final: Site moved by whole vectors of the new lattice
        final = z3.Function(fresh_name('Final'), I, R, R, R, B)
        P, Q = last_perm(c)
        found = [x[1] for x in c.st.log if x[0] == 'found'][-1]
        F, S = found['F'], found['S']
        c.st.facts.append(QFact(1, lambda k: implies(and_(self.site(S.get(P(k)), F.get(P(k))), congruent(f.get(k), F.get(P(k)))), final(
            S.get(P(k)).t, *[zr(x) for x in f.get(k).d]))))
        c.st.facts.append(QFact(2, lambda a, b: and_(*[INTDIFF.inst(c.eng, f.get(a).d[i], F.get(P(a)).d[i], f.get(b).d[i], F.get(P(b)).d[i]) for i in range(3)])))
        return [('lattice multiplied from the right', same_value(new.f[LAT], m)),
                ('a singular matrix is refused', invertible(t)),
                ('one species and coordinate per site', well_formed(new)),
                ('every site is an original one of the same species moved by lattice vectors of the old or new cell',
                 QFact(1, lambda k: implies(in_range(k, f.n), final(sp.get(k).t, *[zr(x) for x in f.get(k).d])))),
                ('no two sites coincide', QFact(2, lambda a, b: implies(and_(in_range(b, f.n), in_range(a, f.n), ne(a, b)), not_(congruent(f.get(a), f.get(b)))))),
                ('at least |det T| times the number of sites', le(sub(self.need(), Fraction(1, 50)), to_real(f.n))),
                ('Cartesian coordinates belong to the fractional ones', QFact(1, lambda k: implies(in_range(k, f.n), same_value(new.f[CART].get(k), mat_mul(m, f.get(k))))))]


def build(V):
    V.spec(ApplyTransformation())
