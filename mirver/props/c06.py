"""C06: the primitive cell."""
from ..vals import *
from ..engine import QFact
from ..specs import *
from ..lemmas import *
from ..invloop import LoopInv, Loops, Some
from ..models import VIter
from .c17 import MinElement

INFO = {
    'level': 'exploration',
    'note': 'Proved for every structure: the cell found is right-handed and not larger than the one passed in by more than a tenth, every site of the result '
            'is one of the sites passed in with its species, moved by whole vectors of the old and of the new lattice, and the vectors of the cell are three '
            'of those offered that span the volume asked for within a tenth. That the vectors offered are the translations of the crystal, and that no site '
            'is lost or kept twice, is checked on inputs only.',
    'bounded': ['find_primitive_cell: every candidate vector accepted is a translation of the crystal, no translation is missed, sites are folded one for one (companion)',
                'rounding of f64'],
    'assumptions': ['at least one and at most 65535 sites, edges longer than twice the tolerance, tolerance positive, lattice not singular (preconditions)'],
}
Z = Fraction(0)
WHOLE = Lemma('a whole number is wrapped to zero', 3, lambda old, new, tol: implies(and_(isint(old), isint(sub(new, old)), lt(Z, tol), lt(tol, Fraction(1, 2)), le(neg(tol), new), le(new, sub(Fraction(1), tol))), eq(new, Z)))

SHRINK = Lemma('dividing by one or more does not enlarge', 2, lambda v, k: implies(and_(le(Z, v), le(Fraction(1), k)), le(fdiv(v, k), v)))


class ShortestVectors(Spec):
    """Three of the given vectors (the last possibly reversed) that span a right-handed cell of about the given volume."""
    fn = 'Reducer::get_shortest_translation_vecs'
    panic_ok = True
    IN = None

    def requires(self, eng, st, a):
        v = eng.deref_all(st, a[1])
        self.IN = z3.Function(fresh_name('Given'), R, R, R, B)
        st.facts.append(QFact(1, lambda k: implies(in_range(k, v.n), self.given(v.get(k)))))
        return [('volume positive', lt(Z, a[2]))]

    def given(self, v):
        return self.IN(*[zr(x) for x in v.d])

    def ensures(self, c):
        vol, r = c.args[2], c.val()
        m = VMat(3, 3, [x for k in range(3) for x in r.get(k).d])
        back = VMat(3, 1, [neg(x) for x in r.get(2).d])
        return [(f'vector {k} is a given one', self.given(r.get(k))) for k in range(2)] + [
                ('vector 2 is a given one or the negative of one', or_(self.given(r.get(2)), self.given(back))), ('three vectors', eq(r.n, 3)), ('right-handed', lt(Z, det3(m))),
                ('volume not more than a tenth away', and_(lt(mul(Fraction(89, 100), vol), det3(m)), lt(det3(m), mul(Fraction(111, 100), vol))))]


class Selected(ShortestVectors):
    """As the caller sees it: the list is reordered, the result are three vectors."""
    def result(self, eng, st, a, body):
        ref = base_ref(eng, st, a[1])
        eng.write(st, ref, fresh_vecs(eng.read(st, ref).n, 'ordered'))
        r = CSeq([VMat(3, 1, [fresh_real('vector') for _ in range(3)]) for _ in range(3)])
        st.log.append(('selected', a[2], r))
        return r


class AnyTolerance(NormalizeFracVectors):
    """Without a bound on the tolerance the number of vectors is kept; within the bound the full contract holds."""
    @property
    def label(self):
        return self.fn + ' (any tolerance)'

    def requires(self, eng, st, a):
        return []

    def ensures(self, c):
        ok = and_(*[g for _, g in super().requires(c.eng, c.entry, c.args)])
        for nm, g in super().ensures(c):
            yield nm, g if nm == 'number of vectors kept' or nm.endswith('changes by an integer') else QFact(g.arity, lambda *k, g=g: implies(ok, g.fn(*k))) if isinstance(g, QFact) else implies(ok, g)


class Normalized(NormalizeCoords):
    """Without a bound on the tolerance: everything but which representative of a site is chosen."""
    uses = (AnyTolerance(), GetCartCoords())

    @property
    def label(self):
        return self.fn + ' (any tolerance)'

    def requires(self, eng, st, a):
        s = eng.deref_all(st, a[0])
        return [('one species and coordinate per site', well_formed(s)), ('lattice is not singular', invertible(s.f[LAT]))]

    def ensures(self, c):
        return [x for x in super().ensures(c) if not x[0].endswith('in the cell') and not x[0].startswith('species ascending')]


class Collected(LoopInv):
    """Loops that collect vectors: nothing is said about them but their number."""
    label = 'vectors collected'
    nested = True

    def __init__(self, spec):
        self.spec = spec

    def roles(self, eng, fr, st, mods):
        v = [k for k, x in mods.items() if isinstance(x, Seq)]
        its = [k for k, x in mods.items() if isinstance(x, VIter)]
        if len(v) != 1 or len(its) != 1:
            return None
        new = self.changed[v[0]][0]
        self.first = mods[v[0]].xs if isinstance(mods[v[0]], CSeq) else []
        return {'V': v[0], 'P': its[0]} if isinstance(new.get(sub(new.n, 1)), VMat) else None

    def fresh(self, eng, st, vals, role):
        if role == 'V':
            n = fresh_int('vectors')
            st.assume(le(0, n))
            return fresh_vecs(n, 'vector')

    def inv(self, eng, st, v):
        f, p = self.first, v['P'].pos
        out = [('none of the first is lost', and_(le(len(f), v['V'].n), *[same_value(v['V'].get(k), x) for k, x in enumerate(f)]))]
        out.append(('at most three a round', le(v['V'].n, add(len(f), mul(3, p)))))
        return out if f else out + [('the first three are taken', or_(le(3, v['V'].n), le(p, v['V'].n)))]

    def exit(self, eng, st, v):
        return [('all were seen', eq(v['P'].pos, v['P'].src.n))]


class Folded(LoopInv):
    """Sites kept so far."""
    label = 'sites kept'
    nested = True

    def __init__(self, spec):
        self.spec = spec

    def roles(self, eng, fr, st, mods):
        its = [k for k, x in mods.items() if isinstance(x, VIter)]
        f, s = [], []
        for k, v in mods.items():
            if isinstance(v, Seq):
                new = self.changed[k][0]
                e = new.get(sub(new.n, 1))
                (f if isinstance(e, VMat) else s if isinstance(e, (SStr, str)) else []).append(k)
        if not len(f) == len(s) == len(its) == 1:
            return None
        self.spec.source = None
        return {'F': f[0], 'S': s[0], 'P': its[0]}

    def fresh(self, eng, st, vals, role):
        if role == 'F':
            n = fresh_int('kept')
            st.assume(le(0, n))
            return fresh_vecs(n, 'kept')
        if role == 'S':
            sp = z3.Function(fresh_name('species'), I, I)
            return SSeq(vals['F'].n, lambda j: SStr(sp(zi(j))))

    def inv(self, eng, st, v):
        f, s, p = v['F'], v['S'], v['P'].pos
        out = [('as many species as sites', eq(f.n, s.n))]
        if conc(f.n) == 0:
            return out
        (m, x), sp, old = self.spec.cell, self.spec.temp.f[SPEC], self.spec.source
        return out + [('every site comes from one seen', Some(1, lambda j, w: implies(in_range(j, f.n), and_(
            in_range(w, p), same_value(s.get(j), sp.get(w)), same_value(f.get(j), in_basis(m, x.get(w))))),
            lambda j: ([old(j)] if old else []) + [sub(p, 1)], self.keep))]

    def keep(self, w):
        self.spec.source = w


class FindPrimitive(Spec):
    fn = 'Reducer::find_primitive_cell'
    uses = (AnyTolerance(), GetCartCoords(), GetFracCoords(), StructureNew(), Normalized(), MinElement(), Selected())

    def requires(self, eng, st, a):
        s, self.tol = eng.deref_all(st, a[1]), eng.deref_all(st, a[0]).f[0]
        self.s = s
        return [('lattice is not singular', invertible(s.f[LAT])), ('one species and coordinate per site', well_formed(s)), ('tolerance positive', lt(Z, self.tol)),
                ('at least one site and at most 65535', and_(lt(0, s.f[FRAC].n), le(s.f[FRAC].n, 65535)))] + edge_tols(s.f[LAT], self.tol)

    def prepare(self, eng):
        eng.loop_hook = Loops(Folded(self), Collected(self))
        eng.split_values = lambda fr: fr.body.name.endswith('find_primitive_cell')
        eng.hints.append(self.hint)

    def hint(self, spec, eng, st, a):
        if isinstance(spec, MinElement):
            m = self.s.f[LAT]
            for j in range(3):
                d = dot(m.col(j), m.col(j))
                SHARE.use(eng, st, self.tol, fsqrt(d), d)
            self.temp = eng.deref_all(st, a[0])
        if isinstance(spec, GetFracCoords):
            self.cell = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        if isinstance(spec, AnyTolerance):
            self.before = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        if isinstance(spec, GetCartCoords):
            m, x = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
            if conc(x.n) == 1:
                ZEROLEN.use(eng, st, *m.d, *x.get(0).d)
                old, tol = self.before
                for i in range(3):
                    WHOLE.use(eng, st, old.get(0).d[i], x.get(0).d[i], tol.d[i])

    def ensures(self, c):
        new, s, t = c.ret, self.s, self.temp
        p1, p2 = [x[1] for x in c.st.log if x[0] == 'perm']
        W = lambda k: self.source(p2(zi(k)))
        U = lambda k: p1(zi(W(k)))
        n = new.f[FRAC].n
        yield 'right-handed', lt(Z, det3(new.f[LAT]))
        for x in c.st.log:
            if x[0] == 'selected' and is_z(x[1]) and x[1].num_args() == 2:
                SHRINK.use(c.eng, c.st, *x[1].children())
        yield 'not larger than the cell passed in by more than a tenth', lt(det3(new.f[LAT]), mul(Fraction(111, 100), absv(det3(s.f[LAT]))))
        yield 'one species and coordinate per site', well_formed(new)
        yield 'every site has the species of one of the sites passed in', QFact(1, lambda k: implies(in_range(k, n), and_(
            in_range(U(k), s.f[FRAC].n), same_value(new.f[SPEC].get(k), s.f[SPEC].get(U(k))))))
        yield 'which was moved', QFact(1, lambda k: implies(in_range(k, n), same_value(t.f[CART].get(W(k)), mat_mul(s.f[LAT], t.f[FRAC].get(W(k))))))
        for i in range(3):
            yield f'component {i}: by whole vectors of the lattice passed in', QFact(1, lambda k, i=i: implies(in_range(k, n), is_int(
                sub(t.f[FRAC].get(W(k)).d[i], s.f[FRAC].get(U(k)).d[i]))))
            yield f'component {i}: and whole vectors of the new lattice', QFact(1, lambda k, i=i: implies(in_range(k, n), is_int(
                sub(new.f[FRAC].get(k).d[i], in_basis(new.f[LAT], t.f[CART].get(W(k))).d[i]))))
        yield 'Cartesian coordinates belong to the fractional ones', QFact(1, lambda k: implies(in_range(k, n), same_value(new.f[CART].get(k), mat_mul(new.f[LAT], new.f[FRAC].get(k)))))


def build(V):
    V.spec(ShortestVectors())
    V.spec(MinElement())
    V.spec(AnyTolerance())
    V.spec(Normalized())
    V.spec(FindPrimitive())
