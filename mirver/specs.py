"""Contracts of the functions of the crate, shared by the property checks (used at their definition as proof
obligations and at their call sites as facts)."""
from .vals import *
from .engine import QFact, LostAnchor
from .verify import Spec, Everywhere


def between(lo, x, hi):
    return and_(le(lo, x), le(x, hi))


def in_range(k, n):
    return and_(le(0, k), lt(k, n))


def is_int(x):
    """The real x is an integer."""
    c = conc(x)
    if c is not None:
        return Fraction(c).denominator == 1
    return z3.IsInt(zr(x))


def same_value(a, b):
    from .models import val_eq
    return val_eq(a, b)


# ---- sequences in loop invariants ---

def congruent(x, y):
    return and_(*[is_int(sub(a, b)) for a, b in zip(x.d, y.d)])


def each(name, rel, *seqs):
    """rel(k, elements k) for all k; the elements just pushed are taken separately."""
    out = []
    while all(isinstance(s, PSeq) for s in seqs):
        out.append((name + ' (new element)', rel(seqs[0].base.n, *[s.v for s in seqs])))
        seqs = [s.base for s in seqs]
    return out + [(name, QFact(1, lambda k: implies(in_range(k, seqs[0].n), rel(k, *[s.get(k) for s in seqs]))))]


def pairs(name, seq, rel):
    """rel(earlier, later element) for all pairs."""
    out = []
    while isinstance(seq, PSeq):
        out.append((name + ' (new element)', QFact(1, lambda k, b=seq.base, v=seq.v: implies(in_range(k, b.n), rel(b.get(k), v)))))
        seq = seq.base
    return out + [(name, QFact(2, lambda a, b: implies(and_(in_range(b, seq.n), in_range(a, b)), rel(seq.get(a), seq.get(b)))))]


# ---- utils ------------------------------------------------------------------------------------

def wrap_facts(old, new, tol):
    """One component before and after wrapping."""
    return [('changes by an integer', is_int(sub(new, old))), ('not below minus the tolerance', le(neg(tol), new)),
            ('not above one minus the tolerance', le(new, sub(Fraction(1), tol)))]


class NormalizeFracVectors(Spec):
    fn = 'utils::normalize_frac_vectors'

    def requires(self, eng, st, a):
        t = eng.deref_all(st, a[1])
        return [(f'tolerance {i} in [0,1/2)', and_(le(Fraction(0), t.d[i]), lt(t.d[i], Fraction(1, 2)))) for i in range(3)]

    def ensures(self, c):
        old, new, tol = c.old(0), c.new(0), c.old(1)
        out = [('number of vectors kept', eq(old.n, new.n))]
        if conc(old.n) is not None and conc(new.n) == conc(old.n):
            return out + [(f'vector {k}, component {i}: {nm}', g) for k in range(conc(old.n)) for i in range(3) for nm, g in wrap_facts(
                old.get(k).d[i], new.get(k).d[i], tol.d[i])]
        for i in range(3):
            for w in range(3):
                out.append((f'component {i}: ' + wrap_facts(0, 0, 0)[w][0], QFact(1, lambda k, i=i, w=w: implies(
                    in_range(k, old.n), wrap_facts(old.get(k).d[i], new.get(k).d[i], tol.d[i])[w][1]))))
        return out

    def result(self, eng, st, a, body):
        old = eng.deref_all(st, a[0])
        new = fresh_vecs(old.n, 'wrapped')
        if conc(old.n) is not None:
            new = CSeq([VMat(3, 1, [fresh_real('wrapped') for _ in range(3)]) for _ in range(conc(old.n))])
        eng.write(st, base_ref(eng, st, a[0]), new)
        return VStruct(None, ())


class CustEq(Spec):
    fn = 'utils::cust_eq'

    def requires(self, eng, st, a):
        return [('tolerance not negative', le(Fraction(0), eng.deref_all(st, a[2])))]

    @staticmethod
    def holds(a, b, eps):
        return le(absv(sub(a, b)), eps)

    def ensures(self, c):
        return [('true exactly when the distance does not exceed the tolerance', eq(c.ret, self.holds(c.old(0), c.old(1), c.old(2))))]


class ApproxEqual(Spec):
    fn = 'utils::approx_equal'

    def ensures(self, c):
        return [('true exactly when the distance is below the tolerance', eq(c.ret, lt(absv(sub(c.old(0), c.old(1))), c.old(2))))]


class CompareMatrices(Spec):
    fn = 'utils::compare_matrices'

    def requires(self, eng, st, a):
        t = eng.deref_all(st, a[2])
        return [('nine tolerances', le(9, t.n))] + [(f'tolerance {i} not negative', le(Fraction(0), t.get(i))) for i in range(9)]

    def ensures(self, c):
        a, b, t = c.old(0), c.old(1), c.old(2)
        return [('true exactly when every entry is within its tolerance', eq(c.ret, and_(*[le(absv(sub(x, y)), t.get(i)) for i, (x, y) in enumerate(zip(a.d, b.d))])))]


class IsApproxEq(Spec):
    fn = 'SymmOp::is_approx_eq'

    def requires(self, eng, st, a):
        t = eng.deref_all(st, a[2])
        return [(f'tolerance {i} in (0,1/2)', and_(lt(Fraction(0), t.d[i]), lt(t.d[i], Fraction(1, 2)))) for i in range(3)]

    @staticmethod
    def holds(p, q, tol):
        d = [sub(p.f[1].d[i], q.f[1].d[i]) for i in range(3)]
        return and_(same_value(p.f[0], q.f[0]), *[lt(absv(sub(d[i], to_real(fround(d[i])))), tol.d[i]) for i in range(3)])

    def ensures(self, c):
        return [('true exactly for equal rotations and translations equal up to lattice translations and tolerance',
                 eq(c.ret, self.holds(c.old(0), c.old(1), c.old(2))))]


def product(p, q):
    """q followed by p."""
    return VStruct(p.ty, [mat_mul(p.f[0], q.f[0]), mat_map2(add, mat_mul(mat_map(to_real, p.f[0]), q.f[1]), p.f[1])])


class Compose(Spec):
    fn = 'SymmOp::compose'
    BOUND = 6       # 3 * 6 * 6 <= 127

    def requires(self, eng, st, a):
        return [('rotation entries small', and_(*[between(-self.BOUND, x, self.BOUND) for i in (0, 1) for x in eng.deref_all(st, a[i]).f[0].d]))]

    def ensures(self, c):
        p, q = c.old(0), c.old(1)
        r = product(p, q)
        return [('rotation is the product', same_value(c.ret.f[0], r.f[0])), ('translation is R1 t2 + t1', same_value(c.ret.f[1], r.f[1]))]

    def result(self, eng, st, a, body):
        return product(eng.deref_all(st, a[0]), eng.deref_all(st, a[1]))


# ---- structures -------------------------------------------------------------------------------

LAT, SPEC, CART, FRAC = 0, 1, 2, 3        # fields of Structure


def base_ref(eng, st, ref):
    while isinstance(eng.read(st, ref), VRef):
        ref = eng.read(st, ref)
    return ref


def fresh_vecs(n, tag):
    nm = fresh_name(tag)
    fs = [z3.Function(f'{nm}[{i}]', I, R) for i in range(3)]
    return SSeq(n, lambda j: VMat(3, 1, [f(zi(j)) for f in fs]))


class GetCartCoords(Spec):
    fn = 'Structure::get_cart_coords'

    def ensures(self, c):
        m, x, y = c.old(0), c.old(1), c.val()
        return [('number of sites kept', eq(x.n, y.n)),
                ('site k is the lattice times the fractional coordinates of site k',
                 QFact(1, lambda k: implies(in_range(k, x.n), same_value(y.get(k), mat_mul(m, x.get(k))))))]

    def result(self, eng, st, a, body):
        m, x = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        if conc(x.n) is not None:
            return CSeq([mat_mul(m, x.get(k)) for k in range(conc(x.n))])
        return SSeq(x.n, lambda k: mat_mul(m, x.get(k)))


def invertible(m):
    return ne(det3(m), Fraction(0))


def in_basis(m, v):
    """m^-1 v: the w with m w = v (m not singular)."""
    return VMat(3, 1, [f(*[zr(x) for x in m.d], *[zr(x) for x in v.d]) for f in F_INV])


class GetFracCoords(Spec):
    fn = 'Structure::get_frac_coords'

    def requires(self, eng, st, a):
        return [('lattice is not singular', invertible(eng.deref_all(st, a[0])))]

    def ensures(self, c):
        m, x, y = c.old(0), c.old(1), c.val()
        return [('number of sites kept', eq(x.n, y.n)),
                ('the lattice times the result for site k is the Cartesian coordinates of site k',
                 QFact(1, lambda k: implies(in_range(k, x.n), same_value(mat_mul(m, y.get(k)), x.get(k)))))]

    def result(self, eng, st, a, body):
        # the one solution of lattice * w = x (unique by the precondition)
        m, x = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        f = lambda k: in_basis(m, x.get(k))
        n = conc(x.n)
        return CSeq([f(k) for k in range(n)]) if n is not None else SSeq(x.n, f)


class StructureNew(Spec):
    fn = 'Structure::new'
    uses = (GetCartCoords(), GetFracCoords())

    def result(self, eng, st, a, body):
        n = a[2].n
        return VStruct(body.locals[0], [a[0], a[1], fresh_vecs(n, 'cart'), fresh_vecs(n, 'frac')])

    def requires(self, eng, st, a):
        return [('lattice is not singular', invertible(a[0]))]

    def ensures(self, c):
        lat, spec, x, cart = c.args
        r = c.ret
        f, t = r.f[FRAC], r.f[CART]
        rng = lambda k, n: in_range(k, n)
        return [('lattice is the one passed in', same_value(r.f[LAT], lat)),
                ('number of species is the one passed in', eq(r.f[SPEC].n, spec.n)),
                ('species are those passed in, in order', QFact(1, lambda k: implies(rng(k, spec.n), same_value(r.f[SPEC].get(k), spec.get(k))))),
                ('number of sites is the one passed in', and_(eq(f.n, x.n), eq(t.n, x.n))),
                ('Cartesian coordinates are the lattice times the fractional ones', QFact(1, lambda k: implies(rng(k, x.n), same_value(t.get(k), mat_mul(lat, f.get(k)))))),
                ('coordinates passed in are stored unchanged', QFact(1, lambda k: implies(rng(k, x.n), same_value(vite(cart, t.get(k), f.get(k)), x.get(k)))))]


def well_formed(s):
    """One species and one fractional coordinate per site (Cartesian ones too)."""
    return and_(eq(s.f[SPEC].n, s.f[FRAC].n), eq(s.f[CART].n, s.f[FRAC].n))


def edge_tols(m, tol):
    """0 <= tol < half of every edge length, without dividing."""
    out = []
    for j in range(3):
        d = dot(m.col(j), m.col(j))
        out.append((f'tolerance below half of edge {j}', and_(le(Fraction(0), tol), lt(Fraction(0), d), lt(mul(4, mul(tol, tol)), d))))
    return out


class NormalizeCoords(Spec):
    """Sites become the wrapped old sites in stable species order; pi is the reordering (ghost)."""
    fn = 'Structure::normalize_coords'
    uses = (NormalizeFracVectors(), GetCartCoords())

    def requires(self, eng, st, a):
        s, tol = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        return [('one species and coordinate per site', well_formed(s))] + edge_tols(s.f[LAT], tol)

    def perm(self, c):
        ps = [x for x in c.st.log if x[0] == 'perm' and not any(x is y for y in c.entry.log)]
        if len(ps) != 1:
            raise Unsupported('not one sort')
        return ps[0][1], ps[0][2]

    def ensures(self, c):
        from .lemmas import SQ_LE
        old, new, tol = c.old(0), c.new(0), c.old(1)
        n = old.f[FRAC].n
        p, q = self.perm(c)
        P, Q = (lambda k: p(zi(k))), (lambda k: q(zi(k)))
        of, nf, nc = old.f[FRAC], new.f[FRAC], new.f[CART]
        os, ns = old.f[SPEC], new.f[SPEC]
        m = old.f[LAT]
        lens = [fsqrt(dot(m.col(j), m.col(j))) for j in range(3)]
        out = [('lattice kept', same_value(m, new.f[LAT])), ('number of sites kept', and_(eq(ns.n, n), eq(nf.n, n), eq(nc.n, n))),
               ('every old site occurs exactly once', QFact(1, lambda k: implies(in_range(k, n), and_(
                   in_range(P(k), n), in_range(Q(k), n), eq(Q(P(k)), k), eq(P(Q(k)), k))))),
               ('species travel with their sites', QFact(1, lambda k: implies(in_range(k, n), same_value(ns.get(k), os.get(P(k))))))]
        for i in range(3):
            out += [(f'component {i} moved by whole lattice vectors', QFact(1, lambda k, i=i: implies(in_range(k, n), is_int(sub(nf.get(k).d[i], of.get(P(k)).d[i]))))),
                    (f'component {i} in the cell', QFact(1, lambda k, i=i: implies(in_range(k, n), and_(
                        le(neg(tol), mul(nf.get(k).d[i], lens[i])), le(mul(nf.get(k).d[i], lens[i]), sub(lens[i], tol))))))]
        out += [('Cartesian coordinates belong to the fractional ones', QFact(1, lambda k: implies(in_range(k, n), same_value(nc.get(k), mat_mul(m, nf.get(k)))))),
                ('species ascending, original order kept within a species', QFact(2, lambda a, b: implies(and_(in_range(a, n), in_range(b, n), lt(a, b)), and_(
                    le(ns.get(a).t, ns.get(b).t), implies(same_value(ns.get(a), ns.get(b)), lt(P(a), P(b)))))))]
        return out

    def result(self, eng, st, a, body):
        ref = base_ref(eng, st, a[0])
        s = eng.read(st, ref)
        n = s.f[FRAC].n
        nm = fresh_name('order')
        st.log.append(('perm', z3.Function(nm + '.p', I, I), z3.Function(nm + '.q', I, I), n))
        sp = z3.Function(fresh_name('species'), I, I)
        eng.write(st, ref, VStruct(s.ty, [s.f[LAT], SSeq(n, lambda j: SStr(sp(zi(j)))), fresh_vecs(n, 'cart'), fresh_vecs(n, 'frac')]))
        return VStruct(None, ())


def same_sites(old, new, P, Q):
    """The sites of new are those of old modulo the lattice of new: one for one, with their species."""
    n, m = old.f[FRAC].n, new.f[LAT]
    nf = new.f[FRAC]
    out = [('number of sites kept', and_(eq(new.f[SPEC].n, n), eq(nf.n, n), eq(new.f[CART].n, n))),
           ('every site of the input occurs exactly once', QFact(1, lambda k: implies(in_range(k, n), and_(
               in_range(P(k), n), in_range(Q(k), n), eq(Q(P(k)), k), eq(P(Q(k)), k))))),
           ('species travel with their sites', QFact(1, lambda k: implies(in_range(k, n), same_value(new.f[SPEC].get(k), old.f[SPEC].get(P(k)))))),
           ('Cartesian coordinates belong to the fractional ones', QFact(1, lambda k: implies(in_range(k, n), same_value(new.f[CART].get(k), mat_mul(m, nf.get(k))))))]
    for i in range(3):
        out.append((f'component {i}: position of the input in the new basis up to whole lattice vectors', QFact(1, lambda k, i=i: implies(in_range(k, n), is_int(
            sub(nf.get(k).d[i], in_basis(m, old.f[CART].get(P(k))).d[i]))))))
    return out


def last_perm(c):
    ps = [x for x in c.st.log if x[0] == 'perm' and not any(x is y for y in c.entry.log)]
    if len(ps) != 1:
        raise Unsupported('not one reordering of the sites')
    p, q = ps[0][1], ps[0][2]
    return (lambda k: p(zi(k))), (lambda k: q(zi(k)))


def longer_than(m, tol):
    """The lattice vector m u is longer than twice the tolerance if u is integral and not zero."""
    def f(*u):
        w = mat_mul(m, VMat(3, 1, list(u)))
        return implies(and_(or_(*[ne(x, Fraction(0)) for x in u]), *[is_int(x) for x in u]), lt(mul(4, mul(tol, tol)), dot(w, w)))
    return f
