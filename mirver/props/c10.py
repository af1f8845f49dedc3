"""C10: the operations generated from a list of generators."""
from ..vals import *
from ..engine import QFact, State
from ..models import VIter
from ..specs import *
from ..invloop import LoopInv, Loops, Some
from ..lemmas import *
from .c01 import SymmOpNormalize

INFO = {
    'level': 'proof',
    'note': 'from_generators is proved for any number of generators and rounds: the generators come first, every operation belongs to every set of '
            'operations with small rotation entries that contains the generators and is closed under composition and lattice translations (so to '
            'the smallest, the products of generators), no operation beyond the generators is repeated, and each generator after any operation '
            'gives one of the operations. Closure under all products follows by taking for that set the operations a with a b among the result '
            'for all b of the result; that this set is closed under composition is the associativity obligation, provided operations equal '
            'within tolerance are equal up to lattice translations.',
    'bounded': ['closure when operations equal within tolerance are not equal up to lattice translations (tolerances add up)', 'rounding of f64'],
    'assumptions': [
        'The rotation entries of the generated group are at most 6 in magnitude (true for every space group in a cell of its lattice type).',
        'Tolerances lie strictly between 0 and 1/2. That the generation ends is not proved.',
    ],
}


# Names for the parts of a product and for "equal up to whole numbers and tolerance", so that the loops are argued about without
# their arithmetic; what is needed of it are the lemmas.
P_ROT = [z3.Function(f'product.r[{i}]', *[I] * 18, I) for i in range(9)]
P_TR = [z3.Function(f'product.t[{i}]', *[I] * 9, *[R] * 6, R) for i in range(3)]
NEAR = z3.Function('near', R, R, R, B)


def named(lemma, eng, *x):
    """Instance of a lemma about near, with near by its name."""
    return z3.substitute(zb(lemma.inst(eng, *x)), *[(near(zr(a), zr(b), zr(x[-1])), NEAR(zr(a), zr(b), zr(x[-1]))) for a in x[:-1] for b in x[:-1] if a is not b])


compose = product


def product(p, q):
    r, t = [zi(x) for x in p.f[0].d], [zr(x) for x in p.f[1].d]
    r2, t2 = [zi(x) for x in q.f[0].d], [zr(x) for x in q.f[1].d]
    return VStruct(p.ty, [VMat(3, 3, [f(*r, *r2) for f in P_ROT]), VMat(3, 1, [f(*r, *t, *t2) for f in P_TR])])


class NamedCompose(Compose):
    """Compose at its call site, the parts of the product by their names."""
    def result(self, eng, st, a, body):
        return product(eng.deref_all(st, a[0]), eng.deref_all(st, a[1]))

    def ensures(self, c):
        return []


class NamedApproxEq(IsApproxEq):
    """IsApproxEq at its call site, nearness by its name."""
    @staticmethod
    def holds(p, q, tol):
        return and_(same_value(p.f[0], q.f[0]), *[NEAR(zr(p.f[1].d[i]), zr(q.f[1].d[i]), zr(tol.d[i])) for i in range(3)])


def same_op(p, q):
    return and_(same_value(p.f[0], q.f[0]), same_value(p.f[1], q.f[1]))


def fresh_ops(ty, n, tag):
    nm = fresh_name(tag)
    r = [z3.Function(f'{nm}.r[{i}]', I, I) for i in range(9)]
    t = [z3.Function(f'{nm}.t[{i}]', I, R) for i in range(3)]
    return SSeq(n, lambda j: VStruct(ty, [VMat(3, 3, [f(zi(j)) for f in r]), VMat(3, 1, [f(zi(j)) for f in t])]))


class Ops(LoopInv):
    rep = off = None

    def __init__(self, spec):
        self.spec = spec

    def common(self, st, s):
        sp = self.spec
        sp.moved(st, s)
        return each('every operation is a product of generators', lambda k, x: sp.member(x), s) + \
            repeated('no operation is repeated', s, sp.g.n, lambda x, y: not_(NamedApproxEq.holds(x, y, sp.tol)))


def repeated(name, seq, first, rel):
    """rel(earlier, later) for all pairs whose later element is not among the first ones."""
    out = []
    while isinstance(seq, PSeq):
        out.append((name + ' (new element)', QFact(1, lambda k, b=seq.base, v=seq.v: implies(in_range(k, b.n), rel(b.get(k), v)))))
        seq = seq.base
    return out + [(name, QFact(2, lambda a, b: implies(and_(le(first, b), in_range(b, seq.n), in_range(a, b)), rel(seq.get(a), seq.get(b)))))]


def seqs(mods):
    return {k: v for k, v in mods.items() if isinstance(v, Seq)}


class Pairs(Ops):
    """The inner loop: S grows by the operations collected in N; every pair so far has its product among S."""
    label = 'products'
    nested = True

    def roles(self, eng, fr, st, mods):
        q = seqs(mods)
        self.it = [k for k, v in mods.items() if isinstance(v, VIter)]
        new = [k for k, v in q.items() if conc(v.n) == 0]
        if len(q) != 2 or len(new) != 1 or len(self.it) != 1:
            return None
        s = [k for k in q if k != new[0]][0]
        self.s0, self.src = q[s], mods[self.it[0]].src
        self.ctx = None
        return {'S': s, 'N': new[0], 'it': self.it[0]}

    def fresh(self, eng, st, vals, role):
        if role == 'S':
            self.n = fresh_int('added')
            st.assume(le(0, self.n))
            return fresh_ops(self.spec.ty, add(self.s0.n, self.n), 'ops')
        if role == 'N':
            return fresh_ops(self.spec.ty, self.n, 'added')

    def pair(self, q):
        a, b = self.src.item(self.ctx, q).f
        return product(a, b)

    def inv(self, eng, st, v):
        s, n, s0 = v['S'], v['N'], self.s0
        log = [x for x in st.log if x[0] == 'idx']
        cands = ([self.rep] if self.rep else []) + [lambda q: sub(s.n, 1)] + [lambda q, w=x[1]: w for x in log[-1:]]
        return [('as many operations added as collected', eq(s.n, add(s0.n, n.n))),
                ('earlier operations kept', QFact(1, lambda k: implies(in_range(k, s0.n), same_op(s.get(k), s0.get(k))))),
                ] + [('the added operations are the collected ones', QFact(1, lambda k: implies(in_range(k, n.n), same_op(n.get(k), s.get(add(s0.n, k))))))
                     ] * (conc(n.n) != 0) + self.common(st, s) + [
            ('product of every pair so far present', Some(1, lambda q, w: implies(in_range(q, v['it'].pos), and_(in_range(w, s.n), NamedApproxEq.holds(
                s.get(w), self.pair(q), self.spec.tol))), lambda q: [c(q) for c in cands], self.keep))]

    def keep(self, w):
        self.rep = w

    def exit(self, eng, st, v):
        return [('all pairs taken', eq(v['it'].pos, self.src.n))]

    def after(self, eng, st, v):
        self.spec.last = (v['S'], v['N'])
        st.log.append(('products', self.rep, self.src))


class Rounds(Ops):
    """The outer loop: all operations S, those found in the last round N (the end of S)."""
    label = 'rounds'
    nested = True

    def roles(self, eng, fr, st, mods):
        q = seqs(mods)
        s = [k for k in q if self.spec.last and any(x is self.spec.last[0] for x in self.changed[k])]
        n = [k for k in q if self.spec.last and any(x is self.spec.last[1] for x in self.changed[k])]
        if any(isinstance(v, VIter) for v in mods.values()) or len(s) != 1 or len(n) != 1:
            return None
        return {'S': s[0], 'N': n[0]}

    def fresh(self, eng, st, vals, role):
        if role == 'S':
            n = fresh_int('ops')
            st.assume(le(0, n))
            return fresh_ops(self.spec.ty, n, 'ops')
        n = fresh_int('last')
        st.assume(le(0, n))
        return fresh_ops(self.spec.ty, n, 'last')

    def inv(self, eng, st, v):
        s, n, g = v['S'], v['N'], self.spec.g
        off = sub(s.n, n.n)
        cands = [lambda i, j: 0] if self.rep is None else [self.rep]
        for x in st.log:
            if x[0] == 'products' and self.off is not None:
                cands.append(lambda i, j, x=x: x[1](x[2].inv(i, sub(j, self.off))))
        if self.rep is None or not cands[1:]:
            self.off = off
        return [('generators kept', and_(le(g.n, s.n), le(n.n, s.n))),
                ('generator kept', QFact(1, lambda k: implies(in_range(k, g.n), same_op(s.get(k), g.get(k))))),
                ('last operations at the end', QFact(1, lambda k: implies(in_range(k, n.n), same_op(n.get(k), s.get(add(off, k))))))
                ] + self.common(st, s) + [
            ('generator times operation present', Some(2, lambda i, j, w: implies(and_(in_range(i, g.n), in_range(j, off)), and_(in_range(w, s.n), NamedApproxEq.holds(
                s.get(w), product(g.get(i), s.get(j)), self.spec.tol))), lambda i, j: [c(i, j) for c in cands], self.keep))]

    def keep(self, w):
        self.rep = w

    def exit(self, eng, st, v):
        return [('nothing new in the last round', eq(v['N'].n, 0))]

    def after(self, eng, st, v):
        st.log.append(('closed', self.rep))


class FromGenerators(Spec):
    fn = 'SpaceGroup::from_generators'
    uses = (NamedApproxEq(), NamedCompose(), SymmOpNormalize())
    last = None

    def requires(self, eng, st, a):
        self.g, self.tol = [eng.deref_all(st, x) for x in a]
        self.ty = self.g.get(0).ty
        st.facts.append(QFact(1, lambda k: implies(in_range(k, self.g.n), self.member(self.g.get(k)))))
        return IsApproxEq().requires(eng, st, [None, None, a[1]])

    def prepare(self, eng):
        self.eng = eng
        self.G = z3.Function(fresh_name('Group'), *[I] * 9, *[R] * 3, B)
        eng.loop_hook = Loops(Pairs(self), Rounds(self))
        eng.split_values = lambda fr: 'SpaceGroup' in fr.body.name
        eng.hints.append(self.hint)

    def member(self, x):
        return self.G(*[zi(y) for y in x.f[0].d], *[zr(y) for y in x.f[1].d])

    def small(self, x):
        return implies(self.member(x), and_(*[between(-Compose.BOUND, y, Compose.BOUND) for y in x.f[0].d]))

    def hint(self, spec, eng, st, a):
        """Instances of what is known of Group: closed under products and lattice translations, entries of the rotations small."""
        if isinstance(spec, Compose):
            p, q = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
            st.assume(and_(self.small(p), self.small(q), implies(and_(self.member(p), self.member(q)), self.member(product(p, q)))))
        elif isinstance(spec, SymmOpNormalize):
            st.log.append(('wrap', eng.deref_all(st, a[0])))

    def moved(self, st, s):
        w = [x[1] for x in st.log if x[0] == 'wrap']
        if isinstance(s, PSeq) and w:
            x, y = w[-1].f[1], s.v.f[1]
            for i in range(3):
                st.assume(named(WHOLE, self.eng, y.d[i], x.d[i], self.tol.d[i]))
                st.facts.append(QFact(1, lambda k, i=i: named(SHIFT, self.eng, s.base.get(k).f[1].d[i], x.d[i], y.d[i], self.tol.d[i])))
            st.assume(implies(and_(self.member(w[-1]), same_value(w[-1].f[0], s.v.f[0]), congruent(w[-1].f[1], s.v.f[1])), self.member(s.v)))

    def ensures(self, c):
        r, g = c.val().f[0], self.g
        w = [x[1] for x in c.st.log if x[0] == 'closed'][-1]
        return [('the generators come first', QFact(1, lambda k: implies(in_range(k, g.n), and_(lt(k, r.n), same_op(r.get(k), g.get(k)))))),
                ('every operation is a product of generators up to lattice translations', QFact(1, lambda k: implies(in_range(k, r.n), self.member(r.get(k))))),
                ('no operation beyond the generators is repeated', QFact(2, lambda a, b: implies(and_(le(g.n, b), in_range(b, r.n), in_range(a, b)), not_(
                    NamedApproxEq.holds(r.get(a), r.get(b), self.tol))))),
                ('a generator after any operation is among the operations', QFact(2, lambda i, j: implies(and_(in_range(i, g.n), in_range(j, r.n)), and_(
                    in_range(w(i, j), r.n), NamedApproxEq.holds(r.get(w(i, j)), product(g.get(i), r.get(j)), self.tol)))))]


def words(V, eng, o):
    """What closure under all products rests on besides the contract."""
    st = State()
    op = lambda nm: VStruct(None, [VMat(3, 3, [z3.Int(f'{nm}.r[{i}]') for i in range(9)]), VMat(3, 1, [z3.Real(f'{nm}.t[{i}]') for i in range(3)])])
    a, b, c = op('a'), op('b'), op('c')
    n = VMat(3, 1, [z3.Int(f'n[{i}]') for i in range(3)])
    moved = VStruct(None, [a.f[0], mat_map2(add, a.f[1], mat_map(to_real, n))])
    x, y = compose(compose(a, b), c), compose(a, compose(b, c))
    for i in range(9):
        eng.oblige(st, 'lemma', eq(x.f[0].d[i], y.f[0].d[i]), 'lemma', None, name=f'composition is associative: rotation {i}')
    for i in range(3):
        eng.oblige(st, 'lemma', eq(x.f[1].d[i], y.f[1].d[i]), 'lemma', None, name=f'composition is associative: translation {i}')
        eng.oblige(st, 'lemma', eq(compose(moved, b).f[1].d[i], add(compose(a, b).f[1].d[i], to_real(n.d[i]))), 'lemma', None,
                   name=f'a lattice translation of the first operation moves the product: component {i}')
        m = mat_mul(a.f[0], n)
        later = VStruct(None, [b.f[0], mat_map2(add, b.f[1], mat_map(to_real, n))])
        eng.oblige(st, 'lemma', eq(compose(a, later).f[1].d[i], add(compose(a, b).f[1].d[i], to_real(m.d[i]))), 'lemma', None,
                   name=f'a lattice translation of the second operation moves the product by a lattice translation: component {i}')


def build(V):
    V.spec(FromGenerators())
    V.spec(IsApproxEq())
    V.spec(Compose())
    V.spec(SymmOpNormalize())
    V.task('products of generators', 'lemma', lambda eng, o: words(V, eng, o), alarm=False)
