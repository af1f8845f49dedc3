"""C02: tolerant comparisons."""
from ..vals import *
from ..engine import State, QFact
from ..models import VIter, SliceSrc
from ..specs import *
from ..verify import Spec, Ctx, induction

INFO = {
    'level': 'proof',
    'note': 'All clauses are proved for all inputs over the reals (sign counter: up to 127 numbers, the range of its i8 result).',
    'bounded': ['effect of f64 rounding at the exact tolerance (companion: away from ties)'],
}


class Swapped(Spec):
    """Calling with the two compared values exchanged gives the same answer."""
    base = None

    @property
    def label(self):
        return self.base.fn + ' (symmetric)'

    @property
    def fn(self):
        return self.base.fn

    def requires(self, eng, st, a):
        return self.base.requires(eng, st, a)

    def ensures(self, c):
        res = c.eng.call_body(c.body, [c.args[1], c.args[0]] + list(c.args[2:]), c.st.copy())
        out = []
        for s, v in res:
            g = implies(and_(*s.pc[len(c.st.pc):]), eq(c.ret, v))
            out.append(('same answer with the arguments exchanged', g))
        return out


def swapped(b):
    return type('Swapped' + type(b).__name__, (Swapped,), {'base': b})()


class ApproxEqualIter(Spec):
    fn = 'utils::approx_equal_iter'

    def args(self, eng, st, body):
        out = []
        for nm in ('a', 'b'):
            n = z3.Int(nm + '.len')
            st.assume(and_(le(0, n), le(n, (1 << 63) - 1)))
            f = z3.Function(nm + '.el', I, R)
            cell = eng.new_cell(st, SSeq(n, lambda j, f=f: f(zi(j)), ('sym', nm)))
            out.append(VIter(SliceSrc(VRef(cell), n)))
        self.seqs = [eng.read(st, VRef(v.src.ref.cell)) for v in out]
        tol = VRef(eng.new_cell(st, z3.Real('tol')))
        return out + [tol]

    def panic_ok(self, eng, st, a):
        return ne(self.seqs[0].n, self.seqs[1].n)

    def ensures(self, c):
        a, b = self.seqs
        tol = c.old(2)

        def ok(k):
            return lt(absv(sub(a.get(k), b.get(k))), tol)
        wit = [x[1] for x in c.st.log if x[0] == 'idx']
        return [('returns only for equal lengths', eq(a.n, b.n)),
                ('true only when every pair is closer than the tolerance', QFact(1, lambda k: implies(and_(c.ret, in_range(k, a.n)), ok(k)))),
                ('false only when some pair is not', or_(c.ret, *[and_(in_range(w, a.n), not_(ok(w))) for w in wit]))]


class NumNegativeZero(Spec):
    fn = 'utils::num_negative_zero'

    def requires(self, eng, st, a):
        v, e = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        return [('at most 127 numbers', le(v.n, 127)), ('tolerance not negative', le(Fraction(0), e))]

    def ensures(self, c):
        v, e = c.old(0), c.old(1)
        conds = [lambda x: lt(x, neg(e)), lambda x: and_(le(neg(e), x), lt(x, e))]
        names = ['numbers below minus the tolerance', 'numbers from minus the tolerance up to the tolerance']
        out = []
        loops = [x for x in c.st.log if x[0] == 'loop' and x[1] == 'rec']
        for i in (0, 1):
            cnt = z3.Function(fresh_name('count'), I, I)
            c.st.assume(eq(cnt(0), 0))
            c.st.facts.append(QFact(1, lambda j, cnt=cnt, p=conds[i]: implies(in_range(j, v.n), eq(cnt(zi(add(j, 1))), add(cnt(zi(j)), ite(p(v.get(j)), 1, 0))))))
            r = c.ret.f[i]
            hit = [x for x in loops if is_scalar(x[7]) and same(x[2](v.n), r)]
            if hit:
                _, _, f, val, ii, p0, N, old, _, _ = hit[0]
                induction(c.eng, c.st, c.body, 'running count of ' + names[i], lambda j, f=f, cnt=cnt: eq(f(j), cnt(zi(j))), 0, v.n)
            elif conc(v.n) is None:
                raise Unsupported('counter without a recurrence')
            out.append(('reports the number of ' + names[i], eq(r, cnt(zi(v.n)))))
        return out


def build(V):
    for s in (CustEq(), ApproxEqual(), CompareMatrices()):
        V.spec(s)
        V.spec(swapped(s))
    V.spec(ApproxEqualIter())
    V.spec(NumNegativeZero())
