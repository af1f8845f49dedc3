"""C01: wrapping of fractional vectors."""
from ..vals import *
from ..engine import State, QFact
from ..specs import *
from ..verify import Spec, Ctx

INFO = {
    'level': 'proof',
    'note': 'All clauses are proved for every list and every tolerance in [0,1/2) over the reals.',
    'bounded': ['effect of f64 rounding on the bounds (companion: within 1e-9)'],
}


def wrap_twice(V, eng, o):
    """The body is executed twice in a row; the second call changes nothing."""
    sp = NormalizeFracVectors()
    body = V.find(sp.fn)
    st = State()
    args = sp.args(eng, st, body)
    for _, g in sp.requires(eng, st, args):
        st.assume(g)
    s1, _ = eng.merge_results(eng.call_body(body, args, st))
    once = eng.deref_all(s1, args[0])
    for s2, _ in eng.call_body(body, args, s1):
        o.covers.append(('return', list(s2.pc), list(s2.facts), list(s2.log)))
        twice = eng.deref_all(s2, args[0])
        eng.oblige(s2, 'ensures', eq(once.n, twice.n), body.name, body.line, name='second call keeps the number of vectors')
        k = fresh_int('k')
        for i in range(3):
            eng.oblige(s2, 'ensures', implies(in_range(k, once.n), eq(once.get(k).d[i], twice.get(k).d[i])), body.name, body.line,
                       name=f'second call leaves component {i} as it is', info={'idx': [k]})


class SymmOpNormalize(Spec):
    fn = 'SymmOp::normalize'

    def requires(self, eng, st, a):
        t = eng.deref_all(st, a[1])
        return [(f'tolerance {i} in [0,1/2)', and_(le(Fraction(0), t.d[i]), lt(t.d[i], Fraction(1, 2)))) for i in range(3)]

    def ensures(self, c):
        old, new, tol = c.old(0), c.new(0), c.old(1)
        out = [('rotation untouched', same_value(old.f[0], new.f[0]))]
        for i in range(3):
            out += [(f'translation {i}: {n}', g) for n, g in wrap_facts(old.f[1].d[i], new.f[1].d[i], tol.d[i])]
        return out

    def result(self, eng, st, a, body):
        ref = base_ref(eng, st, a[0])
        old = eng.read(st, ref)
        eng.write(st, ref, VStruct(old.ty, [old.f[0], VMat(3, 1, [fresh_real('wrapped') for _ in range(3)])]))
        return VStruct(None, ())


def build(V):
    V.spec(NormalizeFracVectors())
    V.task('utils::normalize_frac_vectors (called twice)', NormalizeFracVectors.fn, lambda eng, o: wrap_twice(V, eng, o))
    V.spec(SymmOpNormalize())
