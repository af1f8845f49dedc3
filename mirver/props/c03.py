"""C03: Cartesian and fractional coordinates."""
from ..vals import *
from ..engine import State, QFact
from ..specs import *
from ..lemmas import injective

INFO = {
    'level': 'proof',
    'note': 'All clauses are proved for every non-singular lattice and every number of sites over the reals.',
    'bounded': ['effect of f64 rounding (companion: within 1e-6 of the cell)'],
    'assumptions': ['nalgebra try_inverse and pseudo_inverse(1e-6) give the exact inverse of a non-singular lattice'],
}


def round_trip(V, eng, o, first, second):
    """second after first, both through their bodies, is the identity on coordinates."""
    b1, b2 = V.find(first), V.find(second)
    st = State()
    m, x = eng.sym(st, b1.locals[1], 'lattice'), eng.sym(st, b1.locals[2], 'coords')
    lat, xs = eng.deref_all(st, m), eng.deref_all(st, x)
    st.assume(invertible(lat))
    o.covers.append(('precondition', list(st.pc), list(st.facts), []))
    for s1, y in eng.call_body(b1, [m, x], st):
        yr = VRef(eng.new_cell(s1, y))
        for s2, z in eng.call_body(b2, [m, yr], s1):
            z = eng.deref_all(s2, z)
            o.covers.append(('return', list(s2.pc), list(s2.facts), list(s2.log)))
            eng.oblige(s2, 'ensures', eq(z.n, xs.n), b2.name, b2.line, name='number of sites kept')
            k = fresh_int('k')
            s2.assume(in_range(k, xs.n))
            s2.assume(injective(eng, lat, z.get(k), xs.get(k)))
            for i in range(3):
                eng.oblige(s2, 'ensures', eq(z.get(k).d[i], xs.get(k).d[i]), b2.name, b2.line, name=f'component {i} comes back', info={'idx': [k]})


def build(V):
    V.spec(GetCartCoords())
    V.spec(GetFracCoords())
    V.spec(StructureNew())
    a, b = GetCartCoords.fn, GetFracCoords.fn
    V.task('fractional -> Cartesian -> fractional', a, lambda eng, o: round_trip(V, eng, o, a, b))
    V.task('Cartesian -> fractional -> Cartesian', b, lambda eng, o: round_trip(V, eng, o, b, a))
