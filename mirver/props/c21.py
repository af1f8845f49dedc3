"""C21: algebra of symmetry operations."""
from ..vals import *
from ..engine import State, QFact
from ..specs import *
from ..verify import Spec
from .c01 import SymmOpNormalize

MUL_OP = '<crystsymm::symmop::SymmOp as std::ops::Mul>::mul'

INFO = {
    'level': 'proof',
    'note': 'All clauses are proved over the reals for every operation whose rotation entries are at most 6 in magnitude (i8 products). '
            'Composition is SymmOp::compose; the * operator between operations is a known finding.',
    'bounded': ['the * operator between operations (known finding, observed by the companion)'],
}


def act(op, x):
    return mat_map2(add, mat_mul(mat_map(to_real, op.f[0]), x), op.f[1])


class Act(Spec):
    label = 'SymmOp * Vector3'

    def __init__(self, prog):
        c = [n for n in prog.names() if n.startswith('<crystsymm::symmop::SymmOp as std::ops::Mul<nalgebra::')]
        self.fn = c[0] if len(c) == 1 else '<SymmOp as Mul<Vector3<f64>>>::mul'

    def ensures(self, c):
        return [('gives R x + t', same_value(c.ret, act(c.args[0], c.args[1])))]


class ComposeActs(Compose):
    label = 'SymmOp::compose (as a map)'

    def ensures(self, c):
        x = VMat(3, 1, [z3.Real(f'x[{i}]') for i in range(3)])
        return [('acts like the second operation followed by the first', same_value(act(c.ret, x), act(c.old(0), act(c.old(1), x))))]


class EqUpToLattice(IsApproxEq):
    label = 'SymmOp::is_approx_eq (lattice translations)'

    def requires(self, eng, st, a):
        p, q = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
        n = [z3.Int(f'n[{i}]') for i in range(3)]
        return super().requires(eng, st, a) + [('differ by a lattice translation', and_(same_value(p.f[0], q.f[0]), *[
            eq(p.f[1].d[i], add(q.f[1].d[i], to_real(n[i]))) for i in range(3)]))]

    def ensures(self, c):
        return [('operations differing by a lattice translation are equal', c.ret)]


def build(V):
    V.spec(Act(V.prog))
    V.spec(Compose())
    V.spec(ComposeActs())
    V.spec(IsApproxEq())
    V.spec(EqUpToLattice())
    V.spec(SymmOpNormalize())
