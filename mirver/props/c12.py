"""C12: the 32 point groups (all numbers, executed on the MIR) and their transformation by an arbitrary matrix."""
from ..vals import *
from ..engine import State
from ..specs import *
from ..lemmas import *
from ..reference import *

INFO = {
    'level': 'proof',
    'note': 'from_number is executed on its MIR for each of the 32 numbers and the whole result is checked (finite domain). '
            'apply_transformation is proved for an arbitrary matrix and any number of operations.',
    'bounded': ['order in which the hash sets are visited while a point group is generated: insertion order and its reverse, of all orders'],
    'assumptions': [
        'Orders, rotation types and symbols of the 32 classes were typed in from the International Tables; their numbering is the crate\'s.',
        'T^-1 is the exact inverse and T^-1 R T is computed exactly before it is rounded.',
    ],
}


ORDERS = (('insertion order', list), ('reverse order', lambda xs: list(xs)[::-1]))


def groups(V, eng, o):
    eng.UNROLL = 5000
    for what, order in ORDERS:
        eng.hash_order = order
        all_groups(V, eng, what)


def all_groups(V, eng, what):
    b = V.find('PointGroup::from_number')

    def ob(name, ok):
        eng.oblige(State(), 'ensures', bool(ok), b.name, b.line, name=f'{name} ({what})')
    for num, sym in enumerate(POINT_GROUPS, 1):
        st = State()
        _, r = eng.merge_results(eng.call_body(b, [VRef(eng.new_cell(st, num))], st))
        names = [f[0] for f in eng.prog.ty(r.ty)['variants'][0]['fields']]
        f = dict(zip(names, r.f))
        rows = lambda m: tuple(conc(m.at(i, j)) for i in range(3) for j in range(3))
        ops, gens = [rows(m) for m in f['operations'].xs], [rows(m) for m in f['generators'].xs]
        S = set(ops)
        ob(f'{num}: symbol', f['symbol'] == sym)
        ob(f'{num}: operations are distinct', len(S) == len(ops))
        ob(f'{num}: order', len(ops) == sum(CLASS_TYPES[sym].values()))
        ob(f'{num}: determinants are plus or minus one', all(det(m) in (1, -1) for m in ops))
        ob(f'{num}: identity', IDENTITY in S)
        ob(f'{num}: generators are operations', bool(gens) and set(gens) <= S)
        ob(f'{num}: closed under product', all(mm(p, q) in S for p in ops for q in ops))
        ob(f'{num}: closed under inverse', all(any(mm(p, q) == IDENTITY for q in ops) for p in ops))
        ob(f'{num}: rotation types of the class', types(ops) == CLASS_TYPES[sym])


def rounded(x):
    """Nearest integer, halves away from zero, kept in the range of the entry type."""
    r = fround(x)
    return ite(lt(r, -128), -128, ite(gt(r, 127), 127, r))


class Conjugate(Spec):
    fn = 'PointGroup::apply_transformation'

    def panic_ok(self, eng, st, a):
        return not_(invertible(eng.deref_all(st, a[1])))

    def ensures(self, c):
        old, new, t = c.old(0), c.new(0), c.old(1)
        inv = VMat(3, 3, mat_inv3(t).d)
        names = [f[0] for f in c.eng.prog.ty(old.ty)['variants'][0]['fields']]
        out = [('returns only for a non-singular matrix', invertible(t)),
               ('symbol kept', same_value(old.f[names.index('symbol')], new.f[names.index('symbol')]))]
        for what in ('operations', 'generators'):
            x, y = old.f[names.index(what)], new.f[names.index(what)]
            out.append((f'number of {what} kept', eq(x.n, y.n)))

            def conj(k, x=x):
                m = x.get(k)
                return mat_mul(mat_mul(inv, VMat(3, 3, [to_real(e) for e in m.d])), t)

            def satisfies(k, i, x=x, conj=conj):
                rt = mat_mul(VMat(3, 3, [to_real(e) for e in x.get(k).d]), t)
                return implies(inverse_times(c.eng, t, rt), eq(mat_mul(t, conj(k)).d[i], rt.d[i]))
            for i in range(9):
                out.append((f'{what}: T times the conjugate is R T, entry {i % 3}{i // 3}', QFact(1, lambda k, i=i, f=satisfies: f(k, i))))
                out.append((f'{what}: entry {i % 3}{i // 3} is that of T^-1 R T rounded', QFact(1, lambda k, i=i, x=x, y=y, conj=conj: implies(
                    in_range(k, x.n), eq(y.get(k).d[i], rounded(conj(k).d[i]))))))
        return out


def build(V):
    V.task('the 32 point groups', 'PointGroup::from_number', lambda eng, o: groups(V, eng, o))
    V.spec(Conjugate())
