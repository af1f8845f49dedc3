"""Lemmas: proved once over fresh variables (as obligations of their own) and then instantiated as facts."""
from .vals import *


class Lemma:
    """fn(*reals) holds for all reals."""
    used = set()        # since the current Verifier was made

    def __init__(self, name, arity, fn, by=None):
        self.name, self.arity, self.fn, self.by = name, arity, fn, by     # by: instances of other lemmas it is proved from

    def inst(self, eng, *terms):
        Lemma.used.add(self)
        return self.fn(*terms)

    def use(self, eng, st, *terms):
        st.assume(self.inst(eng, *terms))

    def prove(self, V):
        def run(eng, o):
            xs = [fresh_real('x') for _ in range(self.arity)]
            from .engine import State
            st = State()
            for f in self.by(eng, *xs) if self.by else []:
                st.assume(f)
            eng.oblige(st, 'lemma', self.fn(*xs), 'lemma', None, name=self.name)
        return V.task('lemma: ' + self.name, 'lemma', run, alarm=False)


CONG = Lemma('equal factors give equal products', 3, lambda a, b, c: implies(eq(a, b), eq(mul(c, a), mul(c, b))))
CANCEL = Lemma('a non-zero factor cancels', 3, lambda a, b, c: implies(and_(ne(c, Fraction(0)), eq(mul(c, a), mul(c, b))), eq(a, b)))
POSPROD = Lemma('a product of positive numbers is positive', 2, lambda a, b: implies(and_(lt(Fraction(0), a), lt(Fraction(0), b)), lt(Fraction(0), mul(a, b))))
SQ_ZERO = Lemma('a square is zero only for zero', 1, lambda a: implies(eq(mul(a, a), Fraction(0)), eq(a, Fraction(0))))
SQ_LE = Lemma('squares order non-negative numbers', 2, lambda a, b: implies(and_(le(Fraction(0), a), le(Fraction(0), b)), eq(le(a, b), le(mul(a, a), mul(b, b)))))


DETPROD = Lemma('determinant of a product', 18, lambda *x: eq(det3(mat_mul(VMat(3, 3, x[:9]), VMat(3, 3, x[9:]))), mul(det3(VMat(3, 3, x[:9])), det3(VMat(3, 3, x[9:])))))
ZEROCOL = [Lemma(f'a matrix whose column {j} is zero has determinant zero', 9, lambda *x, j=j: implies(and_(*[eq(x[3 * j + i], Fraction(0)) for i in range(3)]), eq(
    det3(VMat(3, 3, x)), Fraction(0)))) for j in range(3)]


SHARE = Lemma('less than half of a length is less than half in its units', 3, lambda t, l, d: implies(and_(
    le(Fraction(0), t), le(Fraction(0), l), eq(mul(l, l), d), lt(Fraction(0), d), lt(mul(4, mul(t, t)), d)), and_(le(Fraction(0), fdiv(t, l)), implies(lt(Fraction(0), t), lt(Fraction(0), fdiv(t, l))), lt(fdiv(t, l), Fraction(1, 2)))))


INTDIFF = Lemma('differing by integers is transitive', 4, lambda a, b, c, d: implies(and_(isint(sub(a, b)), isint(sub(c, d)), isint(sub(a, c))), isint(sub(b, d))))


def isint(x):
    return z3.IsInt(zr(x))


def away(d):
    """d minus the integer next to it."""
    return sub(d, to_real(fround(d)))


def near(a, b, tol):
    """a and b differ by an integer up to tol."""
    return lt(absv(away(sub(a, b))), tol)


HALVES = Lemma('remainders of at most a half that differ by an integer are equally large', 2, lambda u, v: implies(
    and_(isint(sub(u, v)), le(absv(u), Fraction(1, 2)), le(absv(v), Fraction(1, 2))), eq(absv(u), absv(v))))
REMAINDERS = Lemma('remainders differ by an integer if the numbers do', 5, lambda a, x, y, p, q: implies(
    and_(isint(sub(x, y)), isint(p), isint(q)), isint(sub(sub(sub(a, x), p), sub(sub(a, y), q)))))
SHIFT = Lemma('nearness does not change with lattice translations', 4, lambda a, x, y, t: implies(isint(sub(x, y)), eq(near(a, x, t), near(a, y, t))),
              lambda eng, a, x, y, t: [HALVES.inst(eng, away(sub(a, x)), away(sub(a, y))),
                                       REMAINDERS.inst(eng, a, x, y, to_real(fround(sub(a, x))), to_real(fround(sub(a, y))))])
WHOLE = Lemma('numbers differing by an integer are near', 3, lambda x, y, t: implies(and_(isint(sub(x, y)), lt(Fraction(0), t)), near(x, y, t)))


def image_length(x):
    w = mat_mul(VMat(3, 3, x[:9]), VMat(3, 1, x[9:]))
    return fsqrt(dot(w, w))


ZEROLEN = Lemma('the image of the zero vector has length zero', 12, lambda *x: implies(and_(*[eq(y, Fraction(0)) for y in x[9:]]), eq(image_length(x), Fraction(0))))


def adj3(m):
    """Adjugate of a 3x3 matrix."""
    d = []
    for j in range(3):
        for i in range(3):
            rr = [x for x in range(3) if x != j]
            cc = [x for x in range(3) if x != i]
            v = sub(mul(m.at(rr[0], cc[0]), m.at(rr[1], cc[1])), mul(m.at(rr[0], cc[1]), m.at(rr[1], cc[0])))
            d.append(v if (i + j) % 2 == 0 else neg(v))
    return VMat(3, 3, d)


def injective(eng, m, u, v):
    """Instances from which  det m != 0  and  m u = m v  give  u = v  by linear arithmetic over monomials."""
    a, mu, mv, d = adj3(m), mat_mul(m, u), mat_mul(m, v), det3(m)
    out = []
    for j in range(u.c):
        for k in range(3):
            for i in range(3):
                out.append(CONG.inst(eng, mu.at(i, j), mv.at(i, j), a.at(k, i)))
            out.append(CANCEL.inst(eng, u.at(k, j), v.at(k, j), d))
    return and_(*out)


def inverse_times(eng, m, b):
    """Instances from which  m (m^-1 b) = b  follows by linear arithmetic over monomials (m^-1 by its entries)."""
    p = mat_mul(m, VMat(3, 3, mat_inv3(m).d))
    return and_(*[CONG.inst(eng, p.at(i, j), Fraction(int(i == j)), b.at(j, l)) for l in range(b.c) for i in range(3) for j in range(3)])
