"""Symbolic values and arithmetic.

Scalars are Python bool/int/Fraction when known and z3 terms otherwise.  f64 values are
mathematical reals (machine rounding, NaN and infinities are not modelled); integers are
mathematical integers with explicit range obligations where the compiled code checks them."""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The code uses a construct outside the verifier's reach (never an alarm)."""


class Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()

_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return f'{p}!{_cnt[0]}'


def fresh_real(p='r'):
    return z3.Real(fresh_name(p))


def fresh_int(p='i'):
    return z3.Int(fresh_name(p))


def fresh_bool(p='b'):
    return z3.Bool(fresh_name(p))


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_scalar(x):
    return isinstance(x, (bool, int, Fraction)) or is_z(x)


def zr(x):
    """As a z3 real term."""
    if is_z(x):
        return z3.ToReal(x) if x.sort().kind() == z3.Z3_INT_SORT else x
    return z3.RealVal(Fraction(x))


def zi(x):
    return x if is_z(x) else z3.IntVal(int(x))


def zb(x):
    return x if is_z(x) else z3.BoolVal(bool(x))


def conc(x):
    """Python constant of a scalar, or None."""
    if not is_z(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return None


def same(a, b):
    """Syntactic equality of scalars."""
    if is_z(a) and is_z(b):
        return a.eq(b)
    if not is_z(a) and not is_z(b):
        return type(a) is type(b) and a == b or (not isinstance(a, bool) and not isinstance(b, bool) and a == b)
    return False


def is_real(x):
    return isinstance(x, Fraction) or (is_z(x) and x.sort().kind() == z3.Z3_REAL_SORT)


def is_boolv(x):
    return isinstance(x, bool) or (is_z(x) and x.sort().kind() == z3.Z3_BOOL_SORT)


def _lift(a, b):
    if is_real(a) or is_real(b):
        return zr(a), zr(b)
    return zi(a), zi(b)


def add(a, b):
    if not is_z(a) and not is_z(b):
        return a + b
    if not is_z(a) and a == 0:
        return zr(b) if isinstance(a, Fraction) else b
    if not is_z(b) and b == 0:
        return zr(a) if isinstance(b, Fraction) else a
    x, y = _lift(a, b)
    return x + y


def neg(a):
    return -a


def sub(a, b):
    if not is_z(a) and not is_z(b):
        return a - b
    if not is_z(b) and b == 0:
        return zr(a) if isinstance(b, Fraction) else a
    if is_z(a) and is_z(b) and a.eq(b):
        return Fraction(0) if is_real(a) else 0
    x, y = _lift(a, b)
    return x - y


def _toreal_arg(x):
    if is_z(x):
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            return x.arg(0)
        return None
    if isinstance(x, (int, Fraction)) and Fraction(x).denominator == 1:
        return z3.IntVal(int(x))
    return None


def const_cases(t, depth=0):
    """t is an if-then-else over constants."""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return depth < 4 and const_cases(t.arg(1), depth + 1) and const_cases(t.arg(2), depth + 1)
    return depth > 0 and conc(t) is not None


def mul_cases(t, q):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return ite(t.arg(0), mul_cases(t.arg(1), q), mul_cases(t.arg(2), q))
    return mul(conc(t) if t.sort().kind() == z3.Z3_INT_SORT else Fraction(conc(t)), q)


def mul(a, b):
    if not is_z(a) and not is_z(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if is_z(p) and const_cases(p):
            return mul_cases(p, q)      # keeps products with signs linear
    for p, q in ((a, b), (b, a)):
        if not is_z(p):
            if p == 0:
                return Fraction(0) if is_real(q) or isinstance(p, Fraction) else 0
            if p == 1:
                return zr(q) if isinstance(p, Fraction) else q
    if is_real(a) or is_real(b):
        u, v = _toreal_arg(a), _toreal_arg(b)
        if u is not None and v is not None:
            return z3.ToReal(u * v)
    x, y = _lift(a, b)
    return x * y


def fdiv(a, b):
    if not is_z(b):
        if b == 0:
            raise Unsupported('division by the constant zero')
        if not is_z(a):
            return Fraction(a) / Fraction(b)
        return mul(a, 1 / Fraction(b))
    if not is_z(a) and a == 0:
        return Fraction(0)
    return zr(a) / zr(b)


def eq(a, b):
    if not is_z(a) and not is_z(b):
        return a == b
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    if is_boolv(a) or is_boolv(b):
        return zb(a) == zb(b)
    x, y = _lift(a, b)
    return x == y


def ne(a, b):
    return not_(eq(a, b))


def lt(a, b):
    if not is_z(a) and not is_z(b):
        return a < b
    if is_z(a) and is_z(b) and a.eq(b):
        return False
    x, y = _lift(a, b)
    return x < y


def le(a, b):
    if not is_z(a) and not is_z(b):
        return a <= b
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    x, y = _lift(a, b)
    return x <= y


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def not_(a):
    if not is_z(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    out = []
    for x in xs:
        c = conc(x)
        if c is True:
            continue
        if c is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        c = conc(x)
        if c is False:
            continue
        if c is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    """Scalar if-then-else."""
    cc = conc(c)
    if cc is not None:
        return a if cc else b
    if same(a, b):
        return a
    if is_boolv(a) or is_boolv(b):
        ca, cb = conc(a), conc(b)
        if ca is True and cb is False:
            return c
        if ca is False and cb is True:
            return not_(c)
        if ca is True:
            return or_(c, b)
        if ca is False:
            return and_(not_(c), b)
        if cb is True:
            return or_(not_(c), a)
        if cb is False:
            return and_(c, a)
        return z3.If(c, zb(a), zb(b))
    x, y = _lift(a, b)
    return z3.If(c, x, y)


def absv(a):
    if not is_z(a):
        return abs(a)
    return ite(ge(a, Fraction(0) if is_real(a) else 0), a, neg(a))


# Uninterpreted functions with axiom schemata (instantiated at solving time, see prover.py).
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
F_TRUNC = z3.Function('trunc', R, I)       # toward zero
F_ROUND = z3.Function('round', R, I)       # half away from zero
F_CEIL = z3.Function('ceil', R, I)
F_FLOOR = z3.Function('floor', R, I)
F_SQRT = z3.Function('sqrt', R, R)
F_ACOS = z3.Function('acos', R, R)
F_POW = z3.Function('powf', R, R, R)
F_INV = [z3.Function(f'minv{k}', *([R] * 12), R) for k in range(3)]     # (M^-1 v)_k, M column-major
F_INVE = [z3.Function(f'minve{k}', *([R] * 9), R) for k in range(9)]    # entries of M^-1, column-major


def ftrunc(x):
    if not is_z(x):
        x = Fraction(x)
        return int(x) if x >= 0 else -int(-x)
    a = _toreal_arg(x)
    return a if a is not None else F_TRUNC(zr(x))


def fround(x):
    if not is_z(x):
        x = Fraction(x)
        return int(x + Fraction(1, 2)) if x >= 0 else -int(-x + Fraction(1, 2))
    a = _toreal_arg(x)
    return a if a is not None else F_ROUND(zr(x))


def fceil(x):
    if not is_z(x):
        x = Fraction(x)
        return -((-x.numerator) // x.denominator)
    a = _toreal_arg(x)
    return a if a is not None else F_CEIL(zr(x))


def ffloor(x):
    if not is_z(x):
        x = Fraction(x)
        return x.numerator // x.denominator
    a = _toreal_arg(x)
    return a if a is not None else F_FLOOR(zr(x))


def to_real(x):
    if not is_z(x):
        return Fraction(x)
    return z3.ToReal(x) if x.sort().kind() == z3.Z3_INT_SORT else x


def fsqrt(x):
    if not is_z(x):
        x = Fraction(x)
        import math
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
    return F_SQRT(zr(x))


# Compound values ----------------------------------------------------------------------------

class VStruct:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty, self.f = ty, tuple(f)

    def __repr__(self):
        return f'S{list(self.f)}'


class VEnum:
    """discr is the variant index (not the discriminant value)."""
    __slots__ = ('ty', 'd', 'v')

    def __init__(self, ty, d, v):
        self.ty, self.d, self.v = ty, d, v

    def __repr__(self):
        return f'E({self.d},{self.v})'


class VMat:
    """r x c matrix, column-major.  inv_of marks a symbolic inverse whose entries are not spelt out."""
    __slots__ = ('r', 'c', '_d', 'inv_of')

    def __init__(self, r, c, d, inv_of=None):
        self.r, self.c, self._d, self.inv_of = r, c, (tuple(d) if d is not None else None), inv_of

    @property
    def d(self):
        if self._d is None:
            m = self.inv_of
            args = [zr(x) for x in m.d]
            self._d = tuple(F_INVE[k](*args) for k in range(9))
        return self._d

    def at(self, i, j):
        return self.d[j * self.r + i]

    def col(self, j):
        return VMat(self.r, 1, self.d[j * self.r:(j + 1) * self.r])

    def __repr__(self):
        return f'M{self.r}x{self.c}{list(self.d) if self._d is not None else "inv"}'


def mat_inv3(m):
    if all(not is_z(x) for x in m.d):
        a = [[Fraction(m.at(i, j)) for j in range(3)] for i in range(3)]
        det = (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
               + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
        out = []
        for j in range(3):
            for i in range(3):
                # cofactor of (j,i)
                rr = [x for x in range(3) if x != j]
                cc = [x for x in range(3) if x != i]
                mi = a[rr[0]][cc[0]] * a[rr[1]][cc[1]] - a[rr[0]][cc[1]] * a[rr[1]][cc[0]]
                out.append((-1) ** (i + j) * mi / det)
        # out is ordered by (j outer, i inner) = inverse entry (i,j) column-major in j
        return VMat(3, 3, out)
    return VMat(3, 3, None, inv_of=m)


def mat_mul(a, b):
    if a.inv_of is not None:
        m = a.inv_of
        margs = [zr(x) for x in m.d]
        if b.c == 3 and b.r == 3 and all(same(x, y) for x, y in zip(m.d, b.d)):
            return VMat(3, 3, [Fraction(int(i == j)) for j in range(3) for i in range(3)])
        if b.c == 1:
            v = [zr(b.at(i, 0)) for i in range(3)]
            if all(conc(x) == 0 for x in v):
                return VMat(3, 1, [Fraction(0)] * 3)
            return VMat(3, 1, [F_INV[k](*margs, *v) for k in range(3)])
    out = []
    for j in range(b.c):
        for i in range(a.r):
            t = mul(a.at(i, 0), b.at(0, j))
            for k in range(1, a.c):
                t = add(t, mul(a.at(i, k), b.at(k, j)))
            out.append(t)
    return VMat(a.r, b.c, out)


def mat_map2(f, a, b):
    return VMat(a.r, a.c, [f(x, y) for x, y in zip(a.d, b.d)])


def mat_map(f, a):
    return VMat(a.r, a.c, [f(x) for x in a.d])


def mat_t(a):
    return VMat(a.c, a.r, [a.at(i, j) for i in range(a.r) for j in range(a.c)])


def det3(m):
    a = m.at
    return add(sub(mul(a(0, 0), sub(mul(a(1, 1), a(2, 2)), mul(a(1, 2), a(2, 1)))),
                   mul(a(0, 1), sub(mul(a(1, 0), a(2, 2)), mul(a(1, 2), a(2, 0))))),
               mul(a(0, 2), sub(mul(a(1, 0), a(2, 1)), mul(a(1, 1), a(2, 0)))))


def dot(a, b):
    t = mul(a.d[0], b.d[0])
    for x, y in zip(a.d[1:], b.d[1:]):
        t = add(t, mul(x, y))
    return t


def cross(a, b):
    x, y = a.d, b.d
    return VMat(3, 1, [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])),
                       sub(mul(x[0], y[1]), mul(x[1], y[0]))])


def ident(n):
    return VMat(n, n, [Fraction(int(i == j)) for j in range(n) for i in range(n)])


class VRef:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return f'&{self.cell}{list(self.path)}'


class VIteRef:
    """A reference that is a under the condition and b otherwise."""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class VFn:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class VClosure:
    __slots__ = ('key', 'f')

    def __init__(self, key, f):
        self.key, self.f = key, tuple(f)


class SStr:
    """A symbolic string: an element of a totally ordered set, represented by an integer term."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'str:{self.t}'


class Opaque:
    """A value the properties never look into (formatting arguments and the like)."""
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag


# Sequences ----------------------------------------------------------------------------------

class Seq:
    pass


class CSeq(Seq):
    """A sequence of known length."""
    __slots__ = ('xs', 'prep')

    def __init__(self, xs):
        self.xs = tuple(xs)

    @property
    def n(self):
        return len(self.xs)

    def get(self, i):
        c = conc(i)
        if c is not None:
            if not 0 <= c < len(self.xs):
                raise Unsupported('read outside a sequence')
            return self.xs[c]
        if not self.xs:
            raise Unsupported('read from an empty sequence')
        r = self.xs[-1]
        for k in range(len(self.xs) - 2, -1, -1):
            r = vite(eq(i, k), self.xs[k], r)
        return r

    def __repr__(self):
        return f'V{list(self.xs)}'


class SSeq(Seq):
    """A sequence of symbolic length n with elements fn(index)."""
    __slots__ = ('n', 'fn', 'tag')

    def __init__(self, n, fn, tag=None):
        self.n, self.fn, self.tag = n, fn, tag

    def get(self, i):
        return self.fn(i)


class USeq(Seq):
    """base with one element replaced."""
    __slots__ = ('base', 'i', 'v')

    def __init__(self, base, i, v):
        self.base, self.i, self.v = base, i, v

    @property
    def n(self):
        return self.base.n

    def get(self, j):
        if same(j, self.i):
            return self.v
        e = eq(j, self.i)
        c = conc(e)
        if c is True:
            return self.v
        if c is False:
            return self.base.get(j)
        return vite(e, self.v, self.base.get(j))


class PSeq(Seq):
    """base with one element appended."""
    __slots__ = ('base', 'v')

    def __init__(self, base, v):
        self.base, self.v = base, v

    @property
    def n(self):
        return add(self.base.n, 1)

    def get(self, j):
        bn = self.base.n
        e = eq(j, bn)
        c = conc(e)
        if c is True or same(j, bn):
            return self.v
        if c is False or (isinstance(self.base, CSeq) and self.base.n == 0 and False):
            return self.base.get(j)
        if isinstance(self.base, CSeq) and self.base.n == 0:
            return self.v
        return vite(e, self.v, self.base.get(j))


def seq_set(s, i, v):
    if isinstance(s, CSeq):
        c = conc(i)
        if c is not None:
            if not 0 <= c < len(s.xs):
                raise Unsupported('write outside a sequence')
            return CSeq(s.xs[:c] + (v,) + s.xs[c + 1:])
        return CSeq([vite(eq(i, k), v, x) for k, x in enumerate(s.xs)])
    if isinstance(s, USeq) and same(s.i, i):
        return USeq(s.base, i, v)
    return USeq(s, i, v)


def seq_push(s, v):
    if isinstance(s, CSeq):
        return CSeq(s.xs + (v,))
    return PSeq(s, v)


# Maps ---------------------------------------------------------------------------------------

class CMap:
    """A hash map with concrete keys (any Python-hashable rendering of the key)."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d          # key -> (key value, value)


class SMap:
    """A hash map from strings (symbolic) to numbers: has(key term) and val(key term)."""
    __slots__ = ('has', 'val')

    def __init__(self, has, val):
        self.has, self.val = has, val

    def step(self, p):
        if p[0] != 'smap':
            raise Unsupported(f'projection {p[0]} on a map')
        return self.val(p[1])

    def update(self, p, new):
        k = p[1]
        return SMap(self.has, lambda j: ite(eq(j, k), new, self.val(j)))

    def insert(self, k, v):
        """Present afterwards, with value v if it was absent."""
        return SMap(lambda j: or_(eq(j, k), self.has(j)), lambda j: ite(and_(eq(j, k), not_(self.has(k))), v, self.val(j)))

    def merge(self, c, o):
        return SMap(lambda j: ite(c, self.has(j), o.has(j)), lambda j: ite(c, self.val(j), o.val(j)))


class CSet:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d          # key -> key value


def key_of(v):
    """Hashable rendering of a concrete value."""
    if isinstance(v, (bool, int, Fraction, str)):
        return v
    if is_z(v):
        c = conc(v)
        if c is not None:
            return c
        raise Unsupported('symbolic key')
    if isinstance(v, VMat):
        return ('m', v.r, v.c) + tuple(key_of(x) for x in v.d)
    if isinstance(v, VStruct):
        return ('s',) + tuple(key_of(x) for x in v.f)
    if isinstance(v, VEnum):
        d = key_of(v.d)
        return ('e', d) + tuple(key_of(x) for x in v.v.get(d, ()))
    if isinstance(v, CSeq):
        return ('v',) + tuple(key_of(x) for x in v.xs)
    raise Unsupported(f'key of {type(v).__name__}')


# Merging ------------------------------------------------------------------------------------

class NoMerge(Exception):
    pass


def vite(c, a, b):
    """Value if-then-else; raises NoMerge when the shapes differ."""
    if a is b:
        return a
    cc = conc(c)
    if cc is not None:
        return a if cc else b
    if is_scalar(a) and is_scalar(b):
        return ite(c, a, b)
    if a is UNINIT or b is UNINIT:
        return UNINIT
    ta, tb = type(a), type(b)
    if ta is VMat and tb is VMat and (a.r, a.c) == (b.r, b.c):
        if a.inv_of is not None and b.inv_of is not None and all(same(x, y) for x, y in zip(a.inv_of.d, b.inv_of.d)):
            return a
        return VMat(a.r, a.c, [ite(c, x, y) for x, y in zip(a.d, b.d)])
    if ta is VStruct and tb is VStruct and len(a.f) == len(b.f):
        return VStruct(a.ty, [vite(c, x, y) for x, y in zip(a.f, b.f)])
    if ta is VClosure and tb is VClosure and a.key == b.key:
        return VClosure(a.key, [vite(c, x, y) for x, y in zip(a.f, b.f)])
    if ta is VEnum and tb is VEnum:
        v = {}
        for k in set(a.v) | set(b.v):
            if k in a.v and k in b.v:
                v[k] = tuple(vite(c, x, y) for x, y in zip(a.v[k], b.v[k]))
            else:
                v[k] = a.v[k] if k in a.v else b.v[k]
        return VEnum(a.ty, ite(c, a.d, b.d), v)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if ta is CSeq and tb is CSeq:
            if len(a.xs) != len(b.xs):
                raise NoMerge
            return CSeq([vite(c, x, y) for x, y in zip(a.xs, b.xs)])
        ra, rb = _useq_root(a), _useq_root(b)
        if ra[0] is rb[0]:
            idx = []
            for i in ra[1] + rb[1]:
                if not any(same(i, j) for j in idx):
                    idx.append(i)
            r = ra[0]
            for i in idx:
                r = seq_set(r, i, vite(c, a.get(i), b.get(i)))
            return r
        if ta is PSeq and tb is PSeq and a.base is b.base:
            return PSeq(a.base, vite(c, a.v, b.v))
        return SSeq(ite(c, a.n, b.n), lambda j, a=a, b=b, c=c: vite(c, a.get(j), b.get(j)), ('ite', c, a, b))
    if ta is VRef and tb is VRef:
        if a.cell == b.cell and len(a.path) == len(b.path):
            if all(x == y if not (is_z(x[1]) or is_z(y[1])) else x[0] == y[0] and same(x[1], y[1])
                   for x, y in zip(a.path, b.path)):
                return a
        return VIteRef(c, a, b)
    if ta in (VRef, VIteRef) and tb in (VRef, VIteRef):
        return VIteRef(c, a, b)
    if ta is SStr and tb is SStr:
        return a if same(a.t, b.t) else SStr(ite(c, a.t, b.t))
    if ta is str and tb is str and a == b:
        return a
    if ta is VFn and tb is VFn:
        return a
    if ta is Opaque and tb is Opaque:
        return a
    if ta is CMap and tb is CMap and list(a.d) == list(b.d):
        return CMap({k: (a.d[k][0], vite(c, a.d[k][1], b.d[k][1])) for k in a.d})
    if ta is CSet and tb is CSet and list(a.d) == list(b.d):
        return a
    if ta is tb and hasattr(a, 'merge'):
        return a.merge(c, b)
    raise NoMerge(f'{ta.__name__}/{tb.__name__}')


def _useq_root(s):
    idx = []
    while isinstance(s, USeq):
        idx.append(s.i)
        s = s.base
    return s, idx


def subst(v, pairs):
    """Substitute z3 constants inside a value."""
    if is_z(v):
        ps = []
        for a, b in pairs:
            ps.append((a, zr(b) if a.sort().kind() == z3.Z3_REAL_SORT else zi(b) if a.sort().kind() == z3.Z3_INT_SORT else zb(b)))
        return z3.substitute(v, *ps)
    if isinstance(v, (bool, int, Fraction, str)) or v is UNINIT:
        return v
    if isinstance(v, VMat):
        if v._d is None:
            return VMat(v.r, v.c, None, inv_of=subst(v.inv_of, pairs))
        return VMat(v.r, v.c, [subst(x, pairs) for x in v.d], inv_of=subst(v.inv_of, pairs) if v.inv_of is not None else None)
    if isinstance(v, VStruct):
        return VStruct(v.ty, [subst(x, pairs) for x in v.f])
    if isinstance(v, VClosure):
        return VClosure(v.key, [subst(x, pairs) for x in v.f])
    if isinstance(v, VEnum):
        return VEnum(v.ty, subst(v.d, pairs), {k: tuple(subst(x, pairs) for x in t) for k, t in v.v.items()})
    if isinstance(v, CSeq):
        return CSeq([subst(x, pairs) for x in v.xs])
    if isinstance(v, SSeq):
        return SSeq(subst(v.n, pairs), lambda j, v=v: subst_guard(v, j, pairs))
    if isinstance(v, USeq):
        return USeq(subst(v.base, pairs), subst(v.i, pairs), subst(v.v, pairs))
    if isinstance(v, PSeq):
        return PSeq(subst(v.base, pairs), subst(v.v, pairs))
    if isinstance(v, SStr):
        return SStr(subst(v.t, pairs))
    if isinstance(v, VRef):
        return VRef(v.cell, [(p[0], subst(p[1], pairs)) if is_z(p[1]) else p for p in v.path])
    if isinstance(v, VIteRef):
        return VIteRef(subst(v.cond, pairs), subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, (VFn, Opaque, CMap, CSet, SMap)):
        return v
    raise Unsupported(f'substitution into {type(v).__name__}')


def subst_guard(v, j, pairs):
    """Element j of a substituted sequence: the index itself must not be substituted."""
    k = fresh_int('sg')
    e = subst(v.get(k), pairs)
    return subst(e, [(k, j)])


def leaves(v, out=None):
    """All scalar leaves of a finite value."""
    if out is None:
        out = []
    if is_scalar(v):
        out.append(v)
    elif isinstance(v, VMat):
        out.extend(v.d)
    elif isinstance(v, (VStruct, VClosure)):
        for x in v.f:
            leaves(x, out)
    elif isinstance(v, VEnum):
        out.append(v.d)
        for t in v.v.values():
            for x in t:
                leaves(x, out)
    elif isinstance(v, CSeq):
        for x in v.xs:
            leaves(x, out)
    elif isinstance(v, SStr):
        out.append(v.t)
    elif isinstance(v, VRef):
        for p in v.path:
            if is_z(p[1]):
                out.append(p[1])
    elif isinstance(v, VIteRef):
        out.append(v.cond)
        leaves(v.a, out)
        leaves(v.b, out)
    return out


def mentions(e, names):
    """Does a z3 term mention a constant or function whose name is in names?"""
    if not is_z(e):
        return False
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names:
            return True
        st.extend(t.children())
    return False
