"""C15: decoding of encoded operations."""
from ..vals import *
from ..engine import State, QFact
from ..specs import *
from ..verify import Spec, induction

INFO = {
    'level': 'proof',
    'note': 'Digits are proved for every number, base 2..127, offset and digit count; decode_spg_op for every number. '
            'Re-encoding is proved for bases 2, 3, 8, 10, 127 and up to four digit counts each.',
    'bounded': ['re-encoding for other bases and digit counts (follows from the digits by arithmetic; companion)'],
}


class Decode(Spec):
    """Digit k from the right is the k-th quotient's remainder: all numbers, bases 2..127 and digit counts."""
    fn = 'utils::decode'

    def requires(self, eng, st, a):
        return [('base from 2 to 127', between(2, a[1], 127)), ('offset not negative', le(0, a[2])), ('digit count not negative', le(0, a[3]))]

    def ensures(self, c):
        e, base, sb, n = c.args
        # Q(k): the number divided k times by the base (rounding down)
        Q = z3.Function('quotient', I, I)
        c.st.assume(eq(Q(0), e))
        c.st.facts.append(QFact(1, lambda k: implies(in_range(k, n), eq(Q(zi(add(k, 1))), zi(Q(zi(k))) / zi(base)))))
        out = c.val()
        loops = [x for x in c.st.log if x[0] == 'loop' and x[1] == 'rec' and is_scalar(x[7])]
        if conc(n) is None:
            if len(loops) != 1:
                raise Unsupported('decode is not a loop over one running quotient')
            f = loops[0][2]
            induction(c.eng, c.st, c.body, 'running quotient', lambda j: eq(f(j), Q(zi(j))), 0, n)
        return [('requested number of digits', eq(out.n, n)),
                ('digits, most significant first, less the offset', QFact(1, lambda k: implies(in_range(k, n), eq(
                    out.get(sub(sub(n, 1), k)), sub(zi(Q(zi(k))) % zi(base), sb)))))]


class DecodeRoundTrip(Spec):
    """Re-encoding, for one base and digit count."""
    fn = 'utils::decode'

    def __init__(self, base, n):
        self.base, self.n = base, n

    @property
    def label(self):
        return f'utils::decode (base {self.base}, {self.n} digits)'

    def args(self, eng, st, body):
        e, sb = z3.Int('e'), z3.Int('sub')
        st.assume(between(0, e, 2 ** 32 - 1))
        st.assume(between(0, sb, 127))
        return [e, self.base, sb, self.n]

    def ensures(self, c):
        e, base, sb, n = c.args
        xs = c.val()
        if conc(xs.n) != n:
            return [('requested number of digits', eq(xs.n, n))]
        v = 0
        for k in range(n):
            v = add(mul(v, base), add(xs.get(k), sb))
        return [('requested number of digits', True), ('each digit below the base', and_(*[and_(le(0, add(xs.get(k), sb)), lt(add(xs.get(k), sb), base)) for k in range(n)])),
                ('re-encoding gives the number back', eq(v, zi(e) % base ** n))]


TRANS = [0, 2, 3, 4, 6, 8, 9, 10]


class DecodeSpgOp(Spec):
    fn = 'utils::decode_spg_op'

    def ensures(self, c):
        num = c.args[0]
        rot, tr = c.eng.deref_all(c.st, c.ret.f[0]), c.eng.deref_all(c.st, c.ret.f[1])
        out = [('nine rotation entries', eq(rot.n, 9)), ('three translation components', eq(tr.n, 3))]
        if conc(rot.n) == 9 and conc(tr.n) == 3:
            v, w = 0, zi(num) / 3 ** 9
            for k in range(9):
                out.append((f'rotation entry {k} from -1 to 1', between(-1, rot.get(k), 1)))
                v = add(mul(v, 3), add(rot.get(k), 1))
            out.append(('rotation entries are the low nine ternary digits', eq(v, zi(num) % 3 ** 9)))
            for k in range(3):
                d = (w / 8 ** (2 - k)) % 8
                t = TRANS[7]
                for j in range(6, -1, -1):
                    t = ite(eq(d, j), TRANS[j], t)
                out.append((f'translation component {k} is its octal digit in twelfths', eq(tr.get(k), t)))
        return out


def build(V):
    V.spec(Decode())
    V.spec(DecodeSpgOp())
    for b in (2, 3, 8, 10, 127):
        w = 1
        while b ** w < 2 ** 32:
            w += 1
        for n in sorted({0, 1, w // 2, w}):
            V.spec(DecodeRoundTrip(b, n))
