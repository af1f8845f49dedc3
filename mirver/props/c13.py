"""C13: lattice characters and conventional cells."""
from ..vals import *
from ..specs import *
from ..reference import CHARACTERS, MULTIPLICITY
from .c07 import conditions, gram, transpose
from .c14 import table

INFO = {
    'level': 'proof',
    'note': 'For every lattice: the character returned is that of a matching row of the 44-row table, no row of an earlier set and no more special row of '
            'the same set matches; for every Niggli-reduced metric the metric of the conventional basis of each character has the shape of its Bravais type '
            'within a stated multiple of the tolerance. The volume ratio is the determinant of the tabulated basis.',
    'bounded': ['effect of f64 rounding (companion)',
                'that get_standard_conventional_structure stores the reduced lattice times the returned matrix (proved in C20; companion)'],
    'assumptions': ['the 44 rows were typed in from the International Tables (table 9.2.5.1) and are trusted',
                    'the squared length of the shortest vector exceeds 100 times the tolerance (precondition)'],
}
Z = Fraction(0)

# set, type, D, E, F, star conditions; letters are free entries
ROWS = '''1 1 I A/2 A/2 A/2; 2 1 I D D D; 3 1 II 0 0 0; 4 1 II D D D; 5 1 II -A/3 -A/3 -A/3; 6 1 II D D F *; 7 1 II D E E *; 8 1 II D E F *;
9 2 I A/2 A/2 A/2; 10 2 I D D F; 11 2 II 0 0 0; 12 2 II 0 0 -A/2; 13 2 II 0 0 F; 14 2 II D D F; 15 2 II -A/2 -A/2 0; 16 2 II D D F *; 17 2 II D E F *;
18 3 I A/4 A/2 A/2; 19 3 I D A/2 A/2; 20 3 I D E E; 21 3 II 0 0 0; 22 3 II -B/2 0 0; 23 3 II D 0 0; 24 3 II D -A/3 -A/3 *; 25 3 II D E E;
26 4 I A/4 A/2 A/2; 27 4 I D A/2 A/2; 28 4 I D A/2 2D; 29 4 I D 2D A/2; 30 4 I B/2 E 2E; 31 4 I D E F; 32 4 II 0 0 0; 33 4 II 0 E 0; 34 4 II 0 0 F;
35 4 II D 0 0; 36 4 II 0 -A/2 0; 37 4 II D -A/2 0; 38 4 II 0 0 -A/2; 39 4 II D 0 -A/2; 40 4 II -B/2 0 0; 41 4 II -B/2 E 0; 42 4 II -B/2 -A/2 0;
43 4 II D E F **; 44 4 II D E F'''
ROWS = {int(x[0]): x[1:] for x in (r.split() for r in ROWS.split(';'))}


def freedom(n):
    row = ROWS[n]
    return len({x[-1] for x in row[2:5] if x[-1] in 'DEF'}) - (len(row[5]) if len(row) > 5 else 0)


class Metric:
    """Squared lengths and scalar products of the columns of a lattice, with a tolerance."""
    def __init__(self, m, eps):
        self.v = {'A': m.at(0, 0), 'B': m.at(1, 1), 'C': m.at(2, 2), 'D': m.at(1, 2), 'E': m.at(0, 2), 'F': m.at(0, 1)}
        self.eps = eps

    def near(self, x, y):
        return le(absv(sub(x, y)), self.eps)

    def entry(self, t):
        if t == '0':
            return Z
        s, t = (Fraction(-1), t[1:]) if t[0] == '-' else (Fraction(1), t)
        if t[0] == '2':
            return mul(2, self.v[t[1]])
        n, _, d = t.partition('/')
        return mul(s / int(d or 1), self.v[n])

    def type_one(self):
        xs = [mul(2, self.v[k]) for k in 'DEF']
        big = and_(*[or_(le(self.eps, x), lt(x, neg(self.eps))) for x in xs])
        ng = [lt(x, neg(self.eps)) for x in xs]
        even = or_(and_(*[not_(x) for x in ng]), *[and_(*[x if i != k else not_(x) for i, x in enumerate(ng)]) for k in range(3)])
        return and_(big, even)

    def row(self, n):
        """Conditions of table row n."""
        row = ROWS[n]
        v, near = self.v, self.near
        out = {'1': [near(v['A'], v['B']), near(v['A'], v['C'])], '2': [near(v['A'], v['B'])], '3': [near(v['B'], v['C'])], '4': []}[row[0]]
        out.append(self.type_one() if row[1] == 'I' else not_(self.type_one()))
        for k, t in zip('DEF', row[2:5]):
            if t != k:
                out.append(near(self.entry(t), v[k]))
        if len(row) > 5:
            out.append(near(mul(2, absv(add(add(v['D'], v['E']), v['F']))), add(v['A'], v['B'])))
            if row[5] == '**':
                out.append(near(absv(add(mul(2, v['D']), v['F'])), v['B']))
        return and_(*out)


def shape(bravais, m, tol):
    """Shape of the conventional metric of a Bravais type within tol."""
    a, b, c, bc, ac, ab = m.at(0, 0), m.at(1, 1), m.at(2, 2), m.at(1, 2), m.at(0, 2), m.at(0, 1)
    zero = lambda x: le(absv(x), tol)
    right = {'a': [], 'm': [('b and c', bc), ('a and b', ab)], 'h': [('b and c', bc), ('a and c', ac)]}.get(bravais[0], [('b and c', bc), ('a and c', ac), ('a and b', ab)])
    out = [(f'{x} at right angles', zero(y)) for x, y in right]
    if bravais[0] in 'tch':
        out.append(('a and b of equal length', zero(sub(a, b))))
    if bravais[0] == 'c':
        out.append(('a and c of equal length', zero(sub(a, c))))
    if bravais[0] == 'h':
        out.append(('a and b at 120 degrees', zero(add(ab, mul(Fraction(1, 2), a)))))
    return out


def scaled(tol, lat):
    return mul(tol, F_POW(zr(absv(det3(lat))), z3.RealVal(Fraction(1, 3))))


class LatticeCharacter(Spec):
    fn = 'SymmetryAnalyzer::get_lattice_character'

    def parts(self, eng, st, a):
        lat = eng.deref_all(st, a[1]).f[LAT]
        return Metric(gram(lat), scaled(eng.deref_all(st, a[2]), lat))

    def prepare(self, eng):
        eng.split_values = lambda fr: fr.body.name.endswith('get_lattice_character')

    def requires(self, eng, st, a):
        m = self.parts(eng, st, a)
        return [('tolerance is positive and small against the squared lengths', and_(lt(Z, m.eps), lt(mul(100, m.eps), m.v['A']), lt(mul(100, m.eps), m.v['B'])))]

    def ensures(self, c):
        m = self.parts(c.eng, c.entry, c.args)
        r = c.ret
        out = [('a character from 1 to 44', between(1, r, 44))]
        for n in ROWS:
            out.append((f'row {n} holds when it is the answer', implies(eq(r, n), m.row(n))))
            ok = [k for k in ROWS if ROWS[k][0] < ROWS[n][0] or (ROWS[k][0] == ROWS[n][0] and freedom(k) <= freedom(n))]
            out.append((f'when row {n} holds the answer is not of a later set nor less special', implies(m.row(n), or_(*[eq(r, k) for k in ok]))))
        return out


class ConventionalMatrix(Spec):
    """The basis change is the tabulated one; the metric it leads to has the shape of the Bravais type."""
    fn = 'SymmetryAnalyzer::conventional_transformation_matrix'
    uses = (LatticeCharacter(),)
    K = 16

    def parts(self, eng, st, a):
        lat = eng.deref_all(st, a[1]).f[LAT]
        return gram(lat), scaled(Fraction(1e-5), lat)

    def requires(self, eng, st, a):
        g, eps = self.parts(eng, st, a)
        return [('tolerance is positive and small against the squared lengths', and_(lt(Z, eps), lt(mul(100, eps), g.at(0, 0)), lt(mul(100, eps), g.at(1, 1))))] + \
            [('Niggli condition: ' + n, x) for n, x in conditions(g, eps)]

    def ensures(self, c):
        g, eps = self.parts(c.eng, c.entry, c.args)
        m = Metric(g, eps)
        t, r = c.ret.f
        out = [('a character from 1 to 44', between(1, r, 44))]
        for n in ROWS:
            out.append((f'row {n} holds when it is the answer', implies(eq(r, n), m.row(n))))
            mat = VMat(3, 3, [Fraction(conc(x)) for x in transpose(self.conv.d[n][1]).d])
            out.append((f'character {n} gets its tabulated basis', implies(eq(r, n), same_value(t, mat))))
            for nm, x in shape(CHARACTERS[n - 1], mat_mul(mat_mul(transpose(mat), g), mat), mul(self.K, eps)):
                out.append((f'character {n} ({CHARACTERS[n - 1]}): {nm}', implies(eq(r, n), x)))
        return out


class PrimitiveMatrix(Spec):
    """For one character: the basis of its centring and its Bravais type."""
    fn = 'SymmetryAnalyzer::primitive_transformation_matrix'

    def __init__(self, n, prim, brav):
        self.n, self.prim, self.brav = n, prim, brav

    @property
    def label(self):
        return f'{self.fn} ({self.n})'

    def args(self, eng, st, body):
        return [eng.sym(st, body.locals[1], body.argname(0)), VRef(eng.new_cell(st, self.n))]

    def ensures(self, c):
        t, b = c.ret.f[0], c.val(c.ret.f[1])
        name = lambda k: c.eng.prog.ty(k.ty)['variants'][conc(k.d)]['name']
        cen = [m for k, m in self.prim.d.values() if name(k) == CHARACTERS[self.n - 1][1]][0]
        mat = VMat(3, 3, [Fraction(conc(cen.at(i, j)), conc(cen.at(3, 3))) for j in range(3) for i in range(3)])
        return [(f'character {self.n} gets the basis of its centring', same_value(t, mat)), (f'character {self.n} gets its Bravais type', name(b) == CHARACTERS[self.n - 1])]


def tables(V, eng, o):
    conv = table(V, eng, 'LATTICE_CHAR_TO_CONV_TRANS')
    b = conv[0]
    for n in ROWS:
        d = det3(conv[1].d[n][1])
        eng.oblige(eng_state(), 'ensures', conc(d) == MULTIPLICITY[CHARACTERS[n - 1][1]], b.name, b.line, name=f'character {n}: volume ratio is the multiplicity of its centring')
    return conv[1]


def eng_state():
    from ..engine import State
    return State()


def build(V):
    V.spec(LatticeCharacter())
    got = {}

    def run(eng, o):
        got['conv'] = tables(V, eng, o)
        got['prim'] = table(V, eng, 'CENTERING_TO_PRIM_TRANS')[1]
        got['brav'] = table(V, eng, 'LATTICE_CHAR_TO_BRAVAIS')[1]
    V.task('conventional bases', 'LATTICE_CHAR_TO_CONV_TRANS', run)
    if 'conv' in got:
        c = ConventionalMatrix()
        c.conv = got['conv']
        V.spec(c)
        for n in ROWS:
            V.spec(PrimitiveMatrix(n, got['prim'], got['brav']))
