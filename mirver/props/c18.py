"""C18: data crossing the Python interface."""
from ..vals import *
from ..engine import QFact
from ..specs import *
from ..verify import Spec

INFO = {
    'level': 'proof',
    'note': 'Proved for the Rust bodies of the five exported functions and their two helpers, for every lattice of nine '
            'numbers, any number of sites and any tolerances: the library is called once with exactly the structure and '
            'tolerances passed in, and its result is returned entry by entry. The library functions themselves are arbitrary here.',
    'bounded': ['conversion of Python objects by pyo3 and registration of the functions in the module (companion, called through Python)'],
    'trusted': ['pyo3 argument extraction and return conversion'],
}


def triples(n, tag):
    """n coordinate lists of three numbers each."""
    nm = fresh_name(tag)
    fs = [z3.Function(f'{nm}[{i}]', I, R) for i in range(3)]
    return SSeq(n, lambda j: CSeq([f(zi(j)) for f in fs]))


class Iface(Spec):
    """Arguments: nine lattice numbers, species, one triple per site, the flag, tolerances."""
    def args(self, eng, st, body):
        lat = CSeq([z3.Real(f'lattice[{i}]') for i in range(9)])
        n = z3.Int('sites')
        st.assume(le(0, n))
        out = [lat, eng.sym(st, body.locals[2], 'species'), triples(n, 'coords'), z3.Bool('coords_are_cart')]
        return out + [eng.sym(st, body.locals[i + 1], body.argname(i)) for i in range(4, body.nargs)]

    def requires(self, eng, st, a):
        return [('lattice is not singular', invertible(lattice_of(a[0])))]


def lattice_of(xs):
    """First vector first: the numbers column by column."""
    return VMat(3, 3, [xs.get(i) for i in range(9)])


def structure_of(lat, spec, x, cart, r):
    """r is the structure with these data."""
    f, t, n = r.f[FRAC], r.f[CART], x.n
    site = lambda k: VMat(3, 1, [x.get(k).get(i) for i in range(3)])
    return [('lattice holds the nine numbers, first vector first', same_value(r.f[LAT], lattice_of(lat))),
            ('as many species as passed in', eq(r.f[SPEC].n, spec.n)),
            ('species in the order passed in', QFact(1, lambda k: implies(in_range(k, spec.n), same_value(r.f[SPEC].get(k), spec.get(k))))),
            ('as many sites as passed in', and_(eq(f.n, n), eq(t.n, n))),
            ('coordinates are those passed in, in the basis the flag says', QFact(1, lambda k: implies(in_range(k, n), same_value(vite(cart, t.get(k), f.get(k)), site(k))))),
            ('Cartesian coordinates are the lattice times the fractional ones', QFact(1, lambda k: implies(in_range(k, n), same_value(t.get(k), mat_mul(r.f[LAT], f.get(k))))))]


class GenerateInput(Iface):
    fn = 'crystsymm::generate_input_structure'
    uses = (StructureNew(),)

    def ensures(self, c):
        lat, spec, x, cart = c.args
        return structure_of(lat, spec, x, cart, c.val())

    def result(self, eng, st, a, body):
        n = a[2].n
        return VStruct(body.locals[0], [lattice_of(a[0]), a[1], fresh_vecs(n, 'cart'), fresh_vecs(n, 'frac')])


def data_of(s, r):
    """r is the triple of lists describing the structure s."""
    lat, spec, x = r
    f = s.f[FRAC]
    return [('nine lattice numbers', eq(lat.n, 9))] + [(f'lattice number {i}, first vector first', eq(lat.get(i), s.f[LAT].d[i])) for i in range(9)] + [
        ('as many species as the structure has', eq(spec.n, s.f[SPEC].n)),
        ('species in the order of the structure', QFact(1, lambda k: implies(in_range(k, spec.n), same_value(spec.get(k), s.f[SPEC].get(k))))),
        ('as many coordinates as the structure has', eq(x.n, f.n)),
        ('three numbers per site', QFact(1, lambda k: implies(in_range(k, f.n), eq(x.get(k).n, 3)))),
        ('fractional coordinates in the order of the structure', QFact(1, lambda k: implies(in_range(k, f.n), and_(*[eq(x.get(k).get(i), f.get(k).d[i]) for i in range(3)]))))]


class GenerateOutput(Spec):
    fn = 'crystsymm::generate_output_structure_data'

    def ensures(self, c):
        return data_of(c.args[0], [c.val(x) for x in c.ret.f])

    def result(self, eng, st, a, body):
        s = a[0]
        return VStruct(body.locals[0], [CSeq(list(s.f[LAT].d)), s.f[SPEC], triples(s.f[FRAC].n, 'coords')])


class Library(Spec):
    """A library function, left arbitrary: records what it was called with and what it gave."""
    def __init__(self, fn):
        self.fn = fn

    def result(self, eng, st, a, body):
        r = eng.sym(st, body.locals[0], fresh_name('library'))
        st.log.append(('library call', [eng.deref_all(st, x) for x in a], r))
        return r


class Exported(Iface):
    def __init__(self, fn, callee, tols, own):
        self.fn, self.callee, self.tols, self.own = 'crystsymm::' + fn, callee, tols, own
        self.uses = (GenerateInput(), GenerateOutput(), Library(callee))

    def ensures(self, c):
        lat, spec, x, cart = c.args[:4]
        calls = [y for y in c.st.log if y[0] == 'library call']
        if len(calls) != 1:
            return [(f'{self.callee} is called exactly once', False)]
        a, r = calls[0][1:]
        out = [(f'{self.callee} is called exactly once', True), ('the result is Ok', eq(c.ret.d, 0))]
        out += [(f'passed on: {nm}', g) for nm, g in structure_of(lat, spec, x, cart, a[1])]
        for nm, g in self.tols(a, c.args[4:]):
            out.append((nm, g))
        return out + self.own(c, c.ret.v[0][0], r)


def own_tols(a, t):
    return [('distance tolerance passed on', eq(a[0].f[0], t[0])), ('angle tolerance passed on', eq(a[0].f[1], t[1]))]


def niggli_tol(a, t):
    return [('tolerance passed on', eq(a[2], t[0]))]


def returned(c, v, r):
    return [(f'returned: {nm}', g) for nm, g in data_of(r, [c.val(x) for x in v.f])]


def operations(c, v, r):
    num, sym, ops = [c.val(x) for x in v.f]
    lib = c.val(r.f[2]).f[0]
    k = lambda f: QFact(1, lambda k: implies(in_range(k, lib.n), f(c.val(ops.get(k)), lib.get(k))))
    lst = lambda o, i: c.val(o.f[i])
    return [('number of the group returned', eq(num, c.val(r.f[0]))), ('symbol of the group returned', same_value(sym, c.val(r.f[1]))),
            ('one entry per operation', eq(ops.n, lib.n)),
            ('nine rotation numbers', k(lambda o, s: eq(lst(o, 0).n, 9))), ('three translation numbers', k(lambda o, s: eq(lst(o, 1).n, 3))),
            ('rotation row by row', k(lambda o, s: and_(*[eq(lst(o, 0).get(3 * i + j), s.f[0].at(i, j)) for i in range(3) for j in range(3)]))),
            ('translation component by component', k(lambda o, s: and_(*[eq(lst(o, 1).get(i), s.f[1].d[i]) for i in range(3)])))]


def build(V):
    V.spec(GenerateInput())
    V.spec(GenerateOutput())
    V.spec(Exported('find_primitive', 'Reducer::find_primitive_cell', own_tols, returned))
    V.spec(Exported('niggli_reduce', 'Reducer::niggli_reduce', niggli_tol, returned))
    V.spec(Exported('get_standard_conventional_structure', 'SymmetryAnalyzer::get_standard_conventional_structure', own_tols, returned))
    V.spec(Exported('get_standard_primitive_structure', 'SymmetryAnalyzer::get_standard_primitive_structure', own_tols, returned))
    V.spec(Exported('get_space_group_info', 'SymmetryAnalyzer::get_space_group_info', own_tols, operations))
