"""C17: element statistics."""
from ..vals import *
from ..engine import QFact
from ..models import VIter
from ..specs import *
from ..invloop import LoopInv

INFO = {
    'level': 'exploration',
    'note': 'The element statistics (get_min_element) are proved for every list of up to 65535 species: number of sites and index of the first site of every '
            'species, no other keys, and the species with the fewest sites, the alphabetically first on ties. The formulas are checked on inputs only.',
    'bounded': ['formula and reduced formula (companion): the engine has no strings built from symbolic numbers'],
    'assumptions': ['at most 65535 sites (precondition; indices are kept in 16 bits)', 'HashMap iteration visits every key once in an arbitrary order', 'species names are elements of a totally ordered set'],
}


class Counted(LoopInv):
    """After p sites: each map holds the species seen so far, with their number and their first site."""
    label = 'sites counted'

    def __init__(self, spec):
        self.spec = spec

    def roles(self, eng, fr, st, mods):
        k0 = self.spec.species.get(0).t
        its = [k for k, v in mods.items() if isinstance(v, VIter)]
        maps = {}
        for k, v in mods.items():
            if isinstance(v, (CMap, SMap)):
                new = self.changed[k][0]
                n = conc(new.val(k0)) if isinstance(new, SMap) else None
                maps.setdefault({1: 'C', 0: 'F'}.get(n), []).append(k)
        if len(its) != 1 or sorted(map(str, maps)) != ['C', 'F'] or any(len(x) != 1 for x in maps.values()):
            return None
        return {'C': maps['C'][0], 'F': maps['F'][0], 'P': its[0]}

    def fresh(self, eng, st, vals, role):
        if role in 'CF':
            nm = fresh_name('map')
            has, val = z3.Function(nm + '.has', I, B), z3.Function(nm + '.val', I, I)
            return SMap(lambda k: has(zi(k)), lambda k: val(zi(k)))

    def inv(self, eng, st, v):
        p = v['P'].pos
        self.spec.define(st, p)
        C, F = (m if isinstance(m, SMap) else SMap(lambda k: False, lambda k: 0) for m in (v['C'], v['F']))
        return self.spec.counted(p, C, F)

    def exit(self, eng, st, v):
        return [('every site was counted', eq(v['P'].pos, self.spec.species.n))]

    def after(self, eng, st, v):
        # the first site shows that the maps of a structure with sites are not empty
        k = self.spec.species.get(0).t
        for nm, f in self.spec.counted(v['P'].pos, v['C'], v['F']):
            st.assume(f.fn(*(k, 0)[:f.arity]))


class MinElement(Spec):
    fn = 'Structure::get_min_element'

    called = False

    def result(self, eng, st, a, body):
        self.called = True
        f = [z3.Function(fresh_name('map'), I, t) for t in (B, I, B, I)]
        m = lambda h, v: SMap(lambda k: h(zi(k)), lambda k: v(zi(k)))
        return VStruct(body.locals[0], [SStr(fresh_int('least')), m(*f[:2]), m(*f[2:])])

    def requires(self, eng, st, a):
        s = eng.deref_all(st, a[0])
        self.species = s.f[SPEC]
        self.count = z3.Function(fresh_name('count'), I, I, I)
        st.facts.append(QFact(1, lambda k: eq(self.cnt(0, k), 0)))
        return [('at most 65535 sites', le(self.species.n, 65535))]

    def panic_ok(self, eng, st, a):
        return eq(eng.deref_all(st, a[0]).f[SPEC].n, 0)

    def prepare(self, eng):
        eng.loop_hook = Counted(self)

    def cnt(self, p, k):
        """Number of sites before p of species k (ghost)."""
        return self.count(zi(p), zi(k))

    def define(self, st, p):
        sp = self.species
        st.facts.append(QFact(1, lambda k: implies(le(0, p), eq(self.cnt(add(p, 1), k), add(self.cnt(p, k), ite(eq(sp.get(p).t, k), 1, 0)))), 'definition of the count'))

    def counted(self, p, C, F):
        sp, cnt = self.species, lambda k: self.cnt(p, k)
        return [('counts are between zero and the sites seen', QFact(1, lambda k: and_(le(0, cnt(k)), le(cnt(k), p)))),
                ('keys are the species seen', QFact(1, lambda k: and_(eq(C.has(k), lt(0, cnt(k))), eq(F.has(k), lt(0, cnt(k)))))),
                ('number of sites of every species', QFact(1, lambda k: implies(C.has(k), eq(C.val(k), cnt(k))))),
                ('a site of every species', QFact(1, lambda k: implies(F.has(k), and_(le(0, F.val(k)), lt(F.val(k), p), eq(sp.get(F.val(k)).t, k))))),
                ('and no earlier one', QFact(2, lambda k, j: implies(and_(F.has(k), le(0, j), lt(j, F.val(k))), ne(sp.get(j).t, k)))),
                ('species without a site so far', QFact(2, lambda k, j: implies(and_(not_(F.has(k)), le(0, j), lt(j, p)), ne(sp.get(j).t, k))))]

    def ensures(self, c):
        least, F, C = c.ret.f
        n = self.species.n
        low = lambda k: or_(lt(self.cnt(n, least.t), self.cnt(n, k)), and_(eq(self.cnt(n, least.t), self.cnt(n, k)), le(least.t, k)))
        if self.called:
            return self.counted(n, C, F) + [('has sites', lt(0, self.cnt(n, least.t))), ('fewest', QFact(1, lambda k: implies(lt(0, self.cnt(n, k)), low(k))))]
        at = [x[2] for x in c.st.log if x[0] == 'entries']
        to = [x[2] for x in c.st.log if x[0] == 'perm']
        if len(at) != 1 or len(to) != 1:
            raise Unsupported('not one sorted list of the counts')
        place = lambda k: to[0](at[0](zi(k)))      # of a species in that list
        return [x for x in self.counted(n, C, F)[1:]] + [
            ('the element named has sites', lt(0, self.cnt(n, least.t))),
            ('no species has fewer sites, and of those with as many it is the first', QFact(2, lambda k, j: implies(and_(lt(0, self.cnt(n, k)), eq(j, place(k))), low(k))))]


def build(V):
    V.spec(MinElement())
