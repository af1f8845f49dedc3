"""Models (assumed contracts) of the external functions the crate calls: std, itertools and nalgebra.
Every model used in a run is reported as an assumption."""
import re
import z3
from .vals import *


class Ctx:
    def __init__(self, eng, st, T, name, rname, args, fr, line, dest_ty, arg_tys):
        self.eng, self.st, self.T, self.name, self.rname = eng, st, T, name, rname
        self.args, self.fr, self.line, self.dest_ty, self.arg_tys = args, fr, line, dest_ty, arg_tys

    def val(self, i):
        """Argument i with all references followed."""
        return self.eng.deref_all(self.st, self.args[i])

    def oblige(self, kind, goal, name):
        self.eng.oblige(self.st, kind, goal, self.fr.body.name if self.fr else '?', self.line, name=name)

    def call(self, f, *a):
        s, v = self.eng.call_single(self.st, f, list(a))
        self.st = s
        return v


def norm(name):
    n = name
    prev = None
    while prev != n:
        prev = n
        n = re.sub(r'<[^<>]*>', '', n)
    n = n.replace('->', '')
    n = re.sub(r'::(::)+', '::', n)
    n = n.strip(':')
    n = re.sub(r'^(core|alloc)::', 'std::', n)
    return n


STD, NALG = {}, {}


def std(*names):
    def d(f):
        for n in names:
            STD[n] = f
        return f
    return d


def nalg(*names):
    def d(f):
        for n in names:
            NALG[n] = f
        return f
    return d


_norm_cache = {}


def dispatch(ctx):
    nm = _norm_cache.get(ctx.name)
    if nm is None:
        nm = _norm_cache[ctx.name] = norm(ctx.name)
    f = None
    if nm.startswith('nalgebra'):
        f = NALG.get(nm.rsplit('::', 1)[1])
    else:
        f = STD.get(nm)
    if f is None:
        raise Unsupported(f'no model for {nm} ({ctx.rname})')
    ctx.eng.used_models.add(ctx.rname or ctx.name)
    r = f(ctx)
    if isinstance(r, list):
        return r
    return [(ctx.st, r)]


UNIT = VStruct(None, ())


def some(x, ty=None):
    return VEnum(ty, 1, {1: (x,)})


NONE = VEnum(None, 0, {0: ()})


def opt(cond, x):
    c = conc(cond)
    if c is not None:
        return some(x) if c else NONE
    return VEnum(None, ite(cond, 1, 0), {0: (), 1: (x,)})


# ---- iterators -------------------------------------------------------------------------------

class Src:
    def items(self, ctx):
        """All items of a source of known length."""
        n = conc(self.n)
        if n is None:
            raise Unsupported('iterator of unknown length')
        return [self.item(ctx, i) for i in range(n)]


class SliceSrc(Src):
    def __init__(self, ref, n):
        self.ref, self.n = ref, n

    def item(self, ctx, i):
        return ctx.eng.extend(self.ref, ('i', i))


class OwnSrc(Src):
    def __init__(self, seq):
        self.seq, self.n = seq, seq.n

    def item(self, ctx, i):
        return self.seq.get(i)


class RangeSrc(Src):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        n = sub(hi, lo)
        c = conc(n)
        self.n = max(c, 0) if c is not None else (n if conc(lo) == 0 and is_nonneg(hi) else ite(ge(n, 0), n, 0))

    def item(self, ctx, i):
        return add(self.lo, i)


def is_nonneg(x):
    return is_z(x) and (x.decl().name().endswith('.len'))


class MapSrc(Src):
    def __init__(self, src, f):
        self.src, self.f, self.n = src, f, src.n

    def item(self, ctx, i):
        return ctx.call(self.f, self.src.item(ctx, i))


class EnumSrc(Src):
    def __init__(self, src):
        self.src, self.n = src, src.n

    def item(self, ctx, i):
        return VStruct(None, [i, self.src.item(ctx, i)])


class ZipSrc(Src):
    def __init__(self, a, b):
        self.a, self.b = a, b
        ca, cb = conc(a.n), conc(b.n)
        if ca is not None and cb is not None:
            self.n = min(ca, cb)
        elif same(a.n, b.n):
            self.n = a.n
        else:
            self.n = ite(le(a.n, b.n), a.n, b.n)

    def item(self, ctx, i):
        return VStruct(None, [self.a.item(ctx, i), self.b.item(ctx, i)])


class ChainSrc(Src):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = add(a.n, b.n)

    def item(self, ctx, i):
        c = conc(lt(i, self.a.n))
        if c is True:
            return self.a.item(ctx, i)
        if c is False:
            return self.b.item(ctx, sub(i, self.a.n))
        return vite(lt(i, self.a.n), self.a.item(ctx, i), self.b.item(ctx, sub(i, self.a.n)))


class DerefSrc(Src):
    def __init__(self, src):
        self.src, self.n = src, src.n

    def item(self, ctx, i):
        return ctx.eng.read(ctx.st, self.src.item(ctx, i))


class RevSrc(Src):
    def __init__(self, src):
        self.src, self.n = src, src.n

    def item(self, ctx, i):
        return self.src.item(ctx, sub(sub(self.n, 1), i))


class SkipSrc(Src):
    def __init__(self, src, k):
        self.src, self.k = src, k
        m = sub(src.n, k)
        c = conc(m)
        self.n = max(0, c) if c is not None else ite(ge(m, 0), m, 0)

    def item(self, ctx, i):
        return self.src.item(ctx, add(i, self.k))


class TakeSrc(Src):
    def __init__(self, src, k):
        self.src = src
        cn, ck = conc(src.n), conc(k)
        self.n = min(cn, ck) if cn is not None and ck is not None else ite(le(src.n, k), src.n, k)

    def item(self, ctx, i):
        return self.src.item(ctx, i)


class StepSrc(Src):
    def __init__(self, src, k):
        self.src, self.k = src, k
        n = conc(src.n)
        if n is None:
            raise Unsupported('step_by over unknown length')
        self.n = -(-n // k)

    def item(self, ctx, i):
        return self.src.item(ctx, mul(i, self.k))


class ChunkSrc(Src):
    def __init__(self, ref, n, k):
        self.ref, self.k = ref, k
        if n is None or k is None:
            raise Unsupported('chunks of unknown length')
        self.total = n
        self.n = -(-n // k)

    def item(self, ctx, i):
        s = ctx.eng.read(ctx.st, self.ref)
        lo = conc(i) * self.k
        return VRef(ctx.eng.new_cell(ctx.st, CSeq(s.xs[lo:min(lo + self.k, self.total)])))


class ProductSrc(Src):
    """Row-major product of two sources; with unknown lengths the two component indices of the k-th pair are
    uninterpreted functions related by inverse facts."""
    def __init__(self, a, b, ctx):
        self.a, self.b = a, b
        ca, cb = conc(a.n), conc(b.n)
        self.inv = None
        if cb is not None:
            self.n = mul(a.n, cb)
            self.i1 = lambda k: ctx.eng.int_div(k, cb, False) if cb else 0
            self.i2 = lambda k: ctx.eng.int_rem(k, cb, False) if cb else 0
            self.inv = lambda x, y: add(mul(x, cb), y)
        else:
            nm = fresh_name('prod')
            f1, f2 = z3.Function(nm + '.1', I, I), z3.Function(nm + '.2', I, I)
            self.i1, self.i2 = (lambda k: f1(zi(k))), (lambda k: f2(zi(k)))
            self.n = mul(a.n, b.n)
            g = z3.Function(nm + '.pair', I, I, I)
            self.inv = lambda x, y: g(zi(x), zi(y))
            na, nb, n = a.n, b.n, self.n
            from .engine import QFact
            ctx.st.facts.append(QFact(1, lambda k: implies(and_(le(0, k), lt(k, n)), and_(
                le(0, f1(zi(k))), lt(f1(zi(k)), na), le(0, f2(zi(k))), lt(f2(zi(k)), nb),
                eq(k, add(mul(f1(zi(k)), nb), f2(zi(k)))))), 'product index'))
            ctx.st.facts.append(QFact(2, lambda x, y: implies(and_(le(0, x), lt(x, na), le(0, y), lt(y, nb)), and_(
                eq(f1(zi(self.inv(x, y))), x), eq(f2(zi(self.inv(x, y))), y), le(0, self.inv(x, y)),
                lt(self.inv(x, y), n), eq(self.inv(x, y), add(mul(x, nb), y)))), 'product pair'))

    def item(self, ctx, k):
        return VStruct(None, [self.a.item(ctx, self.i1(k)), self.b.item(ctx, self.i2(k))])


class FlatSrc(Src):
    """((a, b), c) -> (a, b, c)"""
    def __init__(self, src):
        self.src, self.n = src, src.n

    def item(self, ctx, i):
        v = self.src.item(ctx, i)
        return VStruct(None, list(v.f[0].f) + [v.f[1]])


class VIter:
    """An iterator: a source and the number of items already taken."""
    __slots__ = ('src', 'pos')

    def __init__(self, src, pos=0):
        self.src, self.pos = src, pos

    def remaining(self, eng, st):
        c = conc(self.src.n)
        p = conc(self.pos)
        if c is not None and p is not None:
            return max(0, c - p)
        return sub(self.src.n, self.pos)

    def merge(self, c, other):
        if self.src is other.src:
            return VIter(self.src, ite(c, self.pos, other.pos))
        raise NoMerge('iterators')


def range_iter(lo, hi):
    return VIter(RangeSrc(lo, hi))


def src_of(ctx, v):
    """Source of the remaining items of an iterator value (or of something iterable)."""
    if isinstance(v, VIter):
        if conc(v.pos) == 0:
            return v.src
        return SkipSrc(v.src, v.pos)
    if isinstance(v, (VRef, VIteRef)):
        inner = ctx.eng.deref_all(ctx.st, v)
        if isinstance(inner, VIter):
            return src_of(ctx, inner)
        r = v
        while isinstance(ctx.eng.read(ctx.st, r), VRef):
            r = ctx.eng.read(ctx.st, r)
        if isinstance(inner, Seq):
            return SliceSrc(r, inner.n)
        if isinstance(inner, CMap):
            return OwnSrc(CSeq([VStruct(None, [VRef(ctx.eng.new_cell(ctx.st, k)), ctx.eng.extend(r, ('map', kk))])
                                for kk, (k, x) in ctx.eng.hash_order(inner.d.items())]))
        if isinstance(inner, CSet):
            return OwnSrc(CSeq([VRef(ctx.eng.new_cell(ctx.st, k)) for k in ctx.eng.hash_order(inner.d.values())]))
        if isinstance(inner, VEnum):
            d = conc(inner.d)
            if d is not None:
                return OwnSrc(CSeq([ctx.eng.extend(r, ('vf', (1, 0)))] if d == 1 else []))
        if hasattr(inner, 'iter_ref'):
            return inner.iter_ref(ctx, r)
    if isinstance(v, Seq):
        return OwnSrc(v)
    if isinstance(v, CMap):
        return OwnSrc(CSeq([VStruct(None, [k, x]) for k, x in ctx.eng.hash_order(v.d.values())]))
    if isinstance(v, CSet):
        return OwnSrc(CSeq(ctx.eng.hash_order(v.d.values())))
    if isinstance(v, VEnum):
        d = conc(v.d)
        if d is not None:
            return OwnSrc(CSeq([v.v[1][0]] if d == 1 else []))
    if isinstance(v, SMap):
        return OwnSrc(entries(ctx, v))
    if hasattr(v, 'iter_own'):
        return v.iter_own(ctx)
    raise Unsupported(f'iteration over {type(v).__name__}')


@std('std::iter::IntoIterator::into_iter')
def _(c):
    v = c.args[0]
    if isinstance(v, VIter):
        return v
    return VIter(src_of(c, v))


@std('std::slice::iter', 'std::slice::iter_mut', 'std::collections::HashMap::iter', 'std::collections::HashMap::iter_mut',
     'std::collections::HashSet::iter', 'std::vec::Vec::iter', 'std::option::Option::iter')
def _(c):
    return VIter(src_of(c, c.args[0]))


@std('std::vec::Vec::drain')
def _(c):
    raise Unsupported('drain')


@std('std::collections::HashMap::values', 'std::collections::HashMap::into_values', 'std::collections::HashMap::values_mut')
def _(c):
    s = src_of(c, c.args[0])
    return VIter(OwnSrc(CSeq([x.f[1] for x in s.items(c)])))


@std('std::collections::HashMap::keys', 'std::collections::HashMap::into_keys')
def _(c):
    s = src_of(c, c.args[0])
    return VIter(OwnSrc(CSeq([x.f[0] for x in s.items(c)])))


@std('std::iter::Iterator::next')
def _(c):
    ref = c.args[0]
    it = c.eng.read(c.st, ref)
    while isinstance(it, VRef):
        ref, it = it, c.eng.read(c.st, it)
    if not isinstance(it, VIter):
        raise Unsupported(f'next on {type(it).__name__}')
    n, p = it.src.n, it.pos
    more = lt(p, n)
    if same(p, n):
        more = False
    cm = conc(more)
    if cm is None:
        cm = c.eng.decide(c.st, [more])[0]
    if cm is True:
        c.eng.write(c.st, ref, VIter(it.src, add(p, 1)))
        v = it.src.item(c, p)
        return some(v)
    if cm is False:
        return NONE
    st0 = c.st
    c.st = st0.copy()
    base = len(st0.pc)
    c.st.assume(more)
    v = it.src.item(c, p)
    for x in c.st.pc[base + 1:]:
        st0.assume(implies(more, x))
    if len(c.st.facts) > len(st0.facts):
        st0.facts = c.st.facts
    for k, x in c.st.mem.items():
        if k not in st0.mem:
            st0.mem[k] = x
        elif st0.mem[k] is not x:
            raise Unsupported('iterator item with side effects under unknown length')
    c.st = st0
    c.eng.write(c.st, ref, VIter(it.src, ite(more, add(p, 1), p)))
    return opt(more, v)


@std('std::iter::ExactSizeIterator::len', 'std::iter::Iterator::count')
def _(c):
    it = c.eng.deref_all(c.st, c.args[0])
    if not isinstance(it, VIter):
        raise Unsupported('len of an iterator')
    return it.remaining(c.eng, c.st)


def adaptor(name, mk):
    def f(c):
        return VIter(mk(c, src_of(c, c.args[0])))
    STD[name] = f


adaptor('std::iter::Iterator::map', lambda c, s: MapSrc(s, c.args[1]))
adaptor('std::iter::Iterator::enumerate', lambda c, s: EnumSrc(s))
adaptor('std::iter::Iterator::zip', lambda c, s: ZipSrc(s, src_of(c, c.args[1])))
adaptor('itertools::Itertools::zip_eq', lambda c, s: ZipSrc(s, src_of(c, c.args[1])))
adaptor('std::iter::Iterator::chain', lambda c, s: ChainSrc(s, src_of(c, c.args[1])))
adaptor('std::iter::Iterator::copied', lambda c, s: DerefSrc(s))
adaptor('std::iter::Iterator::cloned', lambda c, s: DerefSrc(s))
adaptor('std::iter::Iterator::rev', lambda c, s: RevSrc(s))
adaptor('std::iter::Iterator::skip', lambda c, s: SkipSrc(s, c.args[1]))
adaptor('std::iter::Iterator::take', lambda c, s: TakeSrc(s, c.args[1]))
adaptor('std::iter::Iterator::step_by', lambda c, s: StepSrc(s, conc(c.args[1])))
adaptor('itertools::Itertools::cartesian_product', lambda c, s: ProductSrc(s, src_of(c, c.args[1]), c))
adaptor('itertools::cons_tuples', lambda c, s: FlatSrc(s))
adaptor('std::iter::Iterator::by_ref', lambda c, s: s)
adaptor('std::iter::Iterator::peekable', lambda c, s: s)
adaptor('std::iter::Iterator::fuse', lambda c, s: s)


@std('std::iter::zip')
def _(c):
    return VIter(ZipSrc(src_of(c, c.args[0]), src_of(c, c.args[1])))


@std('std::slice::chunks', 'std::slice::chunks_exact')
def _(c):
    return VIter(ChunkSrc(c.args[0], conc(c.val(0).n), conc(c.args[1])))


@std('std::iter::Iterator::filter', 'std::iter::Iterator::filter_map', 'std::iter::Iterator::flat_map',
     'std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while', 'std::iter::Iterator::flatten')
def _(c):
    s = src_of(c, c.args[0])
    kind = c.name.rsplit('::', 1)[1]
    out = []
    for x in s.items(c):
        if kind == 'filter':
            k = conc(c.call(c.args[1], VRef(c.eng.new_cell(c.st, x))))
            if k is None:
                raise Unsupported('filter with an undetermined predicate')
            if k:
                out.append(x)
        elif kind == 'filter_map':
            r = c.call(c.args[1], x)
            k = conc(r.d)
            if k is None:
                raise Unsupported('filter_map with an undetermined result')
            if k == 1:
                out.append(r.v[1][0])
        elif kind == 'flat_map':
            out += src_of(c, c.call(c.args[1], x)).items(c)
        elif kind == 'flatten':
            out += src_of(c, x).items(c)
        else:
            raise Unsupported(kind)
    return VIter(OwnSrc(CSeq(out)))


def generic_item(c, s, record=True):
    """Item at a fresh index inside the range, as (index, value, path facts added)."""
    k = fresh_int('it')
    base = len(c.st.pc)
    c.st.assume(and_(le(0, k), lt(k, s.n)))
    v = s.item(c, k)
    return k, v, base


def comprehension(c, s):
    """Sequence of all items of a source; lazily evaluated when the length is unknown."""
    n = conc(s.n)
    if n is not None:
        return CSeq(s.items(c))
    eng = c.eng
    # evaluate once at a generic index: records obligations, checks purity
    st0 = c.st
    start = counter()
    tmp = st0.copy()
    c.st = tmp
    nf = len(tmp.facts)
    k, v, base = generic_item(c, s)
    check_pure(st0, c.st)
    extra = c.st.pc[base + 1:]
    facts = c.st.facts[nf:]
    c.st = st0
    v, extra, lift = skolemise(v, extra, k, start)
    if extra:
        from .engine import QFact
        cond = and_(*extra)
        n_ = s.n
        st0.facts.append(QFact(1, lambda j: implies(and_(le(0, j), lt(j, n_)), z3.substitute(zb(cond), (k, zi(j)))), 'item facts'))
    for f in facts:
        st0.facts.append(lift_fact(f, k, lift, s.n))
    return SSeq(s.n, lambda j: subst(v, [(k, j)]))


def counter():
    from .vals import _cnt
    return _cnt[0]


def fresh_consts(terms, start):
    """Constants named !k with k > start, and whether a fresh function symbol occurs."""
    seen, out, fns = set(), {}, False
    st = [t for t in terms if is_z(t)]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            if '!' in nm:
                tail = nm.split('!', 1)[1]
                num = re.match(r'\d+', tail)
                if num and int(num.group()) > start:
                    if t.num_args() == 0:
                        out[nm] = t
                    else:
                        fns = True
        st.extend(t.children())
    return list(out.values()), fns


def skolemise(v, extra, k, start):
    """Turn constants introduced while evaluating at generic index k into functions of the index."""
    terms = leaves_deep(v) + list(extra)
    cs, fns = fresh_consts(terms, start)
    cs = [x for x in cs if not x.eq(k)]
    if fns:
        raise Unsupported('function symbols introduced under an iterator')
    pairs = []
    for x in cs:
        f = z3.Function(x.decl().name() + '$sk', I, x.sort())
        pairs.append((x, f(k)))
    if pairs:
        v = subst(v, pairs)
        extra = [z3.substitute(e, *pairs) for e in extra]
    return v, extra, pairs


def lift_fact(f, k, pairs, n):
    from .engine import QFact

    def fn(j, *rest):
        ks = [fresh_int('q') for _ in rest]
        e = zb(f.fn(*ks))
        if pairs:
            e = z3.substitute(e, *pairs)
        e = z3.substitute(e, (k, zi(j)), *[(a, zi(b)) for a, b in zip(ks, rest)])
        return implies(and_(le(0, j), lt(j, n)), e)
    return QFact(f.arity + 1, fn, f.name + ' (lifted)')


def leaves_deep(v):
    if isinstance(v, (SSeq, USeq, PSeq)):
        k = z3.Int('probe')
        return leaves_deep(v.get(k)) + [v.n]
    if isinstance(v, VStruct) or isinstance(v, VClosure):
        return [x for y in v.f for x in leaves_deep(y)]
    if isinstance(v, CSeq):
        return [x for y in v.xs for x in leaves_deep(y)]
    if isinstance(v, VEnum):
        return [v.d] + [x for t in v.v.values() for y in t for x in leaves_deep(y)]
    return leaves(v)


def check_pure(a, b):
    for k, x in a.mem.items():
        if k in b.mem and b.mem[k] is not x:
            raise Unsupported('closure with side effects under unknown length')


@std('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter', 'itertools::Itertools::collect_vec')
def _(c):
    s = src_of(c, c.args[0])
    T = c.eng.prog.ty(c.dest_ty) if c.dest_ty is not None else None
    n = T['name'] if T and T['k'] == 'adt' else ''
    if n == 'std::collections::HashSet':
        return CSet({key_of(c.eng.deref_all(c.st, x)): x for x in s.items(c)})
    if n == 'std::collections::HashMap':
        return CMap({key_of(c.eng.deref_all(c.st, x.f[0])): (x.f[0], x.f[1]) for x in s.items(c)})
    if n == 'std::string::String':
        return ''.join(c.eng.deref_all(c.st, x) for x in s.items(c))
    return comprehension(c, s)


@std('std::iter::Iterator::for_each')
def _(c):
    s = src_of(c, c.args[0])
    n = conc(s.n)
    if n is None:
        raise Unsupported('for_each over unknown length')
    for i in range(n):
        c.call(c.args[1], s.item(c, i))
    return UNIT


def bool_fold(c, s, f, is_all):
    """all/any: exact for known lengths, otherwise a fresh boolean with its defining facts."""
    n = conc(s.n)
    if n is not None:
        out = []
        for i in range(n):
            x = c.call(f, s.item(c, i)) if f is not None else s.item(c, i)
            out.append(x)
            if conc(x) is (not is_all):
                break
        return and_(*out) if is_all else or_(*out)
    from .engine import QFact
    st0 = c.st
    start = counter()
    c.st = st0.copy()
    nf = len(st0.facts)
    k, it, base = generic_item(c, s)
    p = c.call(f, it)
    check_pure(st0, c.st)
    extra = c.st.pc[base + 1:]
    newf = c.st.facts[nf:]
    c.st = st0
    p, extra, pairs = skolemise(p, extra, k, start)
    p = zb(p)
    if extra:
        cond = zb(and_(*extra))
        st0.facts.append(QFact(1, lambda j: implies(and_(le(0, j), lt(j, s.n)), z3.substitute(cond, (k, zi(j)))), 'item facts'))
    for f_ in newf:
        st0.facts.append(lift_fact(f_, k, pairs, s.n))
    r = fresh_bool('all' if is_all else 'any')
    w = fresh_int('wit')
    q = p if is_all else z3.Not(p)
    st0.facts.append(QFact(1, lambda j: implies(and_(r if is_all else z3.Not(r), le(0, j), lt(j, s.n)), z3.substitute(q, (k, zi(j)))),
                           'all' if is_all else 'none'))
    st0.assume(implies(z3.Not(r) if is_all else r, and_(le(0, w), lt(w, s.n), z3.substitute(z3.Not(q), (k, w)))))
    st0.log.append(('idx', w))
    return r


@std('std::iter::Iterator::all')
def _(c):
    return bool_fold(c, src_of(c, c.args[0]), c.args[1], True)


@std('std::iter::Iterator::any')
def _(c):
    return bool_fold(c, src_of(c, c.args[0]), c.args[1], False)


@std('std::iter::Iterator::fold')
def _(c):
    s = src_of(c, c.args[0])
    acc = c.args[1]
    for x in s.items(c):
        acc = c.call(c.args[2], acc, x)
    return acc


@std('std::iter::Iterator::sum', 'std::iter::Iterator::product')
def _(c):
    s = src_of(c, c.args[0])
    isf = c.eng.prog.ty(c.dest_ty)['k'] == 'float'
    one = c.name.endswith('product')
    acc = (Fraction(int(one)) if isf else int(one))
    for x in s.items(c):
        acc = (mul if one else add)(acc, c.eng.deref_all(c.st, x))
    if not isf and conc(acc) is None:
        lo, hi = c.eng.prog.int_range(c.dest_ty)
        c.oblige('panic-free', and_(le(lo, acc), le(acc, hi)), 'no overflow in sum')
    return acc


@std('std::iter::Iterator::last')
def _(c):
    s = src_of(c, c.args[0])
    n = conc(s.n)
    if n is None:
        raise Unsupported('last of unknown length')
    return some(s.item(c, n - 1)) if n else NONE


@std('std::iter::Iterator::nth')
def _(c):
    s = src_of(c, c.args[0])
    n, k = conc(s.n), conc(c.args[1])
    if n is None or k is None:
        raise Unsupported('nth')
    return some(s.item(c, k)) if k < n else NONE


@std('std::iter::Iterator::position', 'std::iter::Iterator::find')
def _(c):
    s = src_of(c, c.args[0])
    kind = c.name.rsplit('::', 1)[1]
    n = conc(s.n)
    if n is None:
        raise Unsupported(kind + ' over unknown length')
    res = NONE
    hits = []
    for i in range(n):
        x = s.item(c, i)
        p = c.call(c.args[1], x if kind == 'position' else VRef(c.eng.new_cell(c.st, x)))
        hits.append((p, i if kind == 'position' else x))
    for p, x in reversed(hits):
        cp = conc(p)
        if cp is True:
            res = some(x)
        elif cp is None:
            res = vite(p, some(x), res)
    return res


def first_best(c, s, mx):
    """min_by_key gives the first of the smallest, max_by_key the last of the largest."""
    from .engine import QFact
    n, m, eng, snap = s.n, fresh_int('best'), c.eng, c.st.copy()

    def key(j):
        old, eng.record = eng.record, False
        st, c.st = c.st, snap.copy()
        try:
            k = eng.deref_all(c.st, c.call(c.args[1], VRef(eng.new_cell(c.st, s.item(c, j)))))
        finally:
            eng.record = old
            c.st = st
        if not is_scalar(k):
            raise Unsupported('min_by_key over this key type')
        return k
    before = (lambda a, b: lt(b, a)) if mx else lt
    c.st.assume(or_(eq(n, 0), and_(le(0, m), lt(m, n))))
    c.st.facts.append(QFact(1, lambda j: implies(and_(le(0, j), lt(j, n)), and_(not_(before(key(j), key(m))), implies(
        lt(m, j) if mx else lt(j, m), before(key(m), key(j))))), 'smallest key'))
    return VEnum(None, ite(eq(n, 0), 0, 1), {0: (), 1: (s.item(c, m),)})


@std('std::iter::Iterator::min_by_key', 'std::iter::Iterator::max_by_key')
def _(c):
    s = src_of(c, c.args[0])
    mx = 'max' in c.name
    if conc(s.n) is None:
        return first_best(c, s, mx)
    best = None
    for x in s.items(c):
        k = c.eng.deref_all(c.st, c.call(c.args[1], VRef(c.eng.new_cell(c.st, x))))
        if best is None:
            best = (k, x)
            continue
        better = (le(best[0], k) if mx else lt(k, best[0])) if is_scalar(k) else None
        if better is None:
            raise Unsupported('min_by_key over this key type')
        b = conc(better)
        if b is True:
            best = (k, x)
        elif b is None:
            best = (ite(better, k, best[0]), vite(better, x, best[1]))
    return NONE if best is None else some(best[1])


@std('std::iter::Iterator::min', 'std::iter::Iterator::max')
def _(c):
    s = src_of(c, c.args[0])
    mx = c.name.endswith('max')
    best = None
    for x in s.items(c):
        k = c.eng.deref_all(c.st, x)
        if not is_scalar(k):
            raise Unsupported('min over this type')
        if best is None:
            best = (k, x)
            continue
        better = le(best[0], k) if mx else lt(k, best[0])
        b = conc(better)
        if b is True:
            best = (k, x)
        elif b is None:
            best = (ite(better, k, best[0]), vite(better, x, best[1]))
    return NONE if best is None else some(best[1])


@std('std::iter::Iterator::min_by', 'std::iter::Iterator::max_by')
def _(c):
    s = src_of(c, c.args[0])
    mx = c.name.endswith('max_by')
    best = None
    for x in s.items(c):
        if best is None:
            best = x
            continue
        o = c.call(c.args[1], VRef(c.eng.new_cell(c.st, best)), VRef(c.eng.new_cell(c.st, x)))
        take = ne(o.d, 2) if mx else eq(o.d, 2)
        b = conc(take)
        best = x if b is True else best if b is False else vite(take, x, best)
    return NONE if best is None else some(best)


@std('itertools::Itertools::sorted')
def _(c):
    s = src_of(c, c.args[0])
    xs = s.items(c)

    def k(x):
        x = c.eng.deref_all(c.st, x)
        if isinstance(x, VStruct):
            return tuple(k(y) for y in x.f)
        if isinstance(x, (int, str, Fraction)):
            return x
        raise Unsupported('sorting of symbolic values')
    return VIter(OwnSrc(CSeq(sorted(xs, key=k))))


# ---- Vec / slices / Box ----------------------------------------------------------------------

@std('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def _(c):
    return CSeq([])


@std('std::vec::Vec::push')
def _(c):
    s = c.val(0)
    if not isinstance(s, Seq):
        raise Unsupported(f'push on {type(s).__name__}')
    c.eng.write(c.st, base_ref(c, 0), seq_push(s, c.args[1]))
    return UNIT


def base_ref(c, i):
    r = c.args[i]
    while True:
        v = c.eng.read(c.st, r)
        if isinstance(v, (VRef, VIteRef)):
            r = v
        else:
            return r


@std('std::vec::Vec::insert')
def _(c):
    s, k = c.val(0), conc(c.args[1])
    if k == 0 and (not isinstance(s, CSeq) or not s.xs):
        from .loops import ISeq
        if isinstance(s, CSeq):
            v = CSeq([c.args[2]])
            v.prep = True
        else:
            v = ISeq(s, c.args[2])
        c.eng.write(c.st, base_ref(c, 0), v)
        return UNIT
    if not isinstance(s, CSeq) or k is None:
        raise Unsupported('insert')
    if k > len(s.xs):
        c.oblige('panic-free', False, 'no panic: insertion index in range')
        return []
    c.eng.write(c.st, base_ref(c, 0), CSeq(s.xs[:k] + (c.args[2],) + s.xs[k:]))
    return UNIT


@std('std::vec::Vec::remove', 'std::vec::Vec::pop', 'std::vec::Vec::clear', 'std::vec::Vec::truncate', 'std::slice::reverse',
     'std::slice::swap')
def _(c):
    s, kind = c.val(0), c.name.rsplit('::', 1)[1]
    if not isinstance(s, CSeq):
        raise Unsupported(kind)
    r = base_ref(c, 0)
    if kind == 'clear':
        c.eng.write(c.st, r, CSeq([]))
        return UNIT
    if kind == 'reverse':
        c.eng.write(c.st, r, CSeq(s.xs[::-1]))
        return UNIT
    if kind == 'pop':
        if not s.xs:
            return NONE
        c.eng.write(c.st, r, CSeq(s.xs[:-1]))
        return some(s.xs[-1])
    k = conc(c.args[1])
    if k is None:
        raise Unsupported(kind)
    if kind == 'truncate':
        c.eng.write(c.st, r, CSeq(s.xs[:k]))
        return UNIT
    if kind == 'swap':
        m = conc(c.args[2])
        if m is None or k >= len(s.xs) or m >= len(s.xs):
            raise Unsupported('swap')
        xs = list(s.xs)
        xs[k], xs[m] = xs[m], xs[k]
        c.eng.write(c.st, r, CSeq(xs))
        return UNIT
    if k >= len(s.xs):
        c.oblige('panic-free', False, 'no panic: removal index in range')
        return []
    c.eng.write(c.st, r, CSeq(s.xs[:k] + s.xs[k + 1:]))
    return s.xs[k]


@std('std::vec::Vec::len', 'std::slice::len', 'std::collections::HashMap::len', 'std::collections::HashSet::len')
def _(c):
    v = c.val(0)
    if isinstance(v, (CMap, CSet)):
        return len(v.d)
    if isinstance(v, SMap):
        raise Unsupported('size of a symbolic map')
    return v.n


@std('std::vec::Vec::is_empty', 'std::slice::is_empty', 'std::collections::HashSet::is_empty', 'std::collections::HashMap::is_empty')
def _(c):
    v = c.val(0)
    if isinstance(v, (CMap, CSet)):
        return not v.d
    if isinstance(v, SMap):
        raise Unsupported('size of a symbolic map')
    return eq(v.n, 0)


@std('std::string::String::len', 'std::str::len')
def _(c):
    v = c.val(0)
    if isinstance(v, str):
        return len(v.encode())
    raise Unsupported('length of a symbolic string')


@std('std::string::String::is_empty', 'std::str::is_empty')
def _(c):
    v = c.val(0)
    if isinstance(v, str):
        return not v
    raise Unsupported('emptiness of a symbolic string')


@std('std::iter::Extend::extend', 'std::vec::Vec::extend_from_slice', 'std::vec::Vec::append')
def _(c):
    s = c.val(0)
    src = src_of(c, c.args[1])
    if c.name.endswith('extend_from_slice') or 'Extend<&' in (c.rname or ''):
        src = DerefSrc(src)
    if isinstance(s, (CSet,)):
        d = dict(s.d)
        for x in src.items(c):
            d.setdefault(key_of(x), x)
        c.eng.write(c.st, base_ref(c, 0), CSet(d))
        return UNIT
    t = comprehension(c, src)
    if isinstance(s, CSeq) and isinstance(t, CSeq):
        r = CSeq(s.xs + t.xs)
    elif isinstance(s, CSeq) and not s.xs:
        r = t
    else:
        sn = s.n
        r = SSeq(add(sn, t.n), lambda j: vite(lt(j, sn), s.get(j), t.get(sub(j, sn))))
    c.eng.write(c.st, base_ref(c, 0), r)
    if c.name.endswith('append'):
        c.eng.write(c.st, base_ref(c, 1), CSeq([]))
    return UNIT


@std('std::slice::to_vec', 'std::borrow::ToOwned::to_owned', 'std::clone::Clone::clone', 'std::slice::into_vec',
     'std::string::ToString::to_string', 'std::vec::from_elem')
def _(c):
    nm = c.name
    if nm.endswith('from_elem'):
        n = conc(c.args[1])
        v = c.args[0]
        return CSeq([v] * n) if n is not None else SSeq(c.args[1], lambda j: v)
    v = c.val(0)
    if nm.endswith('clone') and isinstance(c.eng.read(c.st, c.args[0]), (VRef, VIteRef)) and c.dest_ty is not None \
            and c.eng.prog.ty(c.dest_ty)['k'] == 'ref':
        return c.eng.read(c.st, c.args[0])
    if nm.endswith('to_string'):
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, VEnum):
            return enum_display(c, v)
        cv = conc(v) if is_scalar(v) else None
        if isinstance(cv, int) and not isinstance(cv, bool):
            return str(cv)
        raise Unsupported('to_string of a symbolic value')
    return v


def enum_display(c, v):
    """Display of a crate enum: executes its fmt function with a recording formatter."""
    T = c.eng.prog.ty(v.ty)
    keys = [n for n in c.eng.prog.names() if n.startswith('<' + T['name'] + ' as std::fmt::Display>::fmt')]
    if len(keys) != 1:
        raise Unsupported('Display of ' + T['name'])
    body = c.eng.prog.body(c.eng.prog.by_name[keys[0]][0])
    cells = (VRef(c.eng.new_cell(c.st, v)), VRef(c.eng.new_cell(c.st, VFormatter(''))))
    res = c.eng.call_body(body, list(cells), c.st)
    s, _ = c.eng.merge_results(res)
    c.st = s
    return s.mem[cells[1].cell].s


class VFormatter:
    def __init__(self, s):
        self.s = s

    def merge(self, c, o):
        if self.s == o.s:
            return self
        raise NoMerge('formatter')


@std('std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::write_str')
def _(c):
    a = c.args[1]
    if isinstance(a, Opaque) and isinstance(a.tag, tuple) and a.tag[0] == 'fmt':
        a = a.tag[1]
    if not isinstance(a, str):
        raise Unsupported('formatted output')
    r = base_ref(c, 0)
    f = c.eng.read(c.st, r)
    c.eng.write(c.st, r, VFormatter(f.s + a))
    return VEnum(None, 0, {0: (UNIT,)})


@std('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::from_str_nonconst')
def _(c):
    a = c.args[0]
    return Opaque(('fmt', a if isinstance(a, str) else None))


@std('std::fmt::Arguments::new', 'std::fmt::rt::Argument::new_display', 'std::fmt::rt::Argument::new_debug', 'std::fmt::Arguments::new_v1')
def _(c):
    return Opaque(('fmt', None))


@std('std::convert::From::from', 'std::convert::Into::into')
def _(c):
    v = c.args[0]
    if c.dest_ty is None:           # passed as a function: only conversions that keep the value
        v = c.val(0)
        if isinstance(v, VMat):
            return v
        raise Unsupported('From as a function value')
    T = c.eng.prog.ty(c.dest_ty)
    n = T['name'] if T['k'] == 'adt' else ''
    if n == 'std::collections::HashMap':
        return CMap({key_of(x.f[0]): (x.f[0], x.f[1]) for x in v.xs})
    if n == 'std::collections::HashSet':
        return CSet({key_of(x): x for x in v.xs})
    if isinstance(v, (VRef, VIteRef)):
        v = c.val(0)
    if isinstance(v, (Seq, VMat, str, SStr)) or is_scalar(v):
        if T['k'] == 'float' and is_scalar(v):
            return to_real(v)
        if T['k'] == 'adt' and c.eng.prog.mat_dims(c.dest_ty) and isinstance(v, CSeq):
            r, k, _ = c.eng.prog.mat_dims(c.dest_ty)
            if v.xs and isinstance(v.xs[0], CSeq):
                return VMat(r, k, [y for x in v.xs for y in x.xs])
            return VMat(r, k, v.xs)
        return v
    raise Unsupported(f'From for {n}')


@std('std::boxed::Box::new_uninit')
def _(c):
    return VRef(c.eng.new_cell(c.st, UNINIT))


@std('std::boxed::Box::new')
def _(c):
    return VRef(c.eng.new_cell(c.st, c.args[0]))


@std('std::boxed::box_assume_init_into_vec_unsafe')
def _(c):
    return c.eng.read(c.st, c.args[0])


@std('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::vec::Vec::as_slice',
     'std::string::String::as_str', 'std::borrow::Borrow::borrow', 'std::vec::Vec::as_mut_slice')
def _(c):
    v = c.eng.read(c.st, c.args[0])
    if isinstance(v, (str, SStr)):
        return v
    return c.args[0]


@std('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'std::slice::get_unchecked')
def _(c):
    r = base_ref(c, 0)
    v = c.eng.read(c.st, r)
    i = c.args[1]
    if isinstance(i, VIter) and isinstance(v, Seq):
        s = i.src
        lo, n = s.lo, s.n
        if isinstance(v, CSeq) and conc(lo) is not None and conc(n) is not None:
            return VRef(c.eng.new_cell(c.st, CSeq(v.xs[lo:lo + n])))
        raise Unsupported('slicing')
    if isinstance(v, CMap):
        k = key_of(c.eng.deref_all(c.st, i))
        if k not in v.d:
            c.oblige('panic-free', False, 'no panic: key is in the map')
            return []
        return c.eng.extend(r, ('map', k))
    if isinstance(v, VMat):
        if isinstance(i, VStruct):
            a, b = i.f
            i = add(mul(b, v.r), a)
        n = v.r * v.c
    elif isinstance(v, Seq):
        n = v.n
    elif hasattr(v, 'index'):
        return v.index(c, r, i)
    else:
        raise Unsupported(f'index into {type(v).__name__}')
    if not is_scalar(i):
        raise Unsupported('index type')
    ok = and_(le(0, i), lt(i, n))
    c.oblige('panic-free', ok, 'no panic: index in bounds')
    if conc(ok) is False:
        return []
    if conc(ok) is None:
        c.st.assume(ok)
    return c.eng.extend(r, ('i', i))


@std('std::slice::get', 'std::slice::first', 'std::slice::last')
def _(c):
    v = c.val(0)
    kind = c.name.rsplit('::', 1)[1]
    r = base_ref(c, 0)
    i = c.args[1] if kind == 'get' else 0 if kind == 'first' else sub(v.n, 1)
    return opt(and_(le(0, i), lt(i, v.n)), c.eng.extend(r, ('i', i)))


# ---- sorting ---------------------------------------------------------------------------------

def less_or_eq(o):
    return ne(o.d, 2)


@std('std::slice::sort_by', 'std::slice::sort', 'std::slice::sort_unstable', 'std::slice::sort_by_key', 'std::slice::sort_unstable_by')
def _(c):
    """The result is a permutation of the input that is ordered by the comparator; the stable sorts keep the order
    of elements that compare equal."""
    from itertools import permutations
    from .engine import QFact
    kind = c.name.rsplit('::', 1)[1]
    stable = 'unstable' not in kind
    r = base_ref(c, 0)
    s = c.eng.read(c.st, r)
    eng = c.eng

    def cmp(x, y):
        """Ordering of two elements as variant index."""
        if kind in ('sort', 'sort_unstable'):
            return val_cmp(c, x, y)
        rx, ry = VRef(eng.new_cell(c.st, x)), VRef(eng.new_cell(c.st, y))
        if kind == 'sort_by_key':
            return val_cmp(c, eng.deref_all(c.st, c.call(c.args[1], rx)), eng.deref_all(c.st, c.call(c.args[1], ry)))
        return c.call(c.args[1], rx, ry).d
    if isinstance(s, CSeq):
        n = len(s.xs)
        if n <= 1:
            return UNIT
        M = {}
        if n <= 60:
            import functools
            try:
                def py(a, b):
                    o = conc(cmp(s.xs[a], s.xs[b]))
                    if o is None:
                        raise LookupError
                    return o - 1
                idx = sorted(range(n), key=functools.cmp_to_key(py))
                if not stable and any(py(idx[k], idx[k + 1]) == 0 and conc(val_eq(s.xs[idx[k]], s.xs[idx[k + 1]])) is not True for k in range(n - 1)):
                    raise Unsupported('unstable sort of elements that compare equal')
                eng.write(c.st, r, CSeq([s.xs[i] for i in idx]))
                return UNIT
            except LookupError:
                pass
        if n <= 4:
            for i in range(n):
                for j in range(i + 1, n):
                    M[i, j] = cmp(s.xs[i], s.xs[j])
            out = []
            sel = fresh_int('perm')
            for k, p in enumerate(permutations(range(n))):
                conds = []
                for a in range(n):
                    for b in range(a + 1, n):
                        i, j = p[a], p[b]
                        if i < j:
                            conds.append(ne(M[i, j], 2))
                        elif stable:                # j was before i: moved, so strictly greater
                            conds.append(eq(M[j, i], 2))
                        else:
                            conds.append(ne(M[j, i], 0))
                cond = and_(*conds)
                if conc(cond) is False:
                    continue
                st = c.st.copy()
                st.assume(eq(sel, k))
                st.assume(cond)
                eng.write(st, r, CSeq([s.xs[i] for i in p]))
                out.append((st, UNIT))
            return out
    n = s.n
    nm = fresh_name('sorted')
    pi, pinv = z3.Function(nm + '.p', I, I), z3.Function(nm + '.q', I, I)
    inr = lambda j: and_(le(0, j), lt(j, n))
    c.st.facts.append(QFact(1, lambda j: implies(inr(j), and_(inr(pi(zi(j))), eq(pinv(pi(zi(j))), j),
                                                              inr(pinv(zi(j))), eq(pi(pinv(zi(j))), j))), 'sort permutation'))
    snap = c.st.copy()

    def ordered(a, b):
        c2 = Ctx(eng, snap.copy(), c.T, c.name, c.rname, c.args, c.fr, c.line, c.dest_ty, c.arg_tys)
        old, eng.record = eng.record, False
        c_st, c.st = c.st, c2.st
        try:
            o = cmp(s.get(pi(zi(a))), s.get(pi(zi(b))))
        finally:
            eng.record = old
            c.st = c_st
        keep = implies(eq(o, 1), lt(pi(zi(a)), pi(zi(b)))) if stable else True
        return implies(and_(inr(a), inr(b), lt(a, b)), and_(ne(o, 2), keep))
    c.st.facts.append(QFact(2, ordered, 'sorted order'))
    c.st.log.append(('perm', pi, pinv, n))
    eng.write(c.st, r, SSeq(n, lambda j: s.get(pi(zi(j)))))
    return UNIT


def val_cmp(c, x, y):
    x, y = c.eng.deref_all(c.st, x), c.eng.deref_all(c.st, y)
    if isinstance(x, str) and isinstance(y, str):
        return 0 if x.encode() < y.encode() else 1 if x == y else 2
    if isinstance(x, SStr) and isinstance(y, SStr):
        return ite(lt(x.t, y.t), 0, ite(eq(x.t, y.t), 1, 2))
    if is_scalar(x) and is_scalar(y):
        return ite(lt(x, y), 0, ite(eq(x, y), 1, 2))
    if isinstance(x, VStruct):
        r = 1
        for a, b in reversed(list(zip(x.f, y.f))):
            o = val_cmp(c, a, b)
            r = ite(eq(o, 1), r, o)
        return r
    raise Unsupported(f'comparison of {type(x).__name__}')


# ---- comparison traits ------------------------------------------------------------------------

def val_eq(a, b):
    """Structural equality of finite values."""
    if is_scalar(a) and is_scalar(b):
        return eq(a, b)
    if isinstance(a, VMat) and isinstance(b, VMat):
        return and_(*[eq(x, y) for x, y in zip(a.d, b.d)])
    if isinstance(a, VStruct) and isinstance(b, VStruct):
        return and_(*[val_eq(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        if len(a.xs) != len(b.xs):
            return False
        return and_(*[val_eq(x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SStr) and isinstance(b, SStr):
        return eq(a.t, b.t)
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        r = eq(a.d, b.d)
        for k in a.v:
            if a.v[k] and k in b.v:
                r = and_(r, implies(eq(a.d, k), and_(*[val_eq(x, y) for x, y in zip(a.v[k], b.v[k])])))
        return r
    raise Unsupported(f'equality of {type(a).__name__}')


@std('std::cmp::PartialEq::eq')
def _(c):
    return val_eq(c.val(0), c.val(1))


@std('std::cmp::PartialEq::ne')
def _(c):
    return not_(val_eq(c.val(0), c.val(1)))


for _n, _f in (('lt', lt), ('le', le), ('gt', gt), ('ge', ge)):
    def _mk(f):
        def g(c):
            a, b = c.val(0), c.val(1)
            if not (is_scalar(a) and is_scalar(b)):
                raise Unsupported('ordering of this type')
            return f(a, b)
        return g
    STD['std::cmp::PartialOrd::' + _n] = _mk(_f)


@std('std::cmp::Ord::cmp')
def _(c):
    return VEnum('ordering', val_cmp(c, c.args[0], c.args[1]), {0: (), 1: (), 2: ()})


@std('std::f64::total_cmp')
def _(c):
    return VEnum('ordering', val_cmp(c, c.args[0], c.args[1]), {0: (), 1: (), 2: ()})


@std('std::cmp::PartialOrd::partial_cmp')
def _(c):
    return some(VEnum('ordering', val_cmp(c, c.args[0], c.args[1]), {0: (), 1: (), 2: ()}))


@std('std::cmp::Ordering::reverse')
def _(c):
    return VEnum('ordering', sub(2, c.args[0].d), {0: (), 1: (), 2: ()})


@std('std::cmp::Ord::max', 'std::cmp::max')
def _(c):
    a, b = c.args
    return ite(le(a, b), b, a)


@std('std::cmp::Ord::min', 'std::cmp::min')
def _(c):
    a, b = c.args
    return ite(le(a, b), a, b)


# ---- Option / Result / panics -----------------------------------------------------------------

def unwrap_like(c, good, what):
    v = c.val(0) if isinstance(c.args[0], VRef) else c.args[0]
    ok = eq(v.d, good)
    cc = conc(ok)
    allowed = panic_allowed(c)
    c.oblige('panic-explicit' if allowed is False else 'panic-allowed', or_(allowed, ok), what)
    if cc is False:
        return []
    if cc is None:
        c.st.assume(ok)
    if good not in v.v:
        return []
    return v.v[good][0]


@std('std::option::Option::unwrap', 'std::option::Option::expect')
def _(c):
    return unwrap_like(c, 1, 'no panic: value is present')


@std('std::result::Result::unwrap', 'std::result::Result::expect')
def _(c):
    return unwrap_like(c, 0, 'no panic: result is Ok')


@std('std::option::Option::is_some', 'std::result::Result::is_err')
def _(c):
    return eq(c.val(0).d, 1)


@std('std::option::Option::is_none', 'std::result::Result::is_ok')
def _(c):
    return eq(c.val(0).d, 0)


@std('std::option::Option::unwrap_or')
def _(c):
    v = c.args[0]
    d = conc(v.d)
    if d is not None:
        return v.v[1][0] if d == 1 else c.args[1]
    return vite(eq(v.d, 1), v.v[1][0], c.args[1])


@std('std::option::Option::copied', 'std::option::Option::cloned')
def _(c):
    v = c.args[0]
    if 1 not in v.v or conc(v.d) == 0:
        return NONE
    return VEnum(None, v.d, {0: (), 1: (c.eng.deref_all(c.st, v.v[1][0]),)})


@std('std::option::Option::as_ref', 'std::option::Option::as_mut')
def _(c):
    r = base_ref(c, 0)
    v = c.eng.read(c.st, r)
    if 1 not in v.v or conc(v.d) == 0:
        return NONE
    return VEnum(None, v.d, {0: (), 1: (c.eng.extend(r, ('vf', (1, 0))),)})


@std('std::option::Option::map')
def _(c):
    v = c.args[0]
    d = conc(v.d)
    if d == 0 or 1 not in v.v:
        return NONE
    if d == 1:
        return some(c.call(c.args[1], v.v[1][0]))
    raise Unsupported('Option::map on an undetermined option')


@std('std::rt::panic_fmt', 'std::panicking::panic', 'std::panicking::panic_fmt', 'std::rt::begin_panic', 'std::panicking::panic_display',
     'std::panicking::assert_failed', 'std::panicking::panic_explicit', 'std::panicking::unreachable_display')
def _(c):
    allowed = panic_allowed(c)
    fn = c.fr.body.name if c.fr else '?'
    if allowed is not False:
        c.eng.oblige(c.st, 'panic-allowed', allowed, fn, c.line, name='explicit panic allowed by the contract')
    else:
        c.oblige('panic-explicit', False, 'explicit panic is not reached')
    return []


def panic_allowed(c):
    """Condition under which the contract lets the function panic."""
    ok = c.eng.explicit_panic_ok
    return ok(c.fr.body.name if c.fr else '?', c.st) if callable(ok) else ok


# ---- scalars ----------------------------------------------------------------------------------

@std('std::f64::abs', 'std::i8::abs', 'std::i32::abs', 'std::num::abs')
def _(c):
    return absv(c.args[0])


@std('std::f64::signum')
def _(c):
    a = c.args[0]
    return ite(ge(a, Fraction(0)), Fraction(1), Fraction(-1))


@std('std::f64::round')
def _(c):
    return to_real(fround(c.args[0]))


@std('std::f64::ceil')
def _(c):
    return to_real(fceil(c.args[0]))


@std('std::f64::floor')
def _(c):
    return to_real(ffloor(c.args[0]))


@std('std::f64::trunc')
def _(c):
    return to_real(ftrunc(c.args[0]))


@std('std::f64::sqrt')
def _(c):
    return fsqrt(c.args[0])


@std('std::f64::fract')
def _(c):
    return sub(c.args[0], to_real(ftrunc(c.args[0])))


@std('std::f64::rem_euclid')
def _(c):
    if conc(c.args[1]) != 1:
        raise Unsupported('rem_euclid')
    return sub(c.args[0], to_real(ffloor(c.args[0])))


@std('std::f64::acos')
def _(c):
    return F_ACOS(zr(c.args[0]))


@std('std::f64::to_degrees')
def _(c):
    import math
    return mul(c.args[0], fdiv(Fraction(180), Fraction(math.pi)))


@std('std::f64::powf')
def _(c):
    return F_POW(zr(c.args[0]), zr(c.args[1]))


@std('std::f64::powi')
def _(c):
    k = conc(c.args[1])
    if k is None or not 0 <= k <= 8:
        raise Unsupported('powi')
    r = Fraction(1)
    for _i in range(k):
        r = mul(r, c.args[0])
    return r


@std('std::f64::cbrt')
def _(c):
    return F_POW(zr(c.args[0]), z3.RealVal(Fraction(1, 3)))


@std('std::f64::max')
def _(c):
    return ite(le(c.args[0], c.args[1]), c.args[1], c.args[0])


@std('std::f64::min')
def _(c):
    return ite(le(c.args[0], c.args[1]), c.args[0], c.args[1])


@std('std::f64::is_nan', 'std::f64::is_infinite')
def _(c):
    return False


@std('std::num::pow', 'std::u32::pow', 'std::usize::pow', 'std::i32::pow', 'std::u8::pow')
def _(c):
    a, k = conc(c.args[0]), conc(c.args[1])
    if k is None or (a is None and k > 8):
        raise Unsupported('integer pow')
    r = 1
    for _i in range(k):
        r = mul(r, c.args[0])
    lo, hi = c.eng.prog.int_range(c.dest_ty)
    c.oblige('panic-free', and_(le(lo, r), le(r, hi)), 'no overflow in pow')
    return r


def arith(op):
    fs = {'add': add, 'sub': sub, 'mul': mul, 'div': fdiv}

    def f(c):
        a, b = c.val(0), c.val(1)
        if isinstance(a, VMat) or isinstance(b, VMat):
            return mat_arith(c, op, a, b)
        if is_scalar(a) and is_scalar(b):
            if not (is_real(a) or is_real(b)):
                ty = c.dest_ty
                if op == 'div':
                    c.oblige('panic-free', ne(b, 0), 'no panic: divide by zero')
                    return c.eng.int_div(a, b, True)
                v = fs[op](a, b)
                rng = c.eng.prog.int_range(ty)
                if rng:
                    c.oblige('panic-free', and_(le(rng[0], v), le(v, rng[1])), 'no overflow')
                return v
            if op == 'div' and conc(b) is None:
                c.oblige('finite', ne(b, 0), 'finite: divisor is not zero')
                c.st.assume(ne(b, Fraction(0)))
            return fs[op](a, b)
        raise Unsupported(f'{op} on {type(a).__name__}')
    return f


def i8_range(c, a, b, r):
    """Products of integer matrices are the mathematical ones when no sum leaves the range of i8."""
    if c.eng.assume_i8:
        c.eng.assumptions.add('entries of integer rotation products stay within i8')
        return
    parts = []
    for i in range(a.r):
        for j in range(b.c):
            acc = 0
            for k in range(a.c):
                acc = add(acc, mul(a.at(i, k), b.at(k, j)))
                parts.append(and_(le(-128, acc), le(acc, 127)))
    c.oblige('panic-free', and_(*parts), 'no overflow in an integer matrix product')


def mat_arith(c, op, a, b):
    if op in ('add', 'sub'):
        if (a.r, a.c) != (b.r, b.c):
            raise Unsupported('matrix shapes')
        return mat_map2(add if op == 'add' else sub, a, b)
    if op == 'mul':
        if isinstance(a, VMat) and isinstance(b, VMat):
            r = mat_mul(a, b)
            if not any(is_real(x) for x in list(a.d) + list(b.d)):
                i8_range(c, a, b, r)
            return r
        if isinstance(a, VMat):
            return mat_map(lambda x: mul(x, b), a)
        return mat_map(lambda x: mul(a, x), b)
    if op == 'div' and is_scalar(b):
        if conc(b) is None:
            c.oblige('finite', ne(b, 0), 'finite: divisor is not zero')
            c.st.assume(ne(b, Fraction(0)))
        return mat_map(lambda x: fdiv(x, b), a)
    raise Unsupported(f'matrix {op}')


for _op in ('add', 'sub', 'mul', 'div'):
    STD[f'std::ops::{_op.capitalize()}::{_op}'] = arith(_op)

    def _mk2(op):
        g = arith(op)

        def f(c):
            v = g(c)
            c.eng.write(c.st, base_ref(c, 0), v)
            return UNIT
        return f
    STD[f'std::ops::{_op.capitalize()}Assign::{_op}_assign'] = _mk2(_op)


@std('std::ops::Neg::neg')
def _(c):
    a = c.val(0)
    return mat_map(neg, a) if isinstance(a, VMat) else neg(a)


@std('std::ops::RemAssign::rem_assign', 'std::ops::Rem::rem')
def _(c):
    a, b = c.val(0), c.val(1)
    if is_real(a) and conc(b) == 1:
        v = sub(a, to_real(ftrunc(a)))
    elif not is_real(a) and is_scalar(a):
        c.oblige('panic-free', ne(b, 0), 'no panic: remainder by zero')
        v = c.eng.int_rem(a, b, True)
    else:
        raise Unsupported('remainder')
    if 'Assign' in c.name:
        c.eng.write(c.st, base_ref(c, 0), v)
        return UNIT
    return v


# ---- strings ----------------------------------------------------------------------------------

@std('std::string::String::new')
def _(c):
    return ''


@std('std::string::String::push_str', 'std::string::String::push')
def _(c):
    s, t = c.val(0), c.val(1)
    if not isinstance(s, str) or not isinstance(t, str):
        raise Unsupported('building a symbolic string')
    c.eng.write(c.st, base_ref(c, 0), s + t)
    return UNIT


@std('std::str::chars')
def _(c):
    v = c.val(0)
    if not isinstance(v, str):
        raise Unsupported('characters of a symbolic string')
    return VIter(OwnSrc(CSeq(list(v))))


# ---- maps -------------------------------------------------------------------------------------

@std('std::collections::HashMap::new', 'std::collections::HashMap::with_capacity', 'std::default::Default::default')
def _(c):
    T = c.eng.prog.ty(c.dest_ty)
    n = T['name'] if T['k'] == 'adt' else T['k']
    if n == 'std::collections::HashMap':
        return CMap({})
    if n == 'std::collections::HashSet':
        return CSet({})
    if n == 'std::vec::Vec':
        return CSeq([])
    if n == 'std::string::String':
        return ''
    if n in ('int', 'uint'):
        return 0
    if n == 'float':
        return Fraction(0)
    raise Unsupported('Default of ' + n)


@std('std::collections::HashSet::new')
def _(c):
    return CSet({})


@std('std::collections::HashMap::get')
def _(c):
    r = base_ref(c, 0)
    m = c.eng.read(c.st, r)
    k = c.eng.deref_all(c.st, c.args[1])
    if hasattr(m, 'lookup'):
        return m.lookup(c, r, k)
    if isinstance(m, SMap) and isinstance(k, SStr):
        return VEnum(None, ite(m.has(k.t), 1, 0), {0: (), 1: (c.eng.extend(r, ('smap', k.t)),)})
    try:
        kk = key_of(k)
    except Unsupported:
        # symbolic key: a chain over the entries
        res = NONE
        for kk, (kv, x) in reversed(list(m.d.items())):
            res = vite(val_eq(k, kv), some(c.eng.extend(r, ('map', kk))), res)
        return res
    if kk in m.d:
        return some(c.eng.extend(r, ('map', kk)))
    return NONE


@std('std::collections::HashMap::contains_key', 'std::collections::HashSet::contains')
def _(c):
    m = c.val(0)
    k = c.eng.deref_all(c.st, c.args[1])
    return key_of(k) in m.d


@std('std::collections::HashMap::insert')
def _(c):
    r = base_ref(c, 0)
    m = c.eng.read(c.st, r)
    k = c.eng.deref_all(c.st, c.args[1])
    if isinstance(k, SStr) and is_scalar(c.args[2]):
        m = string_map(m)
        c.eng.write(c.st, r, m.insert(k.t, 0).update(('smap', k.t), c.args[2]))
        return VEnum(None, ite(m.has(k.t), 1, 0), {0: (), 1: (m.val(k.t),)})
    if not isinstance(m, CMap):
        raise Unsupported('insertion into a symbolic map')
    k = key_of(c.eng.deref_all(c.st, c.args[1]))
    d = dict(m.d)
    old = d.get(k)
    d[k] = (old[0] if old else c.args[1], c.args[2])
    c.eng.write(c.st, r, CMap(d))
    return some(old[1]) if old else NONE


@std('std::collections::HashSet::insert')
def _(c):
    r = base_ref(c, 0)
    m = c.eng.read(c.st, r)
    k = key_of(c.eng.deref_all(c.st, c.args[1]))
    if k in m.d:
        return False
    d = dict(m.d)
    d[k] = c.args[1]
    c.eng.write(c.st, r, CSet(d))
    return True


def string_map(m):
    if isinstance(m, CMap) and not m.d:
        return SMap(lambda k: False, lambda k: 0)
    if not isinstance(m, SMap):
        raise Unsupported('symbolic key of a map with concrete keys')
    return m


def entries(c, m):
    """The entries of a map in an arbitrary order: every key once."""
    from .engine import QFact
    nm, n = fresh_name('entries'), fresh_int('entries')
    K, J = z3.Function(nm + '.key', I, I), z3.Function(nm + '.at', I, I)
    inr = lambda j: and_(le(0, j), lt(j, n))
    c.st.assume(le(0, n))
    c.st.facts.append(QFact(1, lambda j: implies(inr(j), and_(m.has(K(zi(j))), eq(J(K(zi(j))), j))), 'entries of a map'))
    c.st.facts.append(QFact(1, lambda k: implies(m.has(k), and_(inr(J(zi(k))), eq(K(J(zi(k))), k))), 'keys of a map'))
    c.st.log.append(('entries', K, J, n))
    return SSeq(n, lambda j: VStruct(None, [SStr(K(zi(j))), m.val(K(zi(j)))]))


class VEntry:
    def __init__(self, ref, key, kv):
        self.ref, self.key, self.kv = ref, key, kv


@std('std::collections::HashMap::entry')
def _(c):
    r = base_ref(c, 0)
    m = c.eng.read(c.st, r)
    k = c.eng.deref_all(c.st, c.args[1])
    if isinstance(k, SStr):
        return VEntry(r, k, c.args[1])
    if not isinstance(m, CMap):
        raise Unsupported('entry of a symbolic map')
    return VEntry(r, key_of(c.eng.deref_all(c.st, c.args[1])), c.args[1])


@std('std::collections::hash_map::Entry::or_insert', 'std::collections::hash_map::Entry::or_default',
     'std::collections::hash_map::Entry::or_insert_with')
def _(c):
    e = c.args[0]
    m = c.eng.read(c.st, e.ref)
    if isinstance(e.key, SStr):
        m = string_map(m)
        if not (c.name.endswith('or_insert') and is_scalar(c.args[1])):
            raise Unsupported('entry of a symbolic map')
        c.eng.write(c.st, e.ref, m.insert(e.key.t, c.args[1]))
        return c.eng.extend(e.ref, ('smap', e.key.t))
    if e.key not in m.d:
        if c.name.endswith('or_insert'):
            v = c.args[1]
        elif c.name.endswith('or_insert_with'):
            v = c.call(c.args[1])
        else:
            T = c.eng.prog.ty(c.dest_ty)
            E = c.eng.prog.ty(T['e'])
            n = E['name'] if E['k'] == 'adt' else E['k']
            v = {'std::vec::Vec': CSeq([]), 'int': 0, 'uint': 0, 'std::string::String': ''}.get(n)
            if v is None:
                raise Unsupported('or_default')
        d = dict(m.d)
        d[e.key] = (e.kv, v)
        c.eng.write(c.st, e.ref, CMap(d))
    return c.eng.extend(e.ref, ('map', e.key))


@std('lazy_static::lazy::Lazy::get')
def _(c):
    """The initialised value of a lazy_static table: its initialiser is executed once and shared."""
    f = c.args[1]
    T = c.eng.prog.ty(f.ty)
    key = T.get('key')
    nm = T.get('rname') or T['name']
    for suf, v in c.eng.tables.items():
        if suf in nm:
            return VRef(v)
    ck = ('lazy', key)
    if ck not in c.eng.static_cells:
        body = c.eng.prog.body(key)
        st = type(c.st)()
        old, c.eng.record = c.eng.record, False
        hook, c.eng.loop_hook = c.eng.loop_hook, None
        try:
            res = c.eng.call_body(body, [], st)
        finally:
            c.eng.record = old
            c.eng.loop_hook = hook
        s, v = c.eng.merge_results(res)
        c.eng.ncell += 1
        c.eng.global_mem[c.eng.ncell] = v
        for k, x in s.mem.items():
            c.eng.global_mem.setdefault(k, x)
        c.eng.static_cells[ck] = c.eng.ncell
    return VRef(c.eng.static_cells[ck])


# ---- nalgebra ---------------------------------------------------------------------------------

def dims(c):
    d = c.eng.prog.mat_dims(c.dest_ty)
    if d is None:
        raise Unsupported('matrix of unknown shape')
    return d


@nalg('new')
def _(c):
    r, k, sc = dims(c)
    if len(c.args) != r * k:
        raise Unsupported('matrix constructor')
    # arguments are given row by row
    return VMat(r, k, [c.args[i * k + j] for j in range(k) for i in range(r)])


@nalg('identity')
def _(c):
    r, k, sc = dims(c)
    one = (lambda b: Fraction(int(b))) if sc == 'f64' else int
    return VMat(r, k, [one(i == j) for j in range(k) for i in range(r)])


@nalg('zeros', 'zero')
def _(c):
    r, k, sc = dims(c)
    return VMat(r, k, [Fraction(0) if sc == 'f64' else 0] * (r * k))


@nalg('from_element', 'repeat')
def _(c):
    r, k, sc = dims(c)
    return VMat(r, k, [c.args[0]] * (r * k))


@nalg('from_columns', 'from_rows')
def _(c):
    r, k, sc = dims(c)
    s = c.val(0)
    cols = [c.eng.deref_all(c.st, s.get(i)) for i in range(k if c.name.endswith('columns') else r)]
    n = k if c.name.endswith('columns') else r
    ok = eq(s.n, n)
    c.oblige('panic-free', ok, 'no panic: number of columns')
    if conc(ok) is False:
        return []
    if c.name.endswith('columns'):
        return VMat(r, k, [x for v in cols for x in v.d])
    return VMat(r, k, [cols[i].d[j] for j in range(k) for i in range(r)])


@nalg('from_iterator', 'from_row_iterator', 'from_vec', 'from_column_slice', 'from_row_slice')
def _(c):
    r, k, sc = dims(c)
    src = src_of(c, c.args[0])
    n = conc(src.n)
    kind = c.name.rsplit('::', 1)[1]
    if n is None:
        # only the first r*k items are taken
        c.oblige('panic-free', ge(src.n, r * k), 'no panic: iterator is long enough')
        c.st.assume(ge(src.n, r * k))
    else:
        ok = n >= r * k if 'iter' in kind else n == r * k
        c.oblige('panic-free', ok, 'no panic: number of matrix elements')
        if not ok:
            return []
    xs = [c.eng.deref_all(c.st, src.item(c, i)) for i in range(r * k)]
    if 'row' in kind:
        return VMat(r, k, [xs[i * k + j] for j in range(k) for i in range(r)])
    return VMat(r, k, xs)


@nalg('from_fn')
def _(c):
    r, k, sc = dims(c)
    d = {}
    for j in range(k):
        for i in range(r):
            d[i, j] = c.call(c.args[0], i, j)
    return VMat(r, k, [d[i, j] for j in range(k) for i in range(r)])


@nalg('from_diagonal')
def _(c):
    r, k, sc = dims(c)
    v = c.val(0)
    z = Fraction(0) if sc == 'f64' else 0
    return VMat(r, k, [v.d[i] if i == j else z for j in range(k) for i in range(r)])


@nalg('transpose')
def _(c):
    return mat_t(c.val(0))


@nalg('dot')
def _(c):
    return dot(c.val(0), c.val(1))


@nalg('cross')
def _(c):
    return cross(c.val(0), c.val(1))


@nalg('column')
def _(c):
    m, j = c.val(0), c.args[1]
    ok = and_(le(0, j), lt(j, m.c))
    c.oblige('panic-free', ok, 'no panic: column in range')
    if conc(j) is None:
        r = m.col(m.c - 1)
        for k in range(m.c - 2, -1, -1):
            r = vite(eq(j, k), m.col(k), r)
        c.st.assume(ok)
        return r
    if conc(ok) is False:
        return []
    return m.col(conc(j))


@nalg('row')
def _(c):
    m, i = c.val(0), conc(c.args[1])
    if i is None:
        raise Unsupported('symbolic row')
    return VMat(1, m.c, [m.at(i, j) for j in range(m.c)])


@nalg('column_iter')
def _(c):
    m = c.val(0)
    return VIter(OwnSrc(CSeq([m.col(j) for j in range(m.c)])))


@nalg('iter')
def _(c):
    r = base_ref(c, 0)
    m = c.eng.read(c.st, r)
    return VIter(OwnSrc(CSeq([c.eng.extend(r, ('i', i)) for i in range(m.r * m.c)])))


@nalg('iter_mut')
def _(c):
    r = base_ref(c, 0)
    m = c.eng.read(c.st, r)
    return VIter(OwnSrc(CSeq([c.eng.extend(r, ('i', i)) for i in range(m.r * m.c)])))


@nalg('len')
def _(c):
    m = c.val(0)
    return m.r * m.c


@nalg('set_column')
def _(c):
    r = base_ref(c, 0)
    m, j, v = c.eng.read(c.st, r), c.args[1], c.val(2)
    ok = and_(le(0, j), lt(j, m.c))
    c.oblige('panic-free', ok, 'no panic: column in range')
    if conc(ok) is False:
        return []
    if conc(j) is None:
        c.st.assume(ok)
    d = list(m.d)
    for k in range(m.c):
        e = eq(j, k)
        for i in range(m.r):
            d[k * m.r + i] = ite(e, v.d[i], d[k * m.r + i])
    c.eng.write(c.st, r, VMat(m.r, m.c, d))
    return UNIT


@nalg('fixed_slice', 'fixed_view', 'slice')
def _(c):
    m = c.val(0)
    r, k, sc = dims(c)
    i0, j0 = conc(c.args[1]), conc(c.args[2])
    if i0 is None or j0 is None:
        raise Unsupported('symbolic slice')
    ok = i0 + r <= m.r and j0 + k <= m.c
    c.oblige('panic-free', ok, 'no panic: slice in range')
    if not ok:
        return []
    return VMat(r, k, [m.at(i0 + i, j0 + j) for j in range(k) for i in range(r)])


@nalg('into_owned', 'clone_owned', 'normalize_placeholder')
def _(c):
    return c.val(0)


@nalg('magnitude', 'norm')
def _(c):
    v = c.val(0)
    return fsqrt(dot(v, v))


@nalg('magnitude_squared', 'norm_squared')
def _(c):
    v = c.val(0)
    return dot(v, v)


@nalg('determinant')
def _(c):
    m = c.val(0)
    if (m.r, m.c) != (3, 3):
        raise Unsupported('determinant')
    return det3(m)


@nalg('trace')
def _(c):
    m = c.val(0)
    t = m.at(0, 0)
    for i in range(1, m.r):
        t = add(t, m.at(i, i))
    return t


@nalg('sum')
def _(c):
    m = c.val(0)
    t = m.d[0]
    for x in m.d[1:]:
        t = add(t, x)
    return t


@nalg('abs')
def _(c):
    return mat_map(absv, c.val(0))


@nalg('map')
def _(c):
    m = c.val(0)
    return VMat(m.r, m.c, [c.call(c.args[1], x) for x in m.d])


@nalg('is_identity')
def _(c):
    m, e = c.val(0), c.args[1]
    return and_(*[le(absv(sub(m.at(i, j), Fraction(int(i == j)))), e) for i in range(m.r) for j in range(m.c)])


@nalg('swap_columns')
def _(c):
    r = base_ref(c, 0)
    m, a, b = c.eng.read(c.st, r), conc(c.args[1]), conc(c.args[2])
    if a is None or b is None:
        raise Unsupported('swap_columns')
    cols = [m.col(j) for j in range(m.c)]
    cols[a], cols[b] = cols[b], cols[a]
    c.eng.write(c.st, r, VMat(m.r, m.c, [x for v in cols for x in v.d]))
    return UNIT


def is_singular(m):
    return eq(det3(m), Fraction(0))


@nalg('try_inverse')
def _(c):
    m = c.val(0)
    if (m.r, m.c) != (3, 3):
        raise Unsupported('inverse')
    d = det3(m)
    cd = conc(d)
    if cd == 0:
        return NONE
    return opt(ne(d, Fraction(0)), mat_inv3(m))


@nalg('pseudo_inverse')
def _(c):
    """For a matrix whose singular values exceed the threshold this is the inverse (assumed)."""
    m = c.val(0)
    if (m.r, m.c) != (3, 3):
        raise Unsupported('pseudo-inverse')
    c.eng.assumptions.add('nalgebra pseudo_inverse(eps) is the exact inverse of the lattice matrix (all singular values exceed eps)')
    return VEnum(None, 0, {0: (mat_inv3(m),)})


@nalg('try_invert_to')
def _(c):
    m = c.val(0)
    r = c.args[1]
    d = det3(m)
    ok = ne(d, Fraction(0))
    co = conc(ok)
    if co is False:
        return False
    inv = mat_inv3(m)
    if co is True:
        c.eng.write(c.st, r, inv)
        return True
    # two outcomes: the output keeps its old value when the matrix is singular
    s1, s2 = c.st.copy(), c.st
    s1.assume(ok)
    c.eng.write(s1, r, inv)
    s2.assume(not_(ok))
    return [(s1, True), (s2, False)]


@nalg('cast')
def _(c):
    m = c.val(0)
    r, k, sc = dims(c)
    if sc == 'f64':
        return mat_map(to_real, m)
    return m


@nalg('zip_map')
def _(c):
    a, b = c.val(0), c.val(1)
    return VMat(a.r, a.c, [c.call(c.args[2], x, y) for x, y in zip(a.d, b.d)])


@nalg('scale')
def _(c):
    a = c.val(0)
    return mat_map(lambda x: mul(x, c.args[1]), a)
