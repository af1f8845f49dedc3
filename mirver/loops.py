"""Loops over sequences of unknown length.

An iteration is executed once at a generic index i.  Every location the body changes falls into one of the
classes below; its value before iteration i is then a function of i defined by facts that hold for every
iteration, so nothing is unrolled and nothing is bounded:

  map      element i of a sequence is replaced, the others are left alone
  append   exactly one element is pushed per iteration
  prepend  exactly one element is inserted at the front per iteration
  affine   an integer changes by a constant per iteration
  last     the new value does not depend on earlier iterations
  rec      the new value is a function of the old one: E(i+1) = step(E(i), i)

Integer bounds for rec values are proved by induction (Houdini over a few templates)."""
import z3
from collections import defaultdict
from .vals import *
from .engine import QFact, State
from .models import VIter, skolemise, counter, leaves_deep, val_eq


def diff_paths(old, new, path=()):
    """Paths at which two values differ, descending through structs."""
    if old is new:
        return []
    if old is UNINIT and new is UNINIT:
        return []
    if isinstance(old, VStruct) and isinstance(new, VStruct) and len(old.f) == len(new.f):
        out = []
        for i, (a, b) in enumerate(zip(old.f, new.f)):
            out += diff_paths(a, b, path + (('f', i),))
        return out
    if is_scalar(old) and is_scalar(new) and same(old, new):
        return []
    if isinstance(old, VMat) and isinstance(new, VMat) and (old.r, old.c) == (new.r, new.c) and old._d is not None \
            and new._d is not None and all(same(a, b) for a, b in zip(old.d, new.d)):
        return []
    if isinstance(old, str) and isinstance(new, str) and old == new:
        return []
    if isinstance(old, VIter) and isinstance(new, VIter) and old.src is new.src and same(old.pos, new.pos):
        return []
    if isinstance(old, VRef) and isinstance(new, VRef) and repr(old) == repr(new):
        return []
    return [path]


def live_cells(fr, h, st):
    """Cells that matter at the loop head: everything except locals of this frame that are dead there."""
    live = fr.body.live[h] | fr.body.addr
    dead = {c for i, c in enumerate(fr.cells) if i not in live}
    return [c for c in st.mem if c not in dead]


def modified(eng, fr, h, st, backs):
    mods = {}
    cells = live_cells(fr, h, st)
    for b in backs:
        for c in cells:
            if c not in b.mem or b.mem[c] is UNINIT:
                continue
            if st.mem[c] is UNINIT:
                continue        # assigned before use in every iteration (definite initialisation)
            for p in diff_paths(st.mem[c], b.mem[c]):
                mods.setdefault((c, p), []).append(eng.read_path(b, b.mem[c], p))
    return mods


def elem_like(v, name):
    """index -> fresh element of the same shape as v (uninterpreted functions of the index)."""
    if is_scalar(v):
        so = B if is_boolv(v) else R if is_real(v) else I
        f = z3.Function(name, I, so)
        return lambda j: f(zi(j))
    if isinstance(v, VMat):
        fs = [elem_like(x, f'{name}[{k}]') for k, x in enumerate(v.d)]
        return lambda j: VMat(v.r, v.c, [f(j) for f in fs])
    if isinstance(v, VStruct):
        fs = [elem_like(x, f'{name}.{k}') for k, x in enumerate(v.f)]
        return lambda j: VStruct(v.ty, [f(j) for f in fs])
    if isinstance(v, SStr):
        f = z3.Function(name, I, I)
        return lambda j: SStr(f(zi(j)))
    if isinstance(v, CSeq):
        fs = [elem_like(x, f'{name}.{k}') for k, x in enumerate(v.xs)]
        return lambda j: CSeq([f(j) for f in fs])
    if isinstance(v, str):
        raise Unsupported('string changed in a loop of unknown length')
    raise Unsupported(f'{type(v).__name__} changed in a loop of unknown length')


def push_root(s):
    n = []
    while isinstance(s, PSeq):
        n.append(s.v)
        s = s.base
    return s, n[::-1]


def strip_refs(v):
    if isinstance(v, (VRef, VIteRef)):
        raise Unsupported('sequence of references updated in a loop')
    return v


def delta(v, cur):
    """v - cur with if-then-else pushed outwards."""
    if is_z(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = delta(v.arg(1), cur), delta(v.arg(2), cur)
        return ite(v.arg(0), a, b)
    d = z3.simplify(zr(sub(v, cur)) if is_real(cur) or is_real(v) else zi(sub(v, cur)))
    c = conc(d)
    return c if c is not None else d


class Kind:
    def __init__(self, k, fn=None, names=(), const=None, elem=None):
        self.k, self.fn, self.names, self.const, self.elem = k, fn, names, const, elem

    def __eq__(self, o):
        return o is not None and self.k == o.k and self.const == o.const

    __hash__ = None


def classify(eng, s1, st, c, p, vals, i, names, prev):
    old = eng.read_path(st, st.mem[c], p)
    cur = eng.read_path(s1, s1.mem[c], p)

    def template(tag, v):
        key = (c, p, tag)
        if key not in names:
            nm = fresh_name(tag)
            names[key] = (nm, elem_like(strip_refs(v), nm))
        return names[key]
    if isinstance(cur, Seq):
        for v in vals:
            root, pushed = push_root(v)
            if isinstance(v, CSeq) and isinstance(cur, CSeq) and len(v.xs) == len(cur.xs) + 1:
                if all(a is b for a, b in zip(v.xs[1:], cur.xs)) and cur.xs:
                    root, pushed = cur, [v.xs[0]]
                    nm, f = template('pre', pushed[0])
                    return Kind('prepend', f, (nm,))
                root, pushed = cur, [v.xs[-1]]
                if not cur.xs and getattr(v, 'prep', False):
                    nm, f = template('pre', pushed[0])
                    return Kind('prepend', f, (nm,))
            if isinstance(v, ISeq) and v.base is cur:
                nm, f = template('pre', v.v)
                return Kind('prepend', f, (nm,))
            if pushed:
                if len(pushed) != 1 or root is not cur:
                    raise Unsupported('loop appends irregularly')
                nm, f = template('app', pushed[0])
                return Kind('append', f, (nm,))
        nm, f = template('oth', old.get(i))
        return Kind('map', f, (nm,))
    if is_scalar(cur) and not is_boolv(cur) and not is_real(cur) and (prev is None or prev.k == 'affine'):
        ds = [conc(delta(v, cur)) for v in vals]
        if all(d is not None for d in ds) and len(set(ds)) == 1:
            return Kind('affine', const=ds[0])
    nm, f = template('rec', cur)
    return Kind('rec', f, (nm,))


class ISeq(Seq):
    """base with one element inserted at the front."""
    __slots__ = ('base', 'v')

    def __init__(self, base, v):
        self.base, self.v = base, v

    @property
    def n(self):
        return add(self.base.n, 1)

    def get(self, j):
        e = eq(j, 0)
        c = conc(e)
        if c is True:
            return self.v
        if c is False:
            return self.base.get(sub(j, 1))
        return vite(e, self.v, self.base.get(sub(j, 1)))


def before(kind, old, i, p0):
    """Value of a changed location before iteration i."""
    k = kind.k
    if k == 'map':
        f, oi = kind.fn, old.get(i)
        return SSeq(old.n, lambda j: oi if same(j, i) else vite(eq(j, i), oi, f(j)))
    if k in ('append', 'prepend'):
        return SSeq(add(old.n, sub(i, p0)), kind.fn)
    if k == 'affine':
        return add(old, mul(kind.const, sub(i, p0)))
    return kind.fn(i)


def prepare(eng, st, itref, it, i, kinds):
    """State at the start of an arbitrary iteration i."""
    s = st.copy()
    eng.write(s, itref, VIter(it.src, i))
    s.pc += [zb(le(it.pos, i)), zb(lt(i, it.src.n))]
    for (c, p), kind in kinds.items():
        old = eng.read_path(st, st.mem[c], p)
        s.mem[c] = eng.update(s, s.mem[c], p, before(kind, old, i, it.pos))
    return s


def auto_loop(eng, fr, h, blocks, st, itref):
    it = eng.read(st, itref)
    p0, N = it.pos, it.src.n
    i = fresh_int('i')
    rec, eng.record = eng.record, False
    kinds, names = {}, {}
    try:
        for _ in range(6):
            s1 = prepare(eng, st, itref, it, i, kinds)
            r = eng.region(fr, blocks, h, h, [s1.copy()])
            mods = modified(eng, fr, h, s1, r.get('back', []))
            new = False
            for (c, p), vals in mods.items():
                if (c, p) == (itref.cell, itref.path):
                    continue
                # a location inside one already treated as a whole
                k = classify(eng, s1, st, c, p, vals, i, names, kinds.get((c, p)))
                if kinds.get((c, p)) != k:
                    kinds[(c, p)] = k
                    new = True
            if not new:
                break
        else:
            raise Unsupported('loop classification does not converge')
        # bounds of rec values need the step relation: compute it from the dry run
        bounds = infer_bounds(eng, fr, h, blocks, st, itref, it, i, kinds, r, s1)
    finally:
        eng.record = rec
    start = counter()
    nb = len(st.pc)
    s1 = prepare(eng, st, itref, it, i, kinds)
    for b in bounds:
        s1.assume(b(i))
    nf0 = len(s1.facts)
    olds = {k: eng.read_path(st, st.mem[k[0]], k[1]) for k in kinds}
    bases = {k: eng.read_path(s1, s1.mem[k[0]], k[1]) for k in kinds}
    r = eng.region(fr, blocks, h, h, [s1.copy()])
    backs = r.pop('back', [])
    exits = [(t, x) for t, xs in r.items() for x in xs]
    if backs:
        merged = eng.merge_states(fr, h, backs)
        if len(merged) > 1 and kinds:
            raise Unsupported('iteration outcomes cannot be merged')
        backs = merged
    back_cond = zb(or_(*[and_(*b.pc[nb:]) for b in backs])) if backs else z3.BoolVal(False)
    vals = {}
    if backs:
        b = backs[0]
        for k, kind in kinds.items():
            vals[k] = written_value(kind, bases[k], eng.read_path(b, b.mem[k[0]], k[1]), i)
    keys = list(vals)
    tup = VStruct(None, [vals[k] for k in keys])
    lf = []
    for b in backs:
        g = and_(*b.pc[nb:]) if len(backs) > 1 else True
        lf += [(f, g) for f in b.facts[nf0:]]
    tup, (back_cond,), pairs = skolemise(tup, [back_cond], i, start)
    vals = dict(zip(keys, tup.f))

    def at(e, j):
        return z3.substitute(e, (i, zi(j)))

    def defs(st_, lo, hi):
        """Facts defining the carried values for the iterations lo <= j < hi that came back to the head."""
        st_.facts.append(QFact(1, lambda j: implies(and_(le(lo, j), lt(j, hi)), at(back_cond, j)), 'loop iterations'))
        for f, g in lf:
            st_.facts.append(lift_fact(f, g, i, pairs, lo, hi))
        for k, kind in kinds.items():
            if k not in vals:
                continue
            v, old = vals[k], olds[k]
            if kind.k == 'rec':
                st_.assume(val_eq(kind.fn(lo), old))
                st_.facts.append(QFact(1, lambda j, v=v, kind=kind: implies(and_(le(lo, j), lt(j, hi)), val_eq(kind.fn(add(j, 1)), subst(v, [(i, j)]))),
                                       'recurrence'))
            elif kind.k == 'map' and uses(kind):
                st_.facts.append(QFact(1, lambda j, v=v, kind=kind, old=old: val_eq(
                    kind.fn(j), vite(and_(le(lo, j), lt(j, hi)), subst(v, [(i, j)]), old.get(j))), 'elements of earlier iterations'))
            elif kind.k == 'append' and uses(kind):
                L0 = old.n
                if conc(L0) != 0:
                    st_.facts.append(QFact(1, lambda j, kind=kind, old=old: implies(and_(le(0, j), lt(j, old.n)), val_eq(kind.fn(j), old.get(j))),
                                           'elements before the loop'))
                st_.facts.append(QFact(1, lambda j, v=v, kind=kind, L0=L0: implies(and_(le(lo, j), lt(j, hi)), val_eq(
                    kind.fn(add(L0, sub(j, lo))), subst(v, [(i, j)]))), 'appended elements'))
        for b in bounds:
            st_.facts.append(QFact(1, lambda j, b=b: implies(and_(le(lo, j), le(j, hi)), b(j)), 'loop bound'))
            st_.assume(implies(le(lo, hi), b(hi)))

    used = set()
    for e in leaves_deep(tup) + [back_cond] + [c for _, x in exits for c in x.pc[nb:]] \
            + [t for _, x in exits for k in kinds for t in leaves_deep(eng.read_path(x, x.mem[k[0]], k[1]))]:
        used |= fn_names(e)

    def uses(kind):
        return any(n.startswith(kind.names[0]) for n in used)
    for k, kind in kinds.items():
        if kind.k == 'prepend' and uses(kind):
            raise Unsupported('loop reads a sequence it prepends to')
        if exits and kind.k == 'prepend':
            raise Unsupported('prepending loop left early')
    # exits read the sequences through their generic base
    if exits:
        for k, kind in kinds.items():
            if kind.k in ('map', 'append'):
                used.add(kind.names[0])
    outs = defaultdict(list)
    found = fresh_bool('left')
    s3 = st.copy()
    if exits:
        s3.assume(z3.Not(found))
    s3.assume(le(p0, N))
    defs(s3, p0, N)
    eng.write(s3, itref, VIter(it.src, N))
    for k, kind in kinds.items():
        if k in vals:
            s3.mem[k[0]] = eng.update(s3, s3.mem[k[0]], k[1], final_value(kind, olds[k], vals[k], i, p0, N))
            s3.log.append(('loop', kind.k, kind.fn, vals[k], i, p0, N, olds[k], fr.body.name, h))
    rr = eng.region(fr, blocks, h, h, [s3])
    if rr.get('back'):
        raise Unsupported('loop does not end with its iterator')
    for t, xs in rr.items():
        outs[t] += xs
    for t, x in exits:
        x.pc = x.pc[:nb] + [found] + x.pc[nb:]
        defs(x, p0, i)
        x.log.append(('idx', i))
        outs[t].append(x)
    return outs


def fn_names(e):
    out = set()
    if not is_z(e):
        return out
    seen, st = set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        st.extend(t.children())
    return out


def infer_bounds(eng, fr, h, blocks, st, itref, it, i, kinds, r, s1):
    """Inductive bounds of integer rec values: list of functions index -> fact."""
    from .prover import prove
    p0, N = it.pos, it.src.n
    cands = []
    for k, kind in kinds.items():
        old = eng.read_path(st, st.mem[k[0]], k[1])
        if kind.k == 'rec' and is_scalar(old) and not is_boolv(old) and not is_real(old):
            f = kind.fn
            cands += [lambda j, f=f, old=old: le(old, f(j)), lambda j, f=f, old=old: le(f(j), add(old, sub(j, p0))),
                      lambda j, f=f, old=old: le(f(j), old), lambda j, f=f: le(0, f(j)), lambda j, f=f: eq(f(j), j)]
    if not cands:
        return []
    backs = r.get('back', [])
    nb = len(st.pc)
    init = st.pc + [zb(val_eq(kind.fn(p0), eng.read_path(st, st.mem[k[0]], k[1]))) for k, kind in kinds.items() if kind.k == 'rec']
    cands = [c for c in cands if prove(init, [], c(p0), nl=False, want_model=False).status == 'proved']
    changed = True
    while changed and cands:
        changed = False
        for b in backs:
            step = [zb(val_eq(kind.fn(add(i, 1)), eng.read_path(b, b.mem[k[0]], k[1]))) for k, kind in kinds.items() if kind.k == 'rec']
            hyps = b.pc + [zb(c(i)) for c in cands] + step
            keep = [c for c in cands if prove(hyps, b.facts, c(add(i, 1)), nl=False, want_model=False).status == 'proved']
            if len(keep) != len(cands):
                cands, changed = keep, True
                break
    return cands


def lift_fact(f, g, i, pairs, lo, hi):
    def fn(j, *rest):
        ks = [fresh_int('q') for _ in rest]
        e = zb(implies(g, f.fn(*ks)))
        if pairs:
            e = z3.substitute(e, *pairs)
        e = z3.substitute(e, (i, zi(j)), *[(a, zi(b)) for a, b in zip(ks, rest)])
        return implies(and_(le(lo, j), lt(j, hi)), e)
    return QFact(f.arity + 1, fn, f.name + ' (per iteration)')


def written_value(kind, base, v, i):
    k = kind.k
    if k == 'map':
        root, idx = _root(v)
        if root is not base or any(not same(x, i) for x in idx):
            raise Unsupported('loop writes outside the current index')
        return v.get(i)
    if k == 'append':
        root, pushed = push_root(v)
        if root is not base or len(pushed) != 1:
            raise Unsupported('loop does not append exactly one element')
        return pushed[0]
    if k == 'prepend':
        if not isinstance(v, ISeq) or v.base is not base:
            raise Unsupported('loop does not prepend exactly one element')
        return v.v
    if k == 'affine':
        d = conc(delta(v, base))
        if d != kind.const:
            raise Unsupported('counter step')
        return d
    return v


def _root(s):
    idx = []
    while isinstance(s, USeq):
        idx.append(s.i)
        s = s.base
    return s, idx


def final_value(kind, old, v, i, p0, N):
    k = kind.k
    if k == 'map':
        if conc(p0) == 0 and same(N, old.n):
            return SSeq(old.n, lambda j: subst(v, [(i, j)]))
        return SSeq(old.n, lambda j: vite(and_(le(p0, j), lt(j, N)), subst(v, [(i, j)]), old.get(j)))
    if k == 'append':
        L0 = old.n
        if conc(L0) == 0:
            return SSeq(sub(N, p0), lambda j: subst(v, [(i, add(j, p0))]))
        return SSeq(add(L0, sub(N, p0)), lambda j: vite(lt(j, L0), old.get(j), subst(v, [(i, add(sub(j, L0), p0))])))
    if k == 'prepend':
        L0 = old.n
        M = sub(N, p0)
        if conc(L0) == 0:
            return SSeq(M, lambda j: subst(v, [(i, sub(sub(N, 1), j))]))
        return SSeq(add(L0, M), lambda j: vite(lt(j, M), subst(v, [(i, sub(sub(N, 1), j))]), old.get(sub(j, M))))
    if k == 'affine':
        return add(old, mul(v, sub(N, p0)))
    # rec
    if not any(n.startswith(kind.names[0]) for t in leaves_deep(v) for n in fn_names(t)):
        return vite(lt(p0, N), subst(v, [(i, sub(N, 1))]), old)
    return kind.fn(N)
