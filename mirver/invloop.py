"""Loops with a stated invariant.

The loop body is executed once from a state in which everything it changes is arbitrary except for the invariant.
Obligations: the invariant holds on entry, every iteration preserves it, and every way out of the loop satisfies the exit
condition.  After the loop only invariant and exit condition are known.  Termination is not claimed."""
from collections import defaultdict
from copy import copy
from .vals import *
from .engine import QFact, Unsupported
from .models import VIter, Src
from .loops import modified, diff_paths, live_cells
from .prover import prove, subterms
from .verify import skolem, split as split_goal


def arbitrary(eng, st, v, strict=False):
    """A value of the same shape about which nothing is known."""
    if is_scalar(v):
        return fresh_bool('h') if is_boolv(v) else fresh_real('h') if is_real(v) else fresh_int('h')
    if isinstance(v, VMat):
        return VMat(v.r, v.c, [arbitrary(eng, st, x) for x in v.d])
    if isinstance(v, VStruct):
        return VStruct(v.ty, [arbitrary(eng, st, x) for x in v.f])
    if isinstance(v, VIter):
        p = fresh_int('pos')
        st.assume(and_(le(v.pos, p), lt(p, v.src.n) if strict else le(p, v.src.n)))
        return VIter(v.src, p)
    raise Unsupported(f'{type(v).__name__} changed in a loop with an invariant')


def refs_in(v):
    if isinstance(v, VRef):
        yield v.cell
    elif isinstance(v, (VStruct, VClosure)):
        for x in v.f:
            yield from refs_in(x)
    elif isinstance(v, CSeq):
        for x in v.xs:
            yield from refs_in(x)
    elif isinstance(v, VEnum):
        for fs in v.v.values():
            for x in fs:
                yield from refs_in(x)
    elif isinstance(v, Seq):
        yield from refs_in(v.get(fresh_int('j')))
    elif isinstance(v, VIter) or isinstance(v, Src):
        for x in (vars(v).values() if hasattr(v, '__dict__') else [getattr(v, a) for a in v.__slots__]):
            if not isinstance(x, int) and x is not None:
                yield from refs_in(x)
    elif not (is_scalar(v) or isinstance(v, (VMat, str, SStr, VFn, SMap)) or v is UNINIT):
        yield None          # may hold a reference to anything


def dead_cells(fr, t, st):
    """Locals of the frame that are neither used from block t on nor referred to by anything that is."""
    own = {c: i for i, c in enumerate(fr.cells)}
    keep = {c for c in st.mem if c not in own or own[c] in fr.body.live[t]}
    todo = list(keep)
    while todo:
        for c in refs_in(st.mem.get(todo.pop(), UNINIT)):
            new = [c] if c is not None else [x for x in own if own[x] in fr.body.addr]
            for x in new:
                if x not in keep:
                    keep.add(x)
                    todo.append(x)
    return {c for c in own if c not in keep}


def returns(body, b):
    """Some path from block b reaches a return."""
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if body.blocks[x]['t'][0] == 'return':
            return True
        todo += body.succ(x)
    return False


class Some:
    """For all indices ks there is an integer w with fn(*ks, w).  Assumed: w is a function of ks, handed to keep.
    Proved: one of the terms cands(*ks) will do."""
    def __init__(self, arity, fn, cands, keep):
        self.arity, self.fn, self.cands, self.keep = arity, fn, cands, keep

    def assumed(self):
        w = z3.Function(fresh_name('witness'), *[I] * self.arity, I)
        self.keep(lambda *ks: w(*[zi(k) for k in ks]))
        return QFact(self.arity, lambda *ks: self.fn(*ks, w(*[zi(k) for k in ks])))

    def claimed(self):
        return QFact(self.arity, lambda *ks: or_(*[self.fn(*ks, c) for c in self.cands(*ks)]))


class LoopInv:
    """roles: name the changed locations {role: (cell, path)} or None if this is another loop.
    fresh: arbitrary value of a role satisfying the shape part of the invariant (None: any value).
    inv / exit: [(name, formula or QFact)] over the values of the roles."""
    label = 'loop'
    nested = False          # loops inside carry invariants of their own
    exit_kind = 'ensures'

    def roles(self, eng, fr, st, mods):
        return None

    def fresh(self, eng, st, vals, role):
        return None

    def inv(self, eng, st, v):
        return []

    def exit(self, eng, st, v):
        return []

    def after(self, eng, st, v):
        """Called on the state after the loop."""

    def __call__(self, eng, fr, h, blocks, st):
        return inv_loop(eng, fr, h, blocks, st, copy(self))


class Loops:
    """Tries several invariants in turn."""
    def __init__(self, *ls):
        self.ls = ls

    def __call__(self, eng, fr, h, blocks, st):
        for l in self.ls:
            r = l(eng, fr, h, blocks, st)
            if r is not None:
                return r
        return None


def inv_loop(eng, fr, h, blocks, st, L):
    def ahead(s, k):
        v = eng.read_path(s, s.mem[k[0]], k[1])
        return lt(v.pos, v.src.n)
    rec, eng.record = eng.record, False
    hook = eng.loop_hook
    if not L.nested:
        eng.loop_hook = None
    nl, ncell = len(st.log), eng.ncell
    try:
        # what one iteration changes, starting from the real entry state and then from ever more arbitrary ones
        first = modified(eng, fr, h, st, eng.region(fr, blocks, h, h, [st.copy()]).get('back', []))
        L.changed = first
        roles = L.roles(eng, fr, st, {k: eng.read_path(st, st.mem[k[0]], k[1]) for k in first})
        if roles is None:
            return None
        bounds = []         # of integers: (location, comparison, constant)
        strict = set()      # iterators that provably never run out at the loop head
        mods = dict.fromkeys(list(first) + [k for k in roles.values()])

        def generic():
            s = st.copy()
            vals = {}
            for r, (c, p) in roles.items():
                old = eng.read_path(st, st.mem[c], p)
                v = L.fresh(eng, s, vals, r)
                vals[r] = arbitrary(eng, s, old) if v is None else v
                s.mem[c] = eng.update(s, s.mem[c], p, vals[r])
            for c, p in mods:
                if (c, p) not in roles.values():
                    s.mem[c] = eng.update(s, s.mem[c], p, arbitrary(eng, s, eng.read_path(st, st.mem[c], p), (c, p) in strict))
            for (c, p), op, k in bounds:
                s.assume(op(eng.read_path(s, s.mem[c], p), k))
            return s, vals
        for _ in range(6):
            s1, _v = generic()
            r = eng.region(fr, blocks, h, h, [s1.copy()])
            more = [k for k in modified(eng, fr, h, s1, r.get('back', [])) if k not in mods]
            if not more:
                break
            mods.update(dict.fromkeys(more))
        else:
            raise Unsupported('changes of the loop not found')
        for k in mods:
            v = eng.read_path(st, st.mem[k[0]], k[1])
            if isinstance(v, VIter) and not L.nested and prove(st.pc, st.facts, lt(v.pos, v.src.n), nl=False, want_model=False).status == 'proved' and all(
                    prove(b.pc, b.facts, ahead(b, k), nl=False, want_model=False).status == 'proved' for b in r.get('back', [])):
                strict.add(k)
        # bounds of other integers: guessed, thinned out until the rest is preserved, and then obliged
        ints = {k: conc(eng.read_path(st, st.mem[k[0]], k[1])) for k in mods if k not in roles.values()}
        ints = {k: v for k, v in ints.items() if isinstance(v, int) and not isinstance(v, bool)}
        if ints and rec:
            s1, _v = generic()
            cur = {k: eng.read_path(s1, s1.mem[k[0]], k[1]) for k in ints}
            bs = eng.region(fr, blocks, h, h, [s1.copy()]).get('back', [])
            consts = set(ints.values())
            for b in bs:
                consts |= {t.as_long() for t in subterms(b.pc[len(s1.pc):]).values() if z3.is_int_value(t)}
            bounds = [(k, op, c) for k, v in ints.items() for op, ok in ((le, lambda x, y: x <= y), (lambda x, y: le(y, x), lambda x, y: x >= y)) for c in sorted(consts) if ok(v, c)]
            while True:
                hy = [op(cur[k], c) for k, op, c in bounds]
                keep = [x for x in bounds if all(prove(hy + b.pc, [], x[1](eng.read_path(b, b.mem[x[0][0]], x[0][1]), x[2]), nl=False, want_model=False).status == 'proved' for b in bs)]
                if len(keep) == len(bounds):
                    break
                bounds = keep
    except Unsupported:
        if hook is not None and not getattr(L, 'strict', True):
            return None
        raise
    finally:
        eng.record = rec
        eng.loop_hook = hook

    for k in strict:
        eng.oblige(st, 'induction', ahead(st, k), fr.body.name, fr.body.line, name=f'{L.label}: iterator not exhausted on entry')

    for (c, p), op, k in bounds:
        eng.oblige(st, 'induction', op(eng.read_path(st, st.mem[c], p), k), fr.body.name, fr.body.line, name=f'{L.label}: bound of a counter on entry')

    def vals_of(s):
        return {r: eng.read_path(s, s.mem[c], p) for r, (c, p) in roles.items()}

    def oblige(s, items, kind, what):
        for nm, g in items:
            gg, ks = skolem(g.claimed() if isinstance(g, Some) else g)
            for x in split_goal(gg):
                eng.oblige(s, kind, x, fr.body.name, fr.body.line, name=f'{L.label}: {nm} {what}', info={'idx': ks})

    def assume(s, items):
        for nm, g in items:
            g = g.assumed() if isinstance(g, Some) else g
            if isinstance(g, QFact):
                s.facts.append(g)
            else:
                s.assume(g)
    oblige(st, L.inv(eng, st, vals_of(st)), 'induction', 'on entry')
    s1, vals = generic()
    assume(s1, L.inv(eng, s1, vals))
    r = eng.region(fr, blocks, h, h, [s1.copy()])
    for b in r.pop('back', []):
        for k in strict:
            eng.oblige(b, 'induction', ahead(b, k), fr.body.name, fr.body.line, name=f'{L.label}: iterator not exhausted after an iteration')
        for (c, p), op, k in bounds:
            eng.oblige(b, 'induction', op(eng.read_path(b, b.mem[c], p), k), fr.body.name, fr.body.line, name=f'{L.label}: bound of a counter preserved')
        oblige(b, L.inv(eng, b, vals_of(b)), 'induction', 'preserved')
    outs = defaultdict(list)
    for t, xs in r.items():
        if t == 'ret':
            raise Unsupported('return inside a loop with an invariant')
        if not returns(fr.body, t):
            outs[t] += xs           # ends in a panic
            continue
        kept = []
        for x in xs:
            if rec and prove(x.pc, x.facts, False, nl=False, want_model=False).status == 'proved':
                eng.oblige(x, 'unreachable', False, fr.body.name, fr.body.line, name=f'{L.label}: a way out that is never taken')
            else:
                kept.append(x)
        if not kept:
            continue
        for x in kept:
            v = vals_of(x)
            oblige(x, L.inv(eng, x, v), 'induction', 'at the way out')
            oblige(x, L.exit(eng, x, v), L.exit_kind, 'at the way out')
            # everything else changed on the way out must be dead
            dead = dead_cells(fr, t, x)
            for c in s1.mem:
                if c in dead or c not in x.mem or s1.mem[c] is UNINIT or x.mem[c] is UNINIT:
                    continue
                for p in diff_paths(s1.mem[c], x.mem[c]):
                    if (c, p) not in mods:
                        raise Unsupported('a value changed on the way out of the loop is used later')
            for c in fr.cells:
                if c not in dead and c in x.mem and x.mem[c] is not UNINIT and st.mem.get(c, UNINIT) is UNINIT:
                    raise Unsupported(f'a value set in the loop is used later: local {fr.cells.index(c)} {x.mem[c]!r:.200}')
        s, v = generic()
        assume(s, L.inv(eng, s, v))
        assume(s, L.exit(eng, s, v))
        L.after(eng, s, v)
        outs[t].append(s)
    return outs
