"""Symbolic executor for MIR: one pass over each function with joins merged by if-then-else, loops handled
by unrolling (known trip count), by the map/search rules, or by inductive invariants supplied in contracts."""
import z3
from collections import defaultdict
from .vals import *
from .mir import f64_of


class QFact:
    """A universally quantified fact: fn(*indices) holds for all integer indices."""
    __slots__ = ('arity', 'fn', 'name')

    def __init__(self, arity, fn, name=''):
        self.arity, self.fn, self.name = arity, fn, name


class State:
    __slots__ = ('mem', 'pc', 'facts', 'log')

    def __init__(self, mem=None, pc=(), facts=(), log=()):
        self.mem = {} if mem is None else mem
        self.pc, self.facts, self.log = list(pc), list(facts), list(log)

    def copy(self):
        return State(dict(self.mem), self.pc, self.facts, self.log)

    def assume(self, c):
        c0 = conc(c)
        if c0 is True:
            return self
        self.pc.append(zb(c))
        return self

    def dead(self):
        return any(z3.is_false(c) for c in self.pc)


class Obl:
    __slots__ = ('name', 'kind', 'fn', 'line', 'hyps', 'facts', 'goal', 'prop', 'idx', 'info', 'log')

    def __init__(self, name, kind, fn, line, hyps, facts, goal, info=None, log=()):
        self.name, self.kind, self.fn, self.line = name, kind, fn, line
        self.hyps, self.facts, self.goal, self.info, self.log = hyps, facts, goal, info, log


class Frame:
    def __init__(self, body, cells):
        self.body, self.cells = body, cells


class LostAnchor(Unsupported):
    pass


class Engine:
    UNROLL = 300

    def __init__(self, prog):
        from . import models
        self.prog = prog
        self.models = models
        self.ncell = 0
        self.obls = []
        self.record = True
        self.contracts = {}         # function path suffix -> contract used at calls
        self.loop_hook = None
        self.counter_ok = None
        self.allow_panic = lambda fn, line, msg: False
        self.explicit_panic_ok = False
        self.assume_i8 = False
        self.static_cells = {}
        self.global_mem = {}
        self.cell_ty = {}
        self.depth = 0
        self.used_models = set()
        self.functions = {}         # functions whose bodies were executed -> count
        self.prune = None           # callable(pc list) -> bool (False = infeasible)
        self.steps = 0
        self.call_stack = []
        self.assumptions = set()
        self.trivial = set()
        self.hints = []             # called before a contract is applied; may add instances of lemmas and of Everywhere preconditions
        self.split_values = None    # frames in which paths with different values stay apart
        self.hash_order = list        # order in which concrete hash sets and maps are visited
        self.tables = {}            # lazily initialised static tables replaced by contract-provided values

    # ---- memory -------------------------------------------------------------------------
    def new_cell(self, st, val, ty=None):
        self.ncell += 1
        c = self.ncell
        st.mem[c] = val
        if ty is not None:
            self.cell_ty[c] = ty
        return c

    def getcell(self, st, c):
        if c in st.mem:
            return st.mem[c]
        if c in self.global_mem:
            return self.global_mem[c]
        raise Unsupported(f'dangling cell {c}')

    def read_path(self, st, v, path):
        for p in path:
            v = self.step(st, v, p)
        return v

    def step(self, st, v, p):
        k, x = p
        if isinstance(v, (VRef, VIteRef)) and k == 'f':
            return v                      # Box/Unique/NonNull wrappers around a pointer
        if k == 'f':
            if isinstance(v, (VStruct, VClosure)):
                return v.f[x]
            if isinstance(v, VMat):
                return v.d[x]
            if isinstance(v, CSeq):
                return v                  # transparent wrapper
        elif k == 'vf':
            if isinstance(v, VEnum):
                var, f = x
                if var not in v.v:
                    raise Unsupported('read of an absent enum variant')
                return v.v[var][f]
        elif k == 'i':
            if isinstance(v, Seq):
                return v.get(x)
            if isinstance(v, VMat):
                c = conc(x)
                if c is not None:
                    return v.d[c]
                r = v.d[-1]
                for j in range(len(v.d) - 2, -1, -1):
                    r = ite(eq(x, j), v.d[j], r)
                return r
        elif k == 'col':
            return v.col(x)
        elif k == 'map':
            if isinstance(v, CMap):
                return v.d[x][1]
        elif k == 'deref':
            return self.read(st, v)
        if hasattr(v, 'step'):
            return v.step(p)
        raise Unsupported(f'projection {k} on {type(v).__name__}')

    def update(self, st, v, path, new):
        if not path:
            return new
        if v is UNINIT:
            if all(p[0] == 'f' for p in path):
                return new                # initialising a MaybeUninit box
            raise Unsupported('write into uninitialised memory')
        p, rest = path[0], path[1:]
        k, x = p
        if isinstance(v, (VRef, VIteRef)) and k == 'f':
            return self.update(st, v, rest, new)
        sub_new = self.update(st, self.step(st, v, p), rest, new) if rest else new
        if k == 'f':
            if isinstance(v, VStruct):
                f = list(v.f)
                f[x] = sub_new
                return VStruct(v.ty, f)
            if isinstance(v, VClosure):
                f = list(v.f)
                f[x] = sub_new
                return VClosure(v.key, f)
            if isinstance(v, VMat):
                d = list(v.d)
                d[x] = sub_new
                return VMat(v.r, v.c, d)
        elif k == 'vf':
            var, f = x
            t = list(v.v[var])
            t[f] = sub_new
            vv = dict(v.v)
            vv[var] = tuple(t)
            return VEnum(v.ty, v.d, vv)
        elif k == 'i':
            if isinstance(v, Seq):
                return seq_set(v, x, sub_new)
            if isinstance(v, VMat):
                c = conc(x)
                d = list(v.d)
                if c is not None:
                    d[c] = sub_new
                else:
                    d = [ite(eq(x, j), sub_new, y) for j, y in enumerate(d)]
                return VMat(v.r, v.c, d)
        elif k == 'map':
            if isinstance(v, CMap):
                d = dict(v.d)
                d[x] = (d[x][0], sub_new)
                return CMap(d)
        elif k == 'col':
            d = list(v.d)
            d[x * v.r:(x + 1) * v.r] = list(sub_new.d)
            return VMat(v.r, v.c, d)
        if hasattr(v, 'update'):
            return v.update(p, sub_new)
        raise Unsupported(f'write through {k} on {type(v).__name__}')

    def read(self, st, ref):
        if isinstance(ref, VIteRef):
            return vite(ref.cond, self.read(st, ref.a), self.read(st, ref.b))
        if not isinstance(ref, VRef):
            if isinstance(ref, str) or isinstance(ref, SStr):
                return ref                # &str is its own value
            raise Unsupported(f'dereference of {type(ref).__name__}')
        return self.read_path(st, self.getcell(st, ref.cell), ref.path)

    def write(self, st, ref, val):
        if isinstance(ref, VIteRef):
            self.write(st, ref.a, vite(ref.cond, val, self.read(st, ref.a)))
            self.write(st, ref.b, vite(ref.cond, self.read(st, ref.b), val))
            return
        if not isinstance(ref, VRef):
            raise Unsupported(f'write through {type(ref).__name__}')
        if ref.cell not in st.mem:
            raise Unsupported('write to a static')
        st.mem[ref.cell] = self.update(st, st.mem[ref.cell], ref.path, val)

    def deref_all(self, st, v):
        while isinstance(v, (VRef, VIteRef)):
            v = self.read(st, v)
        return v

    # ---- places / operands --------------------------------------------------------------
    def place_ref(self, st, fr, p):
        """Reference denoting a place."""
        cell, path = fr.cells[p[0]], ()
        ref = VRef(cell, path)
        var = None
        for e in p[1]:
            k = e[0]
            if k == 'deref':
                ref = self.read(st, ref)
                if isinstance(ref, (str, SStr)):
                    return ref
                if not isinstance(ref, (VRef, VIteRef)):
                    raise Unsupported(f'dereference of {type(ref).__name__}')
                var = None
            elif k == 'field':
                ref = self.extend(ref, ('vf', (var, e[1])) if var is not None else ('f', e[1]))
                var = None
            elif k == 'downcast':
                var = e[1]
            elif k == 'index':
                i = self.read(st, VRef(fr.cells[e[1]]))
                ref = self.extend(ref, ('i', i))
            elif k == 'cindex':
                off, from_end = e[1], e[2] if len(e) > 2 else False
                if from_end:
                    n = self.read(st, ref).n
                    ref = self.extend(ref, ('i', sub(n, off)))
                else:
                    ref = self.extend(ref, ('i', off))
            else:
                raise Unsupported(f'place projection {k}')
        return ref

    def extend(self, ref, p):
        if isinstance(ref, VIteRef):
            return VIteRef(ref.cond, self.extend(ref.a, p), self.extend(ref.b, p))
        return VRef(ref.cell, ref.path + (p,))

    def operand(self, st, fr, o):
        if 'copy' in o:
            p = o['copy']
        elif 'move' in o:
            p = o['move']
        elif 'const' in o:
            return self.const(st, o)
        elif 'rtcheck' in o:
            return True
        else:
            raise Unsupported(f'operand {list(o)}')
        v = self.read(st, self.place_ref(st, fr, p))
        if v is UNINIT:
            raise Unsupported('read of an uninitialised local')
        return v

    def const(self, st, o):
        c, ty = o['const'], o['ty']
        T = self.prog.ty(ty)
        if c is None:
            return self.zst(ty)
        if 'tyconst' in c:
            return c['tyconst']
        if 'uneval' in c:
            raise Unsupported('unevaluated constant')
        b = bytes.fromhex(c['b'])
        return self.decode(ty, b, {off: a for off, a in c['p']})

    def zst(self, ty):
        T = self.prog.ty(ty)
        if T['k'] == 'fndef':
            return VFn(ty)
        if T['k'] == 'closure':
            return VClosure(T['key'], ())
        if T['k'] == 'array':
            return CSeq([self.zst(T['e'])] * int(T['n'])) if int(T['n']) else CSeq([])
        return VStruct(ty, ())

    def decode(self, ty, b, prov, off=0):
        """Value of type ty stored at offset off."""
        T = self.prog.ty(ty)
        k = T['k']
        if k == 'bool':
            return b[off] != 0
        if k == 'char':
            return chr(int.from_bytes(b[off:off + 4], 'little'))
        if k in ('int', 'uint'):
            n = int(T['size'])
            return int.from_bytes(b[off:off + n], 'little', signed=(k == 'int'))
        if k == 'float':
            if int(T['size']) == 4:
                import struct
                return Fraction(struct.unpack('<f', b[off:off + 4])[0])
            return f64_of(b[off:off + 8])
        if k == 'array':
            es = int(self.prog.ty(T['e'])['size'])
            return CSeq([self.decode(T['e'], b, prov, off + i * es) for i in range(int(T['n']))])
        if k == 'tuple':
            return VStruct(ty, [self.decode(e, b, prov, off + o) for e, o in zip(T['e'], T.get('offsets', [0] * len(T['e'])))])
        if k in ('ref', 'ptr'):
            E = self.prog.ty(T['e'])
            a = prov.get(off)
            if E['k'] == 'str':
                n = int.from_bytes(b[off + 8:off + 16], 'little')
                if n == 0:
                    return ''
                s = int.from_bytes(b[off:off + 8], 'little')
                return bytes.fromhex(self.prog.allocs[str(a)]['b'])[s:s + n].decode()
            if E['k'] == 'slice':
                n = int.from_bytes(b[off + 8:off + 16], 'little')
                return self.alloc_ref(a, T['e'], n, int.from_bytes(b[off:off + 8], 'little'))
            return self.alloc_ref(a, T['e'], None, int.from_bytes(b[off:off + 8], 'little'))
        if k == 'adt':
            m = self.prog.mat_dims(ty)
            if m and 'ArrayStorage' in T['s']:
                r, c, sc = m
                n = int(T['size']) // (r * c)
                if sc == 'f64':
                    return VMat(r, c, [f64_of(b[off + 8 * i:off + 8 * i + 8]) for i in range(r * c)])
                return VMat(r, c, [int.from_bytes(b[off + n * i:off + n * (i + 1)], 'little', signed=sc[0] == 'i')
                                   for i in range(r * c)])
            if T['kind'] == 'Struct' and T['variants']:
                fs = T['variants'][0]['fields']
                return VStruct(ty, [self.decode(ft, b, prov, off + o) for (_, ft), o in zip(fs, T['offsets'])])
            if T['kind'] == 'Enum' and T['variants'] and all(not v['fields'] for v in T['variants']):
                n = int(T['size'])
                d = int.from_bytes(b[off:off + n], 'little')
                for i, v in enumerate(T['variants']):
                    if int(v['discr']) == d:
                        return VEnum(ty, i, {i: ()})
            if T['kind'] == 'Struct' and int(T['size']) == 0:
                return VStruct(ty, ())
            return Opaque(T['s'])
        if k in ('fndef', 'closure'):
            return self.zst(ty)
        return Opaque(T['s'])

    def alloc_ref(self, a, ety, n, off=0):
        key = (a, ety, n, off)
        if key in self.static_cells:
            return VRef(self.static_cells[key])
        E = self.prog.ty(ety)
        if a is None:
            if n == 0:
                v = CSeq([])
            else:
                v = self.zst(ety)
        else:
            al = self.prog.allocs[str(a)]
            if 'static' in al:
                if al.get('init') is None:
                    v = Opaque('static ' + al['static'])
                else:
                    v = self.decode(al['ty'], bytes.fromhex(al['init']['b']), {o: x for o, x in al['init']['p']})
            elif 'fn' in al:
                v = Opaque('fn')
            else:
                b, prov = bytes.fromhex(al['b']), {o: x for o, x in al['p']}
                if n is not None:
                    es = int(self.prog.ty(E['e'])['size'])
                    v = CSeq([self.decode(E['e'], b, prov, off + i * es) for i in range(n)])
                else:
                    v = self.decode(ety, b, prov, off)
        self.ncell += 1
        self.global_mem[self.ncell] = v
        self.static_cells[key] = self.ncell
        return VRef(self.ncell)

    # ---- symbolic inputs ----------------------------------------------------------------
    def sym(self, st, ty, name):
        """Fresh symbolic value of a type; range facts are added to st."""
        T = self.prog.ty(ty)
        k = T['k']
        if k == 'float':
            return z3.Real(name)
        if k == 'bool':
            return z3.Bool(name)
        if k in ('int', 'uint'):
            v = z3.Int(name)
            lo, hi = self.prog.int_range(ty)
            st.assume(and_(le(lo, v), le(v, hi)))
            return v
        if k == 'tuple':
            return VStruct(ty, [self.sym(st, e, f'{name}.{i}') for i, e in enumerate(T['e'])])
        if k == 'array':
            return CSeq([self.sym(st, T['e'], f'{name}[{i}]') for i in range(int(T['n']))])
        if k == 'ref':
            E = self.prog.ty(T['e'])
            if E['k'] == 'slice':
                return VRef(self.new_cell(st, self.sym_seq(st, E['e'], name), None))
            if E['k'] == 'str':
                return SStr(z3.Int(name))
            return VRef(self.new_cell(st, self.sym(st, T['e'], name), T['e']))
        if k == 'adt':
            m = self.prog.mat_dims(ty)
            if m:
                r, c, sc = m
                if sc == 'f64':
                    return VMat(r, c, [z3.Real(f'{name}[{i},{j}]') for j in range(c) for i in range(r)])
                d = []
                w = {'i8': 8, 'i32': 32, 'i64': 64, 'isize': 64, 'u8': 8}.get(sc)
                for j in range(c):
                    for i in range(r):
                        x = z3.Int(f'{name}[{i},{j}]')
                        if sc[0] == 'i':
                            st.assume(and_(le(-(1 << (w - 1)), x), le(x, (1 << (w - 1)) - 1)))
                        d.append(x)
                return VMat(r, c, d)
            n = T['name']
            if n == 'std::vec::Vec':
                return self.sym_seq(st, T['args'][0], name)
            if n == 'std::string::String':
                return SStr(z3.Int(name))
            if T['kind'] == 'Struct' and T['variants']:
                return VStruct(ty, [self.sym(st, ft, f'{name}.{fn}') for fn, ft in T['variants'][0]['fields']])
            if T['kind'] == 'Enum' and T['variants']:
                d = z3.Int(name + '.d')
                st.assume(and_(le(0, d), lt(d, len(T['variants']))))
                return VEnum(ty, d, {i: tuple(self.sym(st, ft, f'{name}@{i}.{fn}') for fn, ft in v['fields'])
                                     for i, v in enumerate(T['variants'])})
        raise Unsupported(f'symbolic value of type {T["s"][:80]}')

    def sym_seq(self, st, ety, name):
        n = z3.Int(name + '.len')
        st.assume(and_(le(0, n), le(n, (1 << 63) - 1)))
        fn, rng = self.sym_elem(ety, name)
        if rng is not None:
            st.facts.append(QFact(1, rng, name + ' element range'))
        return SSeq(n, fn, ('sym', name))

    def sym_elem(self, ety, name):
        """(index -> element, index -> range fact or None) for a symbolic sequence."""
        T = self.prog.ty(ety)
        k = T['k']
        if k == 'float':
            f = z3.Function(name + '.el', I, R)
            return (lambda j: f(zi(j))), None
        if k == 'bool':
            f = z3.Function(name + '.el', I, B)
            return (lambda j: f(zi(j))), None
        if k in ('int', 'uint'):
            f = z3.Function(name + '.el', I, I)
            lo, hi = self.prog.int_range(ety)
            return (lambda j: f(zi(j))), (lambda j: and_(le(lo, f(zi(j))), le(f(zi(j)), hi)))
        if k == 'adt':
            m = self.prog.mat_dims(ety)
            if m:
                r, c, sc = m
                so = R if sc == 'f64' else I
                fs = [z3.Function(f'{name}.el[{i},{j}]', I, so) for j in range(c) for i in range(r)]
                rng = None
                if sc == 'i8':
                    rng = lambda q: and_(*[and_(le(-128, f(zi(q))), le(f(zi(q)), 127)) for f in fs])
                return (lambda q: VMat(r, c, [f(zi(q)) for f in fs])), rng
            if T['name'] == 'std::string::String':
                f = z3.Function(name + '.el', I, I)
                return (lambda j: SStr(f(zi(j)))), None
            if T['kind'] == 'Struct' and T['variants']:
                parts = [self.sym_elem(ft, f'{name}.{fn}') for fn, ft in T['variants'][0]['fields']]
                rs = [p[1] for p in parts if p[1]]
                return (lambda j: VStruct(ety, [p[0](j) for p in parts])), ((lambda j: and_(*[r(j) for r in rs])) if rs else None)
        if k == 'tuple':
            parts = [self.sym_elem(ft, f'{name}.{i}') for i, ft in enumerate(T['e'])]
            rs = [p[1] for p in parts if p[1]]
            return (lambda j: VStruct(ety, [p[0](j) for p in parts])), ((lambda j: and_(*[r(j) for r in rs])) if rs else None)
        if k == 'ref' and self.prog.ty(T['e'])['k'] == 'str':
            f = z3.Function(name + '.el', I, I)
            return (lambda j: SStr(f(zi(j)))), None
        raise Unsupported(f'symbolic sequence of {T["s"][:80]}')

    # ---- obligations --------------------------------------------------------------------
    def oblige(self, st, kind, goal, fn, line, name=None, info=None):
        if not self.record:
            return
        c = conc(goal)
        if c is True:
            goal = True
            if kind in ('panic-free', 'finite'):
                # an operation that cannot fail on concrete values is counted once per source position
                if (name, fn, line) in self.trivial:
                    return
                self.trivial.add((name, fn, line))
        self.obls.append(Obl(name or kind, kind, fn, line, list(st.pc), list(st.facts), goal, info, list(st.log)))

    # ---- running functions --------------------------------------------------------------
    def call_body(self, body, args, st):
        """Execute a function body; returns a list of (state, value)."""
        if self.depth > 40:
            raise Unsupported('recursion')
        self.functions[body.name] = self.functions.get(body.name, 0) + 1
        cells = []
        for i, ty in enumerate(body.locals):
            c = self.new_cell(st, UNINIT, ty)
            cells.append(c)
        if len(args) != body.nargs:
            raise Unsupported(f'argument count of {body.name}')
        for i, a in enumerate(args):
            st.mem[cells[i + 1]] = a
        fr = Frame(body, cells)
        self.depth += 1
        self.call_stack.append(fr)
        try:
            outs = self.region(fr, None, None, 0, [st])
        finally:
            self.depth -= 1
            self.call_stack.pop()
        res = []
        for s in outs.get('ret', []):
            v = s.mem.get(cells[0], UNINIT)
            if v is UNINIT:
                v = VStruct(None, ())
            for c in cells:
                s.mem.pop(c, None)
            # cells referenced by returned refs to locals cannot occur (borrow checker)
            res.append((s, v))
        return res

    def region(self, fr, blocks, head, entry, states):
        """Run from entry inside a set of blocks (None = whole body); returns target -> states."""
        body = fr.body
        pending = {entry: list(states)}
        outs = defaultdict(list)
        first = True

        def route(t, s):
            if t == 'ret':
                outs['ret'].append(s)
            elif head is not None and t == head:
                outs['back'].append(s)
            elif blocks is None or t in blocks:
                pending.setdefault(t, []).append(s)
            else:
                outs[t].append(s)
        while pending:
            b = min(pending, key=lambda x: body.rpo[x])
            sts = pending.pop(b)
            if len(sts) > 1:
                sts = self.merge_states(fr, b, sts)
            is_inner = b in body.loops and not (b == head and first)
            first = False
            for s in sts:
                if is_inner:
                    for t, ss in self.run_loop(fr, b, s).items():
                        for x in ss:
                            route(t, x)
                else:
                    for t, x in self.block(fr, b, s):
                        route(t, x)
        return outs

    # ---- merging ------------------------------------------------------------------------
    def merge_states(self, fr, b, sts):
        live = fr.body.live[b] | fr.body.addr
        own = {c: i for i, c in enumerate(fr.cells)}
        for s in sts:
            for c, i in own.items():
                if i not in live and c in s.mem:
                    s.mem[c] = UNINIT
        exact = self.split_values is not None and self.split_values(fr)
        if len(sts) > 8:
            from .invloop import dead_cells
            for s in sts:
                for c in dead_cells(fr, b, s):
                    if c in s.mem:
                        s.mem[c] = UNINIT
        out = [sts[0]]
        for s in sts[1:]:
            for k in range(len(out)):
                if exact and not self.same_memory(out[k], s):
                    continue
                m = self.merge2(out[k], s)
                if m is not None:
                    out[k] = m
                    break
            else:
                out.append(s)
        if len(out) > (512 if exact else 64):
            raise Unsupported('too many unmergeable paths')
        return out

    def same_memory(self, a, b):
        from .loops import diff_paths
        return all(c not in b.mem or not diff_paths(v, b.mem[c]) for c, v in a.mem.items())

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        if any(z3.is_false(c) for c in ra):
            return b
        if any(z3.is_false(c) for c in rb):
            return a
        ca, cb = and_(*ra), and_(*rb)
        # the selector: any condition that separates the two sets of paths
        cond = None
        if ra and rb:
            f, g = ra[0], rb[0]
            if f.eq(not_(g)) or g.eq(not_(f)):
                cond = f
        if cond is None:
            cond = ca
        if conc(cond) is not None:
            cond = not_(cb)
            if conc(cond) is not None:
                if conc(ca) is True and conc(cb) is True:
                    # both unconditional: only possible when states are equal in every respect
                    return None
                return None
        m = State()
        try:
            mem = {}
            for c in a.mem:
                if c in b.mem:
                    mem[c] = vite(cond, a.mem[c], b.mem[c])
                else:
                    mem[c] = a.mem[c]
            for c in b.mem:
                if c not in a.mem:
                    mem[c] = b.mem[c]
        except NoMerge:
            return None
        m.mem = mem
        m.pc = list(a.pc[:n])
        if ra and rb:
            f, g = ra[0], rb[0]
            if f.eq(not_(g)) or g.eq(not_(f)):
                ta, tb = and_(*ra[1:]), and_(*rb[1:])
                if conc(ta) is not True:
                    m.pc.append(zb(implies(f, ta)))
                if conc(tb) is not True:
                    m.pc.append(zb(implies(g, tb)))
            else:
                m.assume(or_(ca, cb))
        ga = ca if conc(ca) is None else not_(cb)
        gb = cb if conc(cb) is None else not_(ca)
        fa = {id(f) for f in a.facts}
        fb = {id(f) for f in b.facts}
        for f in a.facts:
            m.facts.append(f if id(f) in fb else QFact(f.arity, (lambda *j, f=f: implies(ga, f.fn(*j))), f.name))
        for f in b.facts:
            if id(f) not in fa:
                m.facts.append(QFact(f.arity, (lambda *j, f=f: implies(gb, f.fn(*j))), f.name))
        m.log = list(a.log) + [x for x in b.log if not any(x is y for y in a.log)]
        return m

    # ---- blocks -------------------------------------------------------------------------
    def feasible(self, st):
        if st.dead():
            return False
        if self.prune is not None:
            return self.prune(st)
        return True

    def block(self, fr, b, st):
        bb = fr.body.blocks[b]
        self.steps += 1
        for s in bb['s']:
            k = s[1]
            if k == '=':
                v = self.rvalue(st, fr, s[3], s[0])
                ref = self.place_ref(st, fr, s[2])
                self.write(st, ref, v)
            elif k == 'dead':
                x = s[2]
                st.mem[fr.cells[x if isinstance(x, int) else x[0]]] = UNINIT
            elif k == 'live':
                pass
            elif k == 'setdiscr':
                raise Unsupported('SetDiscriminant')
            elif k == 'intrinsic':
                pass
        t = bb['t']
        k = t[0]
        line = bb.get('l')
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'unreachable':
            self.oblige(st, 'unreachable', False, fr.body.name, line)
            return []
        if k in ('resume', 'abort'):
            return []
        if k == 'switch':
            return self.switch(st, fr, t, b)
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = not_(c)
            if self.counter_ok is not None and self.counter_ok(fr, t[3]):
                self.assumptions.add(f'a round counter of {fr.body.name} does not leave the range of its type')
            else:
                self.oblige(st, 'panic-free', c, fr.body.name, line, name=f'no panic: {t[3]}')
            if conc(c) is False:
                return []
            if conc(c) is None:
                st.assume(c)
            return [(t[4], st)]
        if k == 'call':
            return self.call_term(st, fr, t, line)
        raise Unsupported(f'terminator {k}')

    def switch(self, st, fr, t, b):
        v = self.operand(st, fr, t[1])
        o = t[1]
        if isinstance(v, str):
            v = ord(v)
        arms = []
        isb = is_boolv(v)
        cv = conc(v)
        if cv is not None:
            cvv = int(cv)
            for val, bb in t[2]:
                if self.sw_val(val, o, fr) == cvv or int(val) == cvv:
                    return [(bb, st)]
            return [(t[3], st)]
        conds = []
        for val, bb in t[2]:
            iv = int(val)
            if isb:
                c = v if iv else not_(v)
            else:
                c = eq(v, self.sw_val(val, o, fr))
            conds.append((c, bb))
        if t[3] is not None:
            conds.append((and_(*[not_(c) for c, _ in conds]), t[3]))
        for c, bb in conds:
            cc = conc(c)
            if cc is False:
                continue
            tb = fr.body.blocks[bb]
            if tb['t'][0] == 'unreachable' and not tb['s']:
                self.oblige(st, 'unreachable', not_(c), fr.body.name, tb.get('l'), name='unreachable arm')
                continue
            arms.append((c, bb))
        known = self.decide(st, [c for c, _ in arms])
        out = []
        for i, (c, bb) in enumerate(arms):
            if known[i] is False:
                continue
            s = st.copy() if len(arms) > 1 else st
            if known[i] is not True:
                s.assume(c)
            if self.feasible(s):
                out.append((bb, s))
        return out

    def sw_val(self, val, o, fr):
        iv = int(val)
        ty = None
        if 'copy' in o or 'move' in o:
            p = o.get('copy') or o.get('move')
            if not p[1]:
                ty = fr.body.locals[p[0]]
        if ty is not None:
            T = self.prog.ty(ty)
            if T['k'] == 'int':
                w = 8 * int(T['size'])
                if iv >= 1 << (w - 1):
                    iv -= 1 << w
        return iv

    def decide(self, st, cs):
        """Cheap syntactic decision of branch conditions from the path condition."""
        ids = {c.get_id() for c in st.pc}
        out = []
        for c in cs:
            c = zb(c)
            if c.get_id() in ids:
                out.append(True)
            elif zb(not_(c)).get_id() in ids:
                out.append(False)
            else:
                out.append(None)
        if out.count(True) == 1:
            return [x if x is True else False for x in out]
        return out

    # ---- rvalues ------------------------------------------------------------------------
    def rvalue(self, st, fr, r, line):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            return self.place_ref(st, fr, r[2])
        if k == 'bin':
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), line, self.op_ty(fr, r[2]))
        if k == 'cbin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            v = {'Add': add, 'Sub': sub, 'Mul': mul}[r[1].replace('WithOverflow', '')](a, b)
            lo, hi = self.prog.int_range(self.op_ty(fr, r[2]))
            return VStruct(None, [v, not_(and_(le(lo, v), le(v, hi)))])
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Neg':
                return neg(a)
            if r[1] == 'Not':
                if is_boolv(a):
                    return not_(a)
                raise Unsupported('bitwise not')
            if r[1] == 'PtrMetadata':
                v = self.read(st, a)
                if isinstance(v, Seq):
                    return v.n
                raise Unsupported('pointer metadata')
        if k == 'cast':
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), self.op_ty(fr, r[2]), r[3])
        if k == 'discr':
            v = self.read(st, self.place_ref(st, fr, r[1]))
            return self.discr(v)
        if k == 'len':
            return self.read(st, self.place_ref(st, fr, r[1])).n
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = int(r[2]['tyconst']) if isinstance(r[2], dict) else int(r[2])
            return CSeq([v] * n)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            if kind[0] == 'array':
                return CSeq(ops)
            if kind[0] == 'tuple':
                return VStruct(None, ops)
            if kind[0] == 'closure':
                return VClosure(kind[2], ops)
            if kind[0] == 'adt':
                T = self.prog.ty(kind[1])
                if T['kind'] == 'Enum':
                    return VEnum(kind[1], kind[2], {kind[2]: tuple(ops)})
                if T['name'] == 'std::ops::Range':
                    return self.models.range_iter(ops[0], ops[1])
                if T['name'] == 'std::ops::RangeInclusive':
                    return self.models.range_iter(ops[0], add(ops[1], 1))
                return VStruct(kind[1], ops)
        raise Unsupported(f'rvalue {k} {r[1] if len(r) > 1 and isinstance(r[1], str) else ""}')

    def op_ty(self, fr, o):
        if 'const' in o:
            return o['ty']
        p = o.get('copy') or o.get('move')
        ty = fr.body.locals[p[0]]
        for e in p[1]:
            if e[0] == 'deref':
                ty = self.prog.ty(ty)['e']
            elif e[0] == 'field':
                ty = e[2]
            elif e[0] in ('index', 'cindex'):
                ty = self.prog.ty(ty)['e']
        return ty

    def discr(self, v):
        if not isinstance(v, VEnum):
            raise Unsupported(f'discriminant of {type(v).__name__}')
        vs = self.variants(v)
        if vs is None or all(int(x) == i for i, x in enumerate(vs)):
            return v.d
        c = conc(v.d)
        if c is not None:
            return int(vs[c])
        r = int(vs[-1])
        for i in range(len(vs) - 2, -1, -1):
            r = ite(eq(v.d, i), int(vs[i]), r)
        return r

    def variants(self, v):
        if v.ty == 'ordering':
            return [255, 0, 1]
        if isinstance(v.ty, int):
            T = self.prog.ty(v.ty)
            if T.get('variants'):
                return [x['discr'] for x in T['variants']]
        return None

    def binop(self, st, fr, op, a, b, line, ty):
        if isinstance(a, str) and isinstance(b, str):        # chars
            a, b = ord(a), ord(b)
        T = self.prog.ty(ty)
        flt = T['k'] == 'float'
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'Mul', 'MulUnchecked'):
            v = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            if not flt and T['k'] in ('int', 'uint'):
                lo, hi = self.prog.int_range(ty)
                self.oblige(st, 'panic-free', and_(le(lo, v), le(v, hi)), fr.body.name, line, name='no wrap-around')
            return v
        if op == 'Div':
            if flt:
                c = conc(b)
                if c is None:
                    self.oblige(st, 'finite', ne(b, 0), fr.body.name, line, name='finite: divisor is not zero')
                    st.assume(ne(b, Fraction(0)))
                return fdiv(a, b)
            return self.int_div(a, b, T['k'] == 'int')
        if op == 'Rem':
            if flt:
                if conc(b) == 1:
                    return sub(a, to_real(ftrunc(a)))
                raise Unsupported('float remainder by something other than 1')
            return self.int_rem(a, b, T['k'] == 'int')
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return gt(a, b)
        if op == 'Ge':
            return ge(a, b)
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return ne(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and is_boolv(a):
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            return ne(a, b)
        raise Unsupported(f'operator {op}')

    def int_div(self, a, b, signed):
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None:
            if cb == 0:
                raise Unsupported('division by zero')
            q = abs(ca) // abs(cb)
            return q if (ca >= 0) == (cb > 0) else -q
        q = zi(a) / zi(b)
        if signed:
            return ite(ge(a, 0), q, neg(zi(neg(a)) / zi(b)))
        return q

    def int_rem(self, a, b, signed):
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None:
            if cb == 0:
                raise Unsupported('remainder by zero')
            r = abs(ca) % abs(cb)
            return r if ca >= 0 else -r
        if signed:
            return ite(ge(a, 0), zi(a) % zi(b), neg(zi(neg(a)) % zi(b)))
        return zi(a) % zi(b)

    def cast(self, st, fr, kind, v, fty, tty):
        if kind == 'IntToFloat':
            return to_real(v)
        if kind == 'FloatToInt':
            lo, hi = self.prog.int_range(tty)
            t = ftrunc(v)
            c = conc(t)
            if c is not None:
                return max(lo, min(hi, c))
            return ite(lt(t, lo), lo, ite(gt(t, hi), hi, t))
        if kind == 'FloatToFloat':
            return v
        if kind == 'IntToInt':
            rng = self.prog.int_range(tty)
            if isinstance(v, VEnum):
                v = self.discr(v)
            if rng is None:
                if self.prog.ty(tty)['k'] == 'char':
                    c = conc(v)
                    if c is not None:
                        return chr(c)
                raise Unsupported('integer cast')
            if isinstance(v, str):
                v = ord(v)
            if isinstance(v, bool):
                v = int(v)
            if is_boolv(v):
                return ite(v, 1, 0)
            lo, hi = rng
            w = hi - lo + 1
            c = conc(v)
            if c is not None:
                return (c - lo) % w + lo
            src = self.prog.int_range(fty)
            if src and lo <= src[0] and src[1] <= hi:
                return v
            return ite(and_(le(lo, v), le(v, hi)), v, add(zi(sub(v, lo)) % w, lo))
        return v        # pointer casts, unsizing, function reification, transmutes of pointers

    # ---- calls --------------------------------------------------------------------------
    def call_term(self, st, fr, t, line):
        f = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if 'const' in f:
            fv = VFn(f['ty'])
        else:
            fv = self.operand(st, fr, f)
        res = self.call_value(st, fv, args, fr, line, dest_ty=self.place_ty(fr, t[3]), arg_tys=[self.op_ty(fr, a) for a in t[2]])
        out = []
        for s, v in res:
            if t[4] is None:
                continue
            self.write(s, self.place_ref(s, fr, t[3]), v)
            out.append((t[4], s))
        return out

    def place_ty(self, fr, p):
        ty = fr.body.locals[p[0]]
        for e in p[1]:
            if e[0] == 'deref':
                ty = self.prog.ty(ty)['e']
            elif e[0] == 'field':
                ty = e[2]
        return ty

    def call_value(self, st, fv, args, fr=None, line=None, dest_ty=None, arg_tys=None):
        if isinstance(fv, VRef):
            fv = self.deref_all(st, fv)
        if isinstance(fv, VClosure):
            return self.call_closure(st, fv, args)
        if not isinstance(fv, VFn):
            raise Unsupported(f'call of {type(fv).__name__}')
        T = self.prog.ty(fv.ty)
        name, rname, key = T['name'], T.get('rname'), T.get('key')
        full = rname or name
        c = self.contract_for(full)
        if c is not None:
            r = c.apply(self, st, args, fr, line)
            if r is not None:
                return r
        if T.get('local') and key:
            body = self.prog.body(key)
            if body is not None:
                return self.call_body(body, args, st)
        ctx = self.models.Ctx(self, st, T, name, rname, args, fr, line, dest_ty, arg_tys)
        return self.models.dispatch(ctx)

    def contract_for(self, full):
        for suf, c in self.contracts.items():
            if full == suf or full.endswith('::' + suf):
                return c
        return None

    def call_closure(self, st, cl, args, self_ref=None):
        body = self.prog.body(cl.key)
        if body is None:
            raise Unsupported('closure without body')
        t1 = self.prog.ty(body.locals[1])
        tmp = None
        if t1['k'] in ('ref', 'ptr'):
            if self_ref is None:
                tmp = self.new_cell(st, cl)
                self_ref = VRef(tmp)
            a0 = self_ref
        else:
            a0 = cl
        if body.nargs == 1 + len(args):
            a = [a0] + list(args)
        elif body.nargs == 2 and len(args) != 1:
            a = [a0, VStruct(None, args)]
        else:
            raise Unsupported('closure arity')
        return self.call_body(body, a, st)

    def call_single(self, st, fv, args):
        """Call that must produce a single merged (state, value)."""
        res = self.call_value(st, fv, args)
        return self.merge_results(res)

    def merge_results(self, res):
        if not res:
            raise Unsupported('call never returns')
        s, v = res[0]
        for s2, v2 in res[1:]:
            c = self.new_cell(s, v)
            s2.mem[c] = v2
            m = self.merge2(s, s2)
            if m is None:
                raise Unsupported('results cannot be merged')
            s, v = m, m.mem.pop(c)
        return s, v

    # ---- loops --------------------------------------------------------------------------
    def run_loop(self, fr, h, st):
        body = fr.body
        blocks = body.loops[h]
        if self.loop_hook is not None:
            r = self.loop_hook(self, fr, h, blocks, st)
            if r is not None:
                return r
        it = self.loop_iter(fr, h, blocks, st)
        if it is not None:
            v = self.read(st, it)
            n = conc(v.remaining(self, st)) if hasattr(v, 'remaining') else None
            if hasattr(v, 'remaining') and n is None:
                from . import loops
                return loops.auto_loop(self, fr, h, blocks, st, it)
        return self.unroll(fr, h, blocks, st)

    def unroll(self, fr, h, blocks, st):
        outs = defaultdict(list)
        states = [st]
        for k in range(self.UNROLL):
            nxt = []
            r = self.region(fr, blocks, h, h, states)
            for t, ss in r.items():
                if t == 'back':
                    nxt += ss
                else:
                    outs[t] += ss
            if not nxt:
                return outs
            states = self.merge_states(fr, h, nxt)
        raise Unsupported(f'loop without a usable bound in {fr.body.name}')

    def loop_iter(self, fr, h, blocks, st):
        """Reference to the iterator driving a for loop, if there is one."""
        inner = set()
        for g in fr.body.loops:
            if g != h and g in blocks and fr.body.loops[g] < blocks:
                inner |= fr.body.loops[g]
        cand = []
        for b in sorted(blocks - inner, key=lambda x: fr.body.rpo[x]):
            t = fr.body.blocks[b]['t']
            if t[0] != 'call' or 'const' not in t[1]:
                continue
            T = self.prog.ty(t[1]['ty'])
            if T['k'] != 'fndef' or T['name'] != 'std::iter::Iterator::next':
                continue
            a = t[2][0]
            p = a.get('move') or a.get('copy')
            # chase reborrows backwards through the block (and the loop header)
            loc = p[0]
            for _ in range(6):
                src = None
                for bb in blocks:
                    for s in fr.body.blocks[bb]['s']:
                        if s[1] == '=' and s[2] == [loc, []]:
                            src = s[3]
                if src is None:
                    break
                if src[0] == 'ref':
                    pl = src[2]
                    loc = pl[0]
                    if not pl[1]:
                        break
                elif src[0] == 'use' and ('copy' in src[1] or 'move' in src[1]):
                    loc = (src[1].get('copy') or src[1].get('move'))[0]
                else:
                    break
            v = st.mem.get(fr.cells[loc])
            ref = VRef(fr.cells[loc])
            if isinstance(v, VRef):
                ref = v
                v = self.read(st, v)
            if hasattr(v, 'remaining'):
                cand.append(ref)
        return cand[0] if cand else None
