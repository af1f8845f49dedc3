"""Loader for the JSON produced by tools/mirdump (monomorphised MIR of the crate under check)."""
import json
import re
import struct
from fractions import Fraction
from .vals import *


class Body:
    def __init__(self, b):
        self.key, self.name, self.file, self.line = b['key'], b['def'], b.get('file'), b.get('line')
        self.nargs, self.locals, self.blocks, self.names = b['nargs'], b['locals'], b['blocks'], b['names']
        self._analyse()

    def argname(self, i):
        for n, p in self.names:
            if p == [i + 1, []]:
                return n
        return f'arg{i}'

    def succ(self, i):
        t = self.blocks[i]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    def _analyse(self):
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succ(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ(b):
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._isect(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        # a block where nothing but a panic can follow
        self.diverges = set()
        for b in reversed(order):
            t = self.blocks[b]['t']
            ss = self.succ(b)
            if t[0] == 'return':
                continue
            if not ss or (all(s in self.diverges for s in ss)):
                self.diverges.add(b)
        self.loops = {}
        for b in order:
            for s in self.succ(b):
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(preds[x])
        self.parent = {}
        for h in self.loops:
            best = None
            for g in self.loops:
                if g != h and h in self.loops[g]:
                    if best is None or len(self.loops[g]) < len(self.loops[best]):
                        best = g
            self.parent[h] = best
        self._liveness(order)

    def _isect(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def _liveness(self, order):
        """Locals live on entry to each block; address-taken locals count as live everywhere."""
        self.addr = set()

        def pl_use(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == 'index':
                    u.add(e[1])

        def op_use(o, u):
            if 'copy' in o:
                pl_use(o['copy'], u)
            elif 'move' in o:
                pl_use(o['move'], u)
        use, dfn = {}, {}
        for b in order:
            u, d = set(), set()

            def useset(s):
                u.update(s - d)
            bb = self.blocks[b]
            for st in bb['s']:
                k = st[1]
                if k == '=':
                    _, _, p, r = st
                    s = set()
                    self._rv_use(r, s, op_use, pl_use)
                    if p[1]:
                        pl_use(p, s)
                    useset(s)
                    if not p[1]:
                        d.add(p[0])
                elif k in ('dead', 'live'):
                    x = st[2]
                    d.add(x if isinstance(x, int) else x[0])
                elif k == 'setdiscr':
                    s = set()
                    pl_use(st[2], s)
                    useset(s)
            t = bb['t']
            s = set()
            if t[0] == 'switch':
                op_use(t[1], s)
            elif t[0] == 'call':
                op_use(t[1], s)
                for a in t[2]:
                    op_use(a, s)
                if t[3][1]:
                    pl_use(t[3], s)
            elif t[0] == 'assert':
                op_use(t[1], s)
            elif t[0] == 'return':
                s.add(0)
            useset(s)
            if t[0] == 'call' and not t[3][1]:
                d.add(t[3][0])
            use[b], dfn[b] = u, d
        live = {b: set() for b in order}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in self.succ(b):
                    out |= live[s]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.live = live

    def _rv_use(self, r, s, op_use, pl_use):
        k = r[0]
        if k == 'ref':
            p = r[2]
            if not any(e[0] == 'deref' for e in p[1]):
                self.addr.add(p[0])
            pl_use(p, s)
            return
        if k in ('discr', 'len'):
            pl_use(r[1], s)
            return
        for x in r[1:]:
            if isinstance(x, dict):
                op_use(x, s)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict):
                        op_use(y, s)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.allocs = d['types'], d['allocs']
        self.bodies, self.by_name = {}, {}
        self._raw = {}
        for b in d['bodies']:
            self._raw.setdefault(b['key'], b)
            self.by_name.setdefault(b['def'], []).append(b['key'])
        self._const_cells = {}

    def body(self, key):
        if key not in self.bodies:
            if key not in self._raw:
                return None
            self.bodies[key] = Body(self._raw[key])
        return self.bodies[key]

    def find(self, suffix):
        """Body of the unique function whose path ends in suffix; None when it is not there."""
        c = [n for n in self.by_name if n == suffix or n.endswith('::' + suffix)]
        c2 = [n for n in c if not n.startswith('generic:')] or c
        if not c2 and '::' in suffix and not suffix.startswith('<'):
            return self.find(suffix.split('::', 1)[1])      # moved to another module
        if len(c2) != 1:
            return None
        return self.body(self.by_name[c2[0]][0])

    def names(self):
        return self.by_name.keys()

    # types
    def ty(self, t):
        return self.types[t]

    def mat_dims(self, t):
        """(rows, cols, scalar type id) of a nalgebra matrix type, or None."""
        T = self.types[t]
        if T['k'] == 'adt' and T['name'] in ('nalgebra::Matrix', 'nalgebra::base::Matrix', 'nalgebra::base::matrix::Matrix'):
            m = re.match(r"nalgebra::Matrix<(.+?), nalgebra::Const<(\d+)>, nalgebra::Const<(\d+)>", T['s'])
            if m:
                return int(m.group(2)), int(m.group(3)), m.group(1)
        return None

    def int_range(self, t):
        T = self.types[t]
        if T['k'] == 'int':
            w = self._w(T)
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        if T['k'] == 'uint':
            return 0, (1 << self._w(T)) - 1
        return None

    def _w(self, T):
        return 8 * int(T['size'])


def f64_of(bs):
    x = struct.unpack('<d', bs)[0]
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('NaN or infinite constant')
    return Fraction(x)
