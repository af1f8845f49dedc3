"""C14: the reference tables, evaluated from the initialisers in the compiled code and checked completely."""
from ..vals import *
from ..engine import State
from ..specs import *
from ..reference import *
from .c15 import DecodeSpgOp, TRANS

INFO = {
    'level': 'proof',
    'note': 'The initialiser of every table is executed on its MIR and every entry is checked (finite domain, nothing sampled). '
            'Operations are read through the proved contract of decode_spg_op.',
    'bounded': [],
    'assumptions': [
        "The symbols are compared with a list copied from the crate's own table: those 230 obligations detect a changed symbol and do not show "
        'that the symbols are the standard ones. Independently of that list, only the crystal class a symbol names is compared with the operations.',
        'Classes by number, rotation types by class, Bravais types of the characters, centring multiplicities and holohedries were typed in from '
        'the International Tables and are trusted.',
        'A rhombohedral group may be filed under Rhombohedral or Hexagonal.',
    ],
}


def table(V, eng, name):
    ns = [n for n in V.prog.names() if n.endswith(f'::{name} as std::ops::Deref>::deref::__static_ref_initialize')]
    if len(ns) != 1:
        raise LostAnchor(name)
    body = V.prog.body(V.prog.by_name[ns[0]][0])
    rec, eng.record = eng.record, False
    try:
        s, v = eng.merge_results(eng.call_body(body, [], State()))
    finally:
        eng.record = rec
    return body, v


def operation(num):
    """Contract of decode_spg_op: rotation row by row, translation in twelfths."""
    rot, w = [], num % 3 ** 9
    for k in range(9):
        rot.append(w // 3 ** (8 - k) % 3 - 1)
    w = num // 3 ** 9
    return tuple(rot), tuple(TRANS[w // 8 ** (2 - k) % 8] for k in range(3))


def product(p, q):
    (r1, t1), (r2, t2) = p, q
    return mm(r1, r2), tuple((sum(r1[3 * i + j] * t2[j] for j in range(3)) + t1[i]) % 12 for i in range(3))


def spacegroups(V, eng, o):
    b1, sym = table(V, eng, 'SG_NUM_TO_SYMBOL')
    b2, tab = table(V, eng, 'SG_NUM_TO_FULL_MATRICES')

    def ob(b, name, ok):
        eng.oblige(State(), 'ensures', bool(ok), b.name, b.line, name=name)
    ob(b1, 'exactly the numbers 1 to 230 have a symbol', sorted(sym.d) == list(range(1, 231)))
    for n in range(1, 231):
        ob(b1, f'symbol of group {n} is unchanged (pinned)', n in sym.d and sym.d[n][1] == PINNED_SYMBOLS[n - 1])
    filed = {}
    for _, (sysv, by_order) in tab.d.items():
        T = eng.prog.ty(sysv.ty)
        sysn = T['variants'][conc(sysv.d)]['name']
        for order, (_, by_num) in by_order.d.items():
            lists = {}
            for n, (_, xs) in by_num.d.items():
                filed.setdefault(n, []).append((sysn, order, xs))
                lists.setdefault(frozenset(conc(x) for x in xs.xs), []).append(n)
            ob(b2, f'{sysn}, order {order}: no two groups have the same operations', all(len(v) == 1 for v in lists.values()))
    ob(b2, 'only the numbers 1 to 230 are filed', sorted(filed) == list(range(1, 231)))
    one, zero = IDENTITY, (0, 0, 0)
    for n in range(1, 231):
        e = filed.get(n, [])
        ob(b2, f'group {n} is filed once', len(e) == 1)
        if len(e) != 1:
            continue
        sysn, order, xs = e[0]
        ops = [operation(conc(x)) for x in xs.xs]
        S = set(ops)
        ob(b2, f'group {n} is filed under its lattice system', sysn == system_of(n) or (n in RHOMBOHEDRAL and sysn == 'Hexagonal'))
        ob(b2, f'group {n} is filed under the length of its list', len(ops) == order)
        ob(b2, f'group {n}: operations are distinct', len(S) == len(ops))
        ob(b2, f'group {n} contains the identity', (one, zero) in S)
        ob(b2, f'group {n} is closed modulo lattice translations', all(product(p, q) in S for p in ops for q in ops))
        ob(b2, f'group {n} contains inverses', all(any(product(p, q) == (one, zero) for q in ops) for p in ops))
        ob(b2, f'group {n}: rotations are those of its crystal class', types([p[0] for p in ops]) == CLASS_TYPES[class_of(n)])
        named = class_of_symbol(sym.d[n][1], n in TWO_ORIGINS) if n in sym.d else None
        ob(b2, f'group {n}: rotations are those of the class its symbol names', types([p[0] for p in ops]) == CLASS_TYPES.get(named))


def characters(V, eng, o):
    b1, brav = table(V, eng, 'LATTICE_CHAR_TO_BRAVAIS')
    b2, conv = table(V, eng, 'LATTICE_CHAR_TO_CONV_TRANS')
    b3, prim = table(V, eng, 'CENTERING_TO_PRIM_TRANS')
    b4, holo = table(V, eng, 'BRAVAIS_TO_HOLOHEDRY_NUM')

    def ob(b, name, ok):
        eng.oblige(State(), 'ensures', bool(ok), b.name, b.line, name=name)

    def vname(v):
        return eng.prog.ty(v.ty)['variants'][conc(v.d)]['name']
    ob(b1, 'exactly the characters 1 to 44 have a Bravais type', sorted(brav.d) == list(range(1, 45)))
    ob(b2, 'exactly the characters 1 to 44 have a conventional basis', sorted(conv.d) == list(range(1, 45)))
    seen = {}
    for n in range(1, 45):
        if n not in brav.d or n not in conv.d:
            continue
        v = brav.d[n][1]
        seen[vname(v)] = v
        ob(b1, f'Bravais type of character {n}', vname(v) == CHARACTERS[n - 1])
        ob(b2, f'determinant of the conventional basis of character {n}', conc(det3(conv.d[n][1])) == MULTIPLICITY[CHARACTERS[n - 1][1]])
    cents = {}
    for _, (k, m) in prim.d.items():
        c = vname(k)
        cents[c] = m
        den = conc(m.at(3, 3))
        d = det3(VMat(3, 3, [m.at(i, j) for j in range(3) for i in range(3)]))
        ob(b3, f'determinant of the primitive basis of centring {c}', den and Fraction(conc(d), den ** 3) == Fraction(1, MULTIPLICITY[c]))
        ob(b3, f'last row and column of the basis of centring {c}', all(conc(m.at(3, i)) == 0 and conc(m.at(i, 3)) == 0 for i in range(3)))
    ob(b3, 'every centring has a primitive basis', sorted(cents) == sorted(MULTIPLICITY))
    hol = {vname(k): conc(x) for k, x in holo.d.values()}
    ce, ls = V.find('BravaisType::centering'), V.find('BravaisType::lattice_system')
    rec = eng.record
    for w in sorted(set(CHARACTERS)):
        if w not in seen:
            ob(b1, f'Bravais type {w} is assigned', False)
            continue
        h = HOLOHEDRY[w if w[0] == 'h' else w[0]]
        ob(b4, f'holohedry of {w}', hol.get(w) == h)
        for b, want, what in ((ce, w[1], 'centring'), (ls, SYSTEMS[w if w[0] == 'h' else w[0]], 'lattice system')):
            st = State()
            _, r = eng.merge_results(eng.call_body(b, [VRef(eng.new_cell(st, seen[w]))], st))
            ob(b, f'{what} of {w}', vname(r) == want)


def build(V):
    V.spec(DecodeSpgOp())
    V.task('space-group tables', 'SG_NUM_TO_FULL_MATRICES', lambda eng, o: spacegroups(V, eng, o))
    V.task('lattice-character tables', 'LATTICE_CHAR_TO_BRAVAIS', lambda eng, o: characters(V, eng, o))
