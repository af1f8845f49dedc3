"""Reference data used by the contracts.

PINNED_SYMBOLS is a copy of the crate's own list, taken from src/data/spacegroup.rs: comparing with it detects a change of a
symbol and cannot detect a mistake the crate already had. Everything else was typed in from the International Tables and does
not come from the crate, except the numbering of POINT_GROUPS, which is the crate's convention.
"""
import re

PINNED_SYMBOLS = """
    P1 P-1 P121 P12_11 C121 P1m1 P1c1 C1m1 C1c1 P12/m1 P12_1/m1 C12/m1 P12/c1 P12_1/c1 C12/c1 P222 P222_1 P2_12_12 P2_12_121 C222_1
    C222 F222 I222 I2_12_121 Pmm2 Pmc2_1 Pcc2 Pma2 Pca2_1 Pnc2 Pmn2_1 Pba2 Pna2_1 Pnn2 Cmm2 Cmc2_1 Ccc2 Amm2 Aem2 Ama2 Aea2 Fmm2 Fdd2
    Imm2 Iba2 Ima2 Pmmm Pnnn1 Pccm Pban1 Pmma Pnna Pmna Pcca Pbam Pccn Pbcm Pnnm Pmmn1 Pbcn Pbca Pnma Cmcm Cmce Cmmm Cccm Cmme Ccce1
    Fmmm Fddd1 Immm Ibam Ibca Imma P4 P4_1 P4_2 P4_3 I4 I4_1 P-4 I-4 P4/m P4_2/m P4/n1 P4_2/n I4/m I4_1/a P422 P42_12 P4_122 P4_12_12
    P4_222 P4_22_12 P4_322 P4_32_12 I422 I4_122 P4mm P4bm P4_2cm P4_2nm P4cc P4nc P4_2mc P4_2bc I4mm I4cm I4_1md I4_1cd P-42m P-42c
    P-42_1m P-42_1c P-4m2 P-4c2 P-4b2 P-4n2 I-4m2 I-4c2 I-42m I-42d P4/mmm P4/mcc P4/nbm1 P4/nnc1 P4/mbm P4/mnc P4/nmm1 P4/ncc1
    P4_2/mmc P4_2/mcm P4_2/nbc P4_2/nnm P4_2/mbc P4_2/mnm P4_2/nmc P4_2/ncm I4/mmm I4/mcm I4_1/amd I4_1/acd P3 P3_1 P3_2 R3H P-3 R-3H
    P312 P321 P3_112 P3_121 P3_212 P3_221 R32 P3m1 P31m P3c1 P31c R3m R3c P-31m P-31c P-3m1 P-3c1 R-3m R-3c P6 P6_1 P6_5 P6_2 P6_4
    P6_3 P-6 P6/m P6_3/m P622 P6_122 P6_522 P6_222 P6_422 P6_322 P6mm P6cc P6_3cm P6_3mc P-6m2 P-6c2 P-62m P-62c P6/mmm P6/mcc
    P6_3/mcm P6_3/mmc P23 F23 I23 P2_13 I2_13 Pm-3 Pn-31 Fm-3 Fd-31 Im-3 Pa-3 Ia-3 P432 P4_232 F432 F4_132 I432 P4_332 P4_132 I4_132
    P-43m F-43m I-43m P-43n F-43c I-43d Pm-3m Pn-3n1 Pm-3n Pn-3m1 Fm-3m Fm-3c Fd-3m1 Fd-3c1 Im-3m Ia-3d
""".split()

# crystal classes by space-group number: (last number, class)
CLASS_RANGES = [
    (1, '1'), (2, '-1'), (5, '2'), (9, 'm'), (15, '2/m'), (24, '222'), (46, 'mm2'), (74, 'mmm'), (80, '4'), (82, '-4'), (88, '4/m'), (98, '422'),
    (110, '4mm'), (122, '-42m'), (142, '4/mmm'), (146, '3'), (148, '-3'), (155, '32'), (161, '3m'), (167, '-3m'), (173, '6'), (174, '-6'), (176, '6/m'),
    (182, '622'), (186, '6mm'), (190, '-6m2'), (194, '6/mmm'), (199, '23'), (206, 'm-3'), (214, '432'), (220, '-43m'), (230, 'm-3m')]

# numbers of rotations by type: (order of rotation or rotoinversion, proper) -> count
CLASS_TYPES = {
    '1': {1: 1}, '-1': {1: 1, -1: 1}, '2': {1: 1, 2: 1}, 'm': {1: 1, -2: 1}, '2/m': {1: 1, 2: 1, -1: 1, -2: 1}, '222': {1: 1, 2: 3},
    'mm2': {1: 1, 2: 1, -2: 2}, 'mmm': {1: 1, 2: 3, -1: 1, -2: 3}, '4': {1: 1, 2: 1, 4: 2}, '-4': {1: 1, 2: 1, -4: 2},
    '4/m': {1: 1, 2: 1, 4: 2, -1: 1, -2: 1, -4: 2}, '422': {1: 1, 2: 5, 4: 2}, '4mm': {1: 1, 2: 1, 4: 2, -2: 4}, '-42m': {1: 1, 2: 3, -4: 2, -2: 2},
    '4/mmm': {1: 1, 2: 5, 4: 2, -1: 1, -2: 5, -4: 2}, '3': {1: 1, 3: 2}, '-3': {1: 1, 3: 2, -1: 1, -3: 2}, '32': {1: 1, 3: 2, 2: 3},
    '3m': {1: 1, 3: 2, -2: 3}, '-3m': {1: 1, 3: 2, 2: 3, -1: 1, -3: 2, -2: 3}, '6': {1: 1, 2: 1, 3: 2, 6: 2}, '-6': {1: 1, 3: 2, -2: 1, -6: 2},
    '6/m': {1: 1, 2: 1, 3: 2, 6: 2, -1: 1, -2: 1, -3: 2, -6: 2}, '622': {1: 1, 2: 7, 3: 2, 6: 2}, '6mm': {1: 1, 2: 1, 3: 2, 6: 2, -2: 6},
    '-6m2': {1: 1, 3: 2, 2: 3, -2: 4, -6: 2}, '6/mmm': {1: 1, 2: 7, 3: 2, 6: 2, -1: 1, -2: 7, -3: 2, -6: 2}, '23': {1: 1, 2: 3, 3: 8},
    'm-3': {1: 1, 2: 3, 3: 8, -1: 1, -2: 3, -3: 8}, '432': {1: 1, 2: 9, 3: 8, 4: 6}, '-43m': {1: 1, 2: 3, 3: 8, -2: 6, -4: 6},
    'm-3m': {1: 1, 2: 9, 3: 8, 4: 6, -1: 1, -2: 9, -3: 8, -4: 6}}

# symbols of the point groups by the crate's number
POINT_GROUPS = ('1 -1 -3 -3m -4 -42m -43m -6 -6m2 2 2/m 222 23 3 32 3m 4 4/m 4/mmm 422 432 4mm 6 6/m 6/mmm 622 6mm m m-3 m-3m mm2 mmm').split()

# Bravais types of the 44 lattice characters (International Tables A, table 9.2.5.1)
CHARACTERS = ('cF hR cP hR cI tI tI oI hR mC tP hP oC mC tI oF mC tI oI mC tP hP oC hR mC oF mC mC mC mC aP oP mP mP mP oC mC oC mC oC mC oI mI aP').split()

MULTIPLICITY = {'P': 1, 'A': 2, 'B': 2, 'C': 2, 'I': 2, 'R': 3, 'F': 4}
HOLOHEDRY = {'a': 2, 'm': 11, 'o': 32, 't': 19, 'c': 30, 'hR': 4, 'hP': 25}
SYSTEMS = {'a': 'Triclinic', 'm': 'Monoclinic', 'o': 'Orthorhombic', 't': 'Tetragonal', 'c': 'Cubic', 'hR': 'Rhombohedral', 'hP': 'Hexagonal'}
RHOMBOHEDRAL = (146, 148, 155, 160, 161, 166, 167)


def system_of(num):
    if num in RHOMBOHEDRAL:
        return 'Rhombohedral'
    for hi, s in ((2, 'Triclinic'), (15, 'Monoclinic'), (74, 'Orthorhombic'), (142, 'Tetragonal'), (194, 'Hexagonal')):
        if num <= hi:
            return s
    return 'Cubic'


def class_of(num):
    return next(c for hi, c in CLASS_RANGES if num <= hi)


def class_of_symbol(sym, two_origins=False):
    """Crystal class named by a Hermann-Mauguin symbol: screw axes become axes, glide planes mirrors, the setting is dropped."""
    toks = re.findall(r'-?\d(?:_\d)?(?:/[a-z])?|[a-z]', sym[1:].replace('H', ''))
    if two_origins and toks[-1] == '1':
        toks.pop()
    toks = [re.sub(r'[a-z]', 'm', re.sub(r'_\d', '', t)) for t in toks]
    rest = [t for t in toks if t != '1']
    c = ''.join(rest) or '1'
    return {'-4m2': '-42m', '-62m': '-6m2', '2mm': 'mm2', 'm2m': 'mm2'}.get(c, c)


# groups with two origin choices, for which the crate's symbol may end in 1
TWO_ORIGINS = (48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228)


def mm(a, b):
    """Product of 3x3 integer matrices given row by row."""
    return tuple(a[3 * i] * b[j] + a[3 * i + 1] * b[3 + j] + a[3 * i + 2] * b[6 + j] for i in range(3) for j in range(3))


IDENTITY = (1, 0, 0, 0, 1, 0, 0, 0, 1)


def det(a):
    return (a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]))


def rot_type(a):
    """Order of the rotation, negative for rotoinversions; None if it is not crystallographic."""
    d = det(a)
    if d not in (1, -1):
        return None
    n = {3: 1, -1: 2, 0: 3, 1: 4, 2: 6}.get(d * (a[0] + a[4] + a[8]))
    return None if n is None else d * n


def types(rots):
    out = {}
    for r in rots:
        out[rot_type(r)] = out.get(rot_type(r), 0) + 1
    return out
