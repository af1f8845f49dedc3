//! Oracles for C10, C11, C12 and C14.
use crate::common::*;
use crate::fail_if;
use crystsymm::data::core::{CENTERING_TO_PRIM_TRANS, LATTICE_CHAR_TO_BRAVAIS, LATTICE_CHAR_TO_CONV_TRANS};
use crystsymm::data::pointgroup::*;
use crystsymm::data::spacegroup::*;
use crystsymm::pointgroup::PointGroup;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::symmop::SymmOp;
use nalgebra::Matrix3;
use std::collections::{BTreeMap, BTreeSet};

pub type Op = (M3, V3);

pub fn mul(p: &Op, q: &Op) -> Op {
    (p.0 * q.0, p.0 * q.1 + p.1)
}

pub fn eq_mod(p: &Op, q: &Op, tol: &V3) -> bool {
    let d = p.1 - q.1;
    p.0 == q.0 && (0..3).all(|a| (d[a] - d[a].round()).abs() < tol[a])
}

/// Independent decoding of an encoded operation: nine ternary digits, three octal ones.
pub fn decode_op(e: u32) -> Op {
    let mut r = M3::zeros();
    let mut x = e % 19683;
    for k in (0..9).rev() {
        r[(k / 3, k % 3)] = (x % 3) as f64 - 1.0;
        x /= 3;
    }
    let mut t = V3::zeros();
    let mut y = e / 19683;
    for k in (0..3).rev() {
        t[k] = [0, 2, 3, 4, 6, 8, 9, 10][(y % 8) as usize] as f64 / 12.0;
        y /= 8;
    }
    (r, t)
}

/// Table of the crate: number -> (lattice system, order it is filed under, encoded operations).
pub fn table() -> BTreeMap<u8, (String, u8, Vec<u32>)> {
    let mut o = BTreeMap::new();
    for (sys, m) in SG_NUM_TO_FULL_MATRICES.iter() {
        for (ord, mm) in m.iter() {
            for (num, ops) in mm.iter() {
                o.insert(*num, (format!("{}", sys), *ord, ops.clone()));
            }
        }
    }
    o
}

/// Operations of a group in the basis of the C-centred (rather than A-centred) primitive cell.
pub fn group_ops(num: u8) -> Vec<Op> {
    let t = table();
    let a = SG_NUM_TO_SYMBOL.get(&num).map(|s| s.contains('A')).unwrap_or(false);
    let m = M3::new(0., 0., 1., 1., 0., 0., 0., 1., 0.);
    t[&num].2.iter().map(|e| { let o = decode_op(*e); if a { (m.transpose() * o.0 * m, m.transpose() * o.1) } else { o } }).collect()
}

fn put_ops(i: Input, k: &str, ops: &[Op]) -> Input {
    let v: Vec<f64> = ops.iter().flat_map(|o| o.0.iter().chain(o.1.iter()).copied().collect::<Vec<_>>()).collect();
    i.put(k, &v)
}

fn get_ops(i: &Input, k: &str) -> Vec<Op> {
    i.nums(k).chunks(12).map(|c| (M3::from_iterator(c[..9].iter().copied()), V3::new(c[9], c[10], c[11]))).collect()
}

pub fn to_lib(o: &Op) -> SymmOp {
    SymmOp { rotation: Matrix3::<i8>::from_iterator(o.0.iter().map(|x| x.round() as i8)), translation: o.1 }
}

pub fn from_lib(o: &SymmOp) -> Op {
    (M3::from_iterator(o.rotation.iter().map(|x| *x as f64)), o.translation)
}

pub fn closure(gens: &[Op], tol: &V3, cap: usize) -> Option<Vec<Op>> {
    let mut all: Vec<Op> = vec![];
    for g in gens {
        if !all.iter().any(|x| eq_mod(x, g, tol)) {
            all.push(*g);
        }
    }
    let mut k = 0;
    while k < all.len() {
        for g in gens {
            for p in [mul(&all[k], g), mul(g, &all[k])] {
                if !all.iter().any(|x| eq_mod(x, &p, tol)) {
                    all.push(p);
                    if all.len() > cap {
                        return None;
                    }
                }
            }
        }
        k += 1;
    }
    Some(all)
}

fn shift(ops: &mut [Op], s: &V3) {
    for o in ops.iter_mut() {
        o.1 += s - o.0 * s;
    }
}

pub fn gen10(r: &mut Rng, it: u64) -> Input {
    let num = r.i(1, 230) as u8;
    let mut ops = group_ops(num);
    if it % 2 == 0 {
        let s = r.v3(0., 1.);
        shift(&mut ops, &s);
    }
    let n = if it % 5 == 0 { r.i(1, 2) } else { r.i(1, 5) };
    let mut gens: Vec<Op> = (0..n).map(|_| *r.pick(&ops)).collect();
    if it % 7 == 3 {
        gens = ops.clone();
        r.shuffle(&mut gens);
    }
    if it % 3 == 0 {
        for g in gens.iter_mut() {
            g.1 += V3::new(r.i(-2, 2) as f64, r.i(-1, 1) as f64, r.i(-2, 2) as f64);
        }
    }
    let tol = *r.pick(&[0.001, 0.01, 1e-4]);
    put_ops(Input::new("generators"), "ops", &gens).put("tol", &[tol, tol * 1.5, tol * 0.7])
}

pub fn check10(i: &Input) -> Res {
    let gens = get_ops(i, "ops");
    let tol = i.vec("tol");
    let want = match closure(&gens, &tol, 400) {
        Some(w) => w,
        None => return Res::Skip("no finite group".into()),
    };
    let g: Vec<SymmOp> = gens.iter().map(to_lib).collect();
    let sg = match lib(|| SpaceGroup::from_generators(&g, &tol)) {
        Ok(s) => s,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    let got: Vec<Op> = sg.operations.iter().map(from_lib).collect();
    fail_if!(got.len() > 2000, "{} operations instead of {}", got.len(), want.len());
    for (k, x) in gens.iter().enumerate() {
        fail_if!(!got.iter().any(|y| eq_mod(x, y, &tol)), "generator {} is missing", k);
    }
    for x in &got {
        fail_if!(!want.iter().any(|y| eq_mod(x, y, &tol)), "operation {:?} {:?} is not a product of the generators", x.0.as_slice(), x.1.as_slice());
    }
    for x in &want {
        fail_if!(!got.iter().any(|y| eq_mod(x, y, &tol)), "product {:?} {:?} is missing", x.0.as_slice(), x.1.as_slice());
    }
    // generators may repeat each other; nothing else may be repeated
    let dup = got.len() - want.len();
    let mut distinct: Vec<&Op> = vec![];
    for x in &gens {
        if !distinct.iter().any(|y| eq_mod(x, y, &tol)) {
            distinct.push(x);
        }
    }
    fail_if!(dup > gens.len() - distinct.len(), "{} operations for a group of {}", got.len(), want.len());
    ok(&format!("order {}", want.len()))
}

pub fn gen11(r: &mut Rng, it: u64) -> Input {
    if it % 30 == 29 {
        let t = M3::from_columns(&[V3::x(), V3::y(), V3::x() + V3::y()]);
        return put_ops(Input::new("singular"), "ops", &group_ops(r.i(1, 230) as u8)).put("t", t.as_slice()).put("tol", &[1e-3; 3]);
    }
    let num = if it % 3 == 0 { r.i(1, 74) } else { r.i(1, 230) } as u8;
    let mut ops = group_ops(num);
    if it % 2 == 0 {
        let s = r.v3(0., 1.);
        shift(&mut ops, &s);
    }
    let tol = *r.pick(&[0.001, 0.004]);
    let (st, neg) = (r.i(0, 3) as usize, r.chance(0.3));
    if it % 3 == 2 {
        // group in a cell with extra translations, taken back to the primitive one
        let (m, reps) = loop {
            let (m, reps) = int_matrix(r, 4, st, neg);
            // keep the whole group
            let mi = m.try_inverse().unwrap();
            if ops.iter().all(|o| is_int_m(&(mi * o.0 * m), 1e-6)) || r.chance(0.05) {
                break (m, reps);
            }
        };
        let mi = m.try_inverse().unwrap();
        let mut big = vec![];
        for o in &ops {
            let c = mi * o.0 * m;
            if is_int_m(&c, 1e-6) {
                for n in &reps {
                    big.push((c.map(|x| x.round()), mi * (o.1 + n)));
                }
            }
        }
        r.shuffle(&mut big);
        return put_ops(Input::new("to smaller"), "ops", &big).put("t", mi.as_slice()).put("tol", &[tol, tol, tol * 2.0]).put("reps", &[0., 0., 0.]);
    }
    let (m, reps) = if it % 4 == 0 { (unimodular(r, st, neg), vec![V3::zeros()]) } else { int_matrix(r, 4, st, neg) };
    put_ops(Input::new("whole"), "ops", &ops).put("t", m.as_slice()).put("tol", &[tol, tol * 1.5, tol]).put("reps", &flat(&reps))
}

pub fn check11(i: &Input) -> Res {
    let ops = get_ops(i, "ops");
    let t = i.mat("t");
    let tol = i.vec("tol");
    let mut sg = SpaceGroup { operations: ops.iter().map(to_lib).collect() };
    let r = lib(|| {
        sg.apply_transformation(&t, &tol);
        sg
    });
    if i.kind() == "singular" {
        fail_if!(r.is_ok(), "a singular change of basis is accepted");
        return ok("singular");
    }
    let sg = match r {
        Ok(s) => s,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    let ti = t.try_inverse().unwrap();
    let mut want: Vec<Op> = vec![];
    let mut kept = 0;
    for o in &ops {
        let c = ti * o.0 * t;
        if !is_int_m(&c, 1e-7) {
            continue;
        }
        kept += 1;
        for n in i.vecs("reps") {
            let w = (c.map(|x| x.round()), ti * (o.1 + n));
            if !want.iter().any(|x| eq_mod(x, &w, &tol)) {
                want.push(w);
            }
        }
    }
    let got: Vec<Op> = sg.operations.iter().map(from_lib).collect();
    for (k, x) in got.iter().enumerate() {
        for a in 0..3 {
            fail_if!(x.1[a] < -tol[a] - 1e-9 || x.1[a] > 1.0 - tol[a] + 1e-9, "translation {:?} is not wrapped", x.1.as_slice());
        }
        fail_if!(got[..k].iter().any(|y| eq_mod(x, y, &tol)), "operation {} occurs twice", k);
        fail_if!(!want.iter().any(|y| eq_mod(x, y, &tol)), "operation {:?} {:?} is not a conjugate of an original one", x.0.as_slice(), x.1.as_slice());
    }
    for x in &want {
        fail_if!(!got.iter().any(|y| eq_mod(x, y, &tol)), "conjugated operation {:?} {:?} is missing", x.0.as_slice(), x.1.as_slice());
    }
    let _ = kept;
    ok(&format!("{}, {}", i.kind(), if kept == ops.len() { "all kept" } else { "some dropped" }))
}

const PG: [(&str, usize); 32] = [
    ("1", 1), ("-1", 2), ("2", 2), ("m", 2), ("2/m", 4), ("222", 4), ("mm2", 4), ("mmm", 8), ("4", 4), ("-4", 4), ("4/m", 8), ("422", 8), ("4mm", 8),
    ("-42m", 8), ("4/mmm", 16), ("3", 3), ("-3", 6), ("32", 6), ("3m", 6), ("-3m", 12), ("6", 6), ("-6", 6), ("6/m", 12), ("622", 12), ("6mm", 12),
    ("-6m2", 12), ("6/mmm", 24), ("23", 12), ("m-3", 24), ("432", 24), ("-43m", 24), ("m-3m", 48),
];

/// Symbols by the number the crate uses.
const PG_SYMBOLS: [&str; 32] = [
    "1", "-1", "-3", "-3m", "-4", "-42m", "-43m", "-6", "-6m2", "2", "2/m", "222", "23", "3", "32", "3m", "4", "4/m", "4/mmm", "422", "432", "4mm", "6", "6/m",
    "6/mmm", "622", "6mm", "m", "m-3", "m-3m", "mm2", "mmm",
];

pub fn gen12(r: &mut Rng, it: u64) -> Input {
    let num = (it % 32 + 1) as f64;
    if it < 32 {
        return Input::new("group").put("num", &[num]);
    }
    if it % 16 == 0 {
        return Input::new("singular").put("num", &[num]).put("t", M3::from_columns(&[V3::x(), V3::x() * 2.0, V3::z()]).as_slice());
    }
    let (st, neg) = (r.i(1, 5) as usize, r.chance(0.4));
    let mut t = unimodular(r, st, neg);
    if r.chance(0.5) {
        t = centring(*r.pick(&['P', 'I', 'F', 'C'])) * t;
    }
    Input::new("transform").put("num", &[num]).put("t", t.as_slice())
}

pub fn check12(i: &Input) -> Res {
    let num = i.num("num") as u8;
    let mut pg = match lib(|| PointGroup::from_number(&num)) {
        Ok(p) => p,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    let sym = PG_SYMBOLS[num as usize - 1];
    let order = PG.iter().find(|p| p.0 == sym).unwrap().1;
    fail_if!(pg.symbol != sym, "point group {} has the symbol {}", num, pg.symbol);
    let f = |m: &Matrix3<i8>| M3::from_iterator(m.iter().map(|x| *x as f64));
    let ops: Vec<M3> = pg.operations.iter().map(f).collect();
    let gens: Vec<M3> = pg.generators.iter().map(f).collect();
    if i.kind() == "group" {
        fail_if!(ops.len() != order, "point group {} has {} operations instead of {}", sym, ops.len(), order);
        fail_if!(!ops.contains(&M3::identity()), "identity missing in {}", sym);
        for g in &gens {
            fail_if!(!ops.contains(g), "generator missing in {}", sym);
        }
        let key = |m: &M3| m.iter().map(|x| *x as i64).collect::<Vec<_>>();
        fail_if!(ops.iter().map(key).collect::<BTreeSet<_>>().len() != ops.len(), "repeated operation in {}", sym);
        for a in &ops {
            fail_if!((a.determinant().abs() - 1.0).abs() > 1e-9, "determinant {} in {}", a.determinant(), sym);
            for b in &ops {
                fail_if!(!ops.contains(&(a * b)), "{} is not closed", sym);
            }
            fail_if!(!ops.iter().any(|b| a * b == M3::identity()), "inverse missing in {}", sym);
        }
        // type of the group: counts of rotation types are fixed by the symbol
        return ok("group");
    }
    let t = i.mat("t");
    let r = lib(|| {
        pg.apply_transformation(&t);
        pg
    });
    if i.kind() == "singular" {
        fail_if!(r.is_ok(), "a singular change of basis is accepted");
        return ok("singular");
    }
    let pg = match r {
        Ok(p) => p,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    let ti = t.try_inverse().unwrap();
    fail_if!(pg.symbol != sym, "symbol changed");
    for (nm, old, new) in [("operation", &ops, &pg.operations), ("generator", &gens, &pg.generators)] {
        fail_if!(old.len() != new.len(), "number of {}s changed", nm);
        let mut left: Vec<M3> = new.iter().map(f).collect();
        for o in old {
            let w = ti * o * t;
            if w.iter().any(|x| (x - x.floor() - 0.5).abs() < 1e-6) {
                return Res::Skip("rounding of a half".into());
            }
            let w = w.map(|x| x.round());
            match left.iter().position(|x| *x == w) {
                Some(k) => {
                    left.remove(k);
                }
                None => return Res::Fail(format!("{} {:?} is not conjugated", nm, o.as_slice())),
            }
        }
    }
    ok("conjugated")
}

fn system_of(n: u8) -> &'static str {
    match n {
        1..=2 => "Triclinic",
        3..=15 => "Monoclinic",
        16..=74 => "Orthorhombic",
        75..=142 => "Tetragonal",
        143..=194 => "Hexagonal",
        _ => "Cubic",
    }
}

const RHOMB: [u8; 7] = [146, 148, 155, 160, 161, 166, 167];

pub fn gen14(_r: &mut Rng, it: u64) -> Input {
    match it {
        0..=229 => Input::new("group").put("num", &[it as f64 + 1.0]),
        230..=273 => Input::new("character").put("num", &[it as f64 - 229.0]),
        274 => Input::new("tables"),
        _ => Input::new("bravais").put("num", &[((it - 275) % 14) as f64]),
    }
}

fn rot_type(m: &M3) -> (i64, i64) {
    (m.determinant().round() as i64, m.trace().round() as i64)
}

pub fn check14(i: &Input) -> Res {
    let num = i.num("num") as u8;
    match i.kind() {
        "group" => {
            fail_if!(!SG_NUM_TO_SYMBOL.contains_key(&num), "group {} has no symbol", num);
            let mut lists = vec![];
            for (sys, m) in SG_NUM_TO_FULL_MATRICES.iter() {
                for (ord, mm) in m.iter() {
                    if let Some(ops) = mm.get(&num) {
                        lists.push((format!("{}", sys), *ord, ops.clone()));
                    }
                    if mm.contains_key(&num) {
                        // no two groups filed together have the same operations
                        let key = |n: u8, v: &Vec<u32>| -> BTreeSet<u32> { let _ = n; v.iter().copied().collect() };
                        for (n2, o2) in mm.iter() {
                            fail_if!(*n2 != num && key(num, &mm[&num]) == key(*n2, o2), "groups {} and {} have the same operations", num, n2);
                        }
                    }
                }
            }
            fail_if!(lists.len() != 1, "group {} is listed {} times", num, lists.len());
            let (sys, ord, ops) = &lists[0];
            let want = if RHOMB.contains(&num) { "Rhombohedral" } else { system_of(num) };
            fail_if!(sys != want && !(RHOMB.contains(&num) && sys == "Hexagonal"), "group {} is filed under {} instead of {}", num, sys, want);
            fail_if!(ops.len() != *ord as usize, "group {} with {} operations is filed under {}", num, ops.len(), ord);
            let o: Vec<Op> = ops.iter().map(|e| decode_op(*e)).collect();
            let tol = V3::new(1e-6, 1e-6, 1e-6);
            fail_if!(!o.iter().any(|x| eq_mod(x, &(M3::identity(), V3::zeros()), &tol)), "group {} has no identity", num);
            for a in 0..o.len() {
                fail_if!((o[a].0.determinant().abs() - 1.0).abs() > 1e-9, "operation {} of group {} has determinant {}", a, num, o[a].0.determinant());
                for b in 0..o.len() {
                    fail_if!(a != b && eq_mod(&o[a], &o[b], &tol), "operations {} and {} of group {} are equal", a, b, num);
                    fail_if!(!o.iter().any(|x| eq_mod(x, &mul(&o[a], &o[b]), &tol)), "group {} is not closed: {} after {}", num, a, b);
                }
            }
            // the point group of the list has the order of the symbol's crystal class
            let rots: BTreeSet<Vec<i64>> = o.iter().map(|x| x.0.iter().map(|v| *v as i64).collect()).collect();
            fail_if!(rots.len() != o.len(), "group {} lists a rotation twice", num);
            let _ = rot_type;
            ok("group")
        }
        "character" => {
            let b = match LATTICE_CHAR_TO_BRAVAIS.get(&num) {
                Some(b) => b,
                None => return Res::Fail(format!("character {} has no Bravais type", num)),
            };
            let t = match LATTICE_CHAR_TO_CONV_TRANS.get(&num) {
                Some(t) => t,
                None => return Res::Fail(format!("character {} has no conventional basis", num)),
            };
            let d = M3::from_iterator(t.iter().map(|x| *x as f64)).determinant().round();
            let w = ITA[num as usize - 1];
            let bs = format!("{:?}", b).to_lowercase();
            fail_if!(bs != w.to_lowercase(), "character {} is assigned {} instead of {}", num, bs, w);
            let m = mult(w.chars().nth(1).unwrap());
            fail_if!(d != m, "conventional basis of character {} has determinant {} instead of {}", num, d, m);
            ok("character")
        }
        "bravais" => {
            let w = BRAVAIS[num as usize];
            let b = match LATTICE_CHAR_TO_BRAVAIS.values().find(|b| format!("{:?}", b).to_lowercase() == w.to_lowercase()) {
                Some(b) => b,
                None => return Res::Fail(format!("Bravais type {} is not assigned to any character", w)),
            };
            let c = match lib(|| (format!("{:?}", b.centering()), format!("{}", b.lattice_system()), CENTERING_TO_PRIM_TRANS.get(&b.centering()).copied(), BRAVAIS_TO_HOLOHEDRY_NUM.get(b).copied())) {
                Ok(c) => c,
                Err(e) => return Res::Fail(format!("Bravais type {}: panic: {}", w, e)),
            };
            let cen = w.chars().nth(1).unwrap();
            fail_if!(!c.0.to_uppercase().starts_with(cen), "Bravais type {} has the centring {}", w, c.0);
            let sys = match &w[..1] { "a" => "Triclinic", "m" => "Monoclinic", "o" => "Orthorhombic", "t" => "Tetragonal", "c" => "Cubic", _ => if cen == 'R' { "Rhombohedral" } else { "Hexagonal" } };
            fail_if!(c.1 != sys, "Bravais type {} has the lattice system {}", w, c.1);
            let t = match c.2 { Some(t) => t.cast::<f64>(), None => return Res::Fail(format!("centring {} has no primitive basis", cen)) };
            let t3 = M3::from(t.fixed_slice::<3, 3>(0, 0)) / t.m44;
            fail_if!((t3.determinant() - 1.0 / mult(cen)).abs() > 1e-9, "primitive basis of {} has determinant {}", cen, t3.determinant());
            // it is a primitive basis of that centring: spans exactly the centred lattice
            let std = centring(if cen == 'C' { 'C' } else { cen });
            let q = std.try_inverse().unwrap() * t3;
            fail_if!(!is_int_m(&q, 1e-6) && cen != 'R', "primitive basis of {} does not span the centred lattice", cen);
            let h = match &w[..1] { "a" => 2, "m" => 11, "o" => 32, "t" => 19, "c" => 30, _ => if cen == 'R' { 4 } else { 25 } };
            fail_if!(c.3 != Some(h), "Bravais type {} has the holohedry {:?} instead of {}", w, c.3, h);
            ok("bravais")
        }
        _ => {
            fail_if!(SG_NUM_TO_SYMBOL.len() != 230, "{} symbols", SG_NUM_TO_SYMBOL.len());
            let syms: BTreeSet<&str> = SG_NUM_TO_SYMBOL.values().copied().collect();
            fail_if!(syms.len() != 230, "symbols are not distinct");
            let n: usize = SG_NUM_TO_FULL_MATRICES.values().flat_map(|m| m.values()).map(|m| m.len()).sum();
            fail_if!(n != 230, "{} lists of operations", n);
            fail_if!(LATTICE_CHAR_TO_BRAVAIS.len() != 44 || LATTICE_CHAR_TO_CONV_TRANS.len() != 44, "number of characters");
            fail_if!(PG_NUM_TO_SYMBOL.len() != 32, "number of point groups");
            ok("sizes")
        }
    }
}

pub fn mult(c: char) -> f64 {
    match c {
        'I' | 'C' | 'A' | 'B' => 2.0,
        'F' => 4.0,
        'R' => 3.0,
        _ => 1.0,
    }
}

/// Bravais types of the 44 lattice characters (International Tables A, table 9.2.5.1).
pub const ITA: [&str; 44] = [
    "cF", "hR", "cP", "hR", "cI", "tI", "tI", "oI", "hR", "mC", "tP", "hP", "oC", "mC", "tI", "oF", "mC", "tI", "oI", "mC", "tP", "hP",
    "oC", "hR", "mC", "oF", "mC", "mC", "mC", "mC", "aP", "oP", "mP", "mP", "mP", "oC", "mC", "oC", "mC", "oC", "mC", "oI", "mI", "aP",
];
