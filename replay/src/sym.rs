//! Oracles for C13, C16, C19 and C20.
use crate::cells::{consistent, same_crystal, structure};
use crate::common::*;
use crate::fail_if;
use crate::groups::{eq_mod, from_lib, group_ops, mul, mult, table, Op};
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::data::spacegroup::SG_NUM_TO_SYMBOL;

/// Groups whose standard crystal is identified or not depending on rounding (known finding of C16).
pub const UNIDENTIFIED: [u8; 31] = [
    80, 88, 91, 95, 98, 109, 110, 122, 141, 142, 151, 152, 153, 154, 178, 179, 180, 181, 198, 199, 203, 205, 206, 210, 212, 213, 214, 220, 227, 228, 230,
];

fn system_cell(r: &mut Rng, sys: &str, fixed: bool) -> M3 {
    if fixed {
        return match sys {
            "Triclinic" => cell(10., 12.2, 14.6, 82., 75., 99.),
            "Monoclinic" => cell(10., 12.2, 14.6, 90., 104., 90.),
            "Orthorhombic" => cell(10., 12.2, 14.6, 90., 90., 90.),
            "Tetragonal" => cell(10., 10., 14.6, 90., 90., 90.),
            "Cubic" => cell(20., 20., 20., 90., 90., 90.),
            _ => cell(10., 10., 18.6, 90., 90., 120.),
        };
    }
    let t = match sys {
        "Triclinic" => "aP",
        "Monoclinic" => "mP",
        "Orthorhombic" => "oP",
        "Tetragonal" => "tP",
        "Cubic" => "cP",
        _ => "hP",
    };
    bravais_cell(r, t)
}

/// Crystal of a tabulated group in its standard setting (primitive basis), general positions only.
pub fn group_crystal(r: &mut Rng, num: u8, fixed: bool) -> Option<Crystal> {
    let t = table();
    let sys = t.get(&num)?.0.clone();
    let sym = SG_NUM_TO_SYMBOL.get(&num)?;
    let c = sym.chars().next()?;
    let c = if c == 'A' { 'C' } else { c };
    let l = system_cell(r, &sys, fixed) * prim(c);
    let ops = group_ops(num);
    for _ in 0..50 {
        let pts = if fixed { vec![V3::new(0.1234, 0.2713, 0.3391), V3::new(0.0417, 0.1519, 0.4273)] } else { vec![r.v3(0., 1.), r.v3(0., 1.)] };
        let mut k = Crystal { l, sp: vec![], f: vec![] };
        // one orbit of a holohedral group of order 48 has no further point symmetry
        for (e, x) in pts.iter().enumerate().take(if ops.len() >= 48 { 1 } else { 2 }) {
            for o in &ops {
                k.sp.push(["A", "B"][e].to_string());
                k.f.push(o.0 * x + o.1);
            }
        }
        if fixed || min_separation(&k.l, &k.f) > 0.3 {
            return Some(k);
        }
    }
    None
}

/// Conventional to primitive basis in the setting of the tabulated operations.
pub fn prim(c: char) -> M3 {
    match c {
        'C' => M3::new(1., 1., 0., -1., 1., 0., 0., 0., 2.) / 2.0,
        'A' => M3::new(2., 0., 0., 0., 1., -1., 0., 1., 1.) / 2.0,
        'I' => M3::new(-1., 1., 1., 1., -1., 1., 1., 1., -1.) / 2.0,
        'F' => M3::new(0., 1., 1., 1., 0., 1., 1., 1., 0.) / 2.0,
        'R' => M3::new(2., -1., -1., 1., 1., -2., 1., 1., 1.) / 3.0,
        _ => M3::identity(),
    }
}

/// Highly symmetric crystals: atoms on the points of a Bravais lattice and at special positions.
fn special_crystal(r: &mut Rng) -> Crystal {
    let t = *r.pick(&BRAVAIS);
    let l = bravais_cell(r, t) * centring(t.chars().nth(1).unwrap());
    let mut c = Crystal { l, sp: vec!["Na".into()], f: vec![V3::zeros()] };
    let h = [V3::new(0.5, 0.5, 0.5), V3::new(0.5, 0., 0.), V3::new(0.25, 0.25, 0.25), V3::new(0., 0.5, 0.5), V3::new(0.5, 0.5, 0.)];
    for _ in 0..r.i(0, 2) {
        let x = *r.pick(&h);
        let mut d = c.clone();
        d.f.push(x);
        d.sp.push(NAMES[r.i(0, 2) as usize].to_string());
        if min_separation(&d.l, &d.f) > 0.6 {
            c = d;
        }
    }
    c
}

fn presented(r: &mut Rng, p: &Crystal, k: u64, max: i64) -> Crystal {
    let mut p2 = p.clone();
    if k % 2 == 1 {
        let rot = rand_rotation(r);
        p2.l = rot * p2.l;
    }
    let (neg, st) = (r.chance(0.4), r.i(0, 4) as usize);
    let (m, reps) = if k % 3 == 0 || max < 2 { (unimodular(r, st, neg), vec![V3::zeros()]) } else { int_matrix(r, max, st, neg) };
    let mut c = supercell(&p2, &m, &reps);
    scramble(r, &mut c, k % 4 < 2);
    c
}

/// Some crystal in some cell of it.
pub fn any_crystal(r: &mut Rng, k: u64) -> Crystal {
    let i = gen19(r, k * 3 + k % 4);
    Crystal::get(&i)
}

fn with_prim(i: Input, p: &Crystal) -> Input {
    i.put("p", p.l.as_slice()).put("pfrac", &flat(&p.f)).puts("psp", &p.sp)
}

fn get_prim(i: &Input) -> Crystal {
    Crystal { l: i.mat("p"), sp: i.strs("psp"), f: i.vecs("pfrac") }
}

// ---------------------------------------------------------------------------------------------------- C13

pub fn gen13(r: &mut Rng, it: u64) -> Input {
    let l = loop {
        let l = if it % 9 == 4 {
            // metrics of the grid with entries moved by about the classification tolerance
            let d = [16.0, 16.0, 16.0, 24.0];
            let (a, b, c) = (*r.pick(&d), *r.pick(&d), *r.pick(&d));
            let h = [0.0, 8.0, -8.0, 4.0, -4.0, 16.0 / 3.0, -16.0 / 3.0, 12.0];
            let (f, e, dd) = (*r.pick(&h), *r.pick(&h), *r.pick(&h));
            let eps = 1e-5 * match from_metric(&M3::new(a, f, e, f, b, dd, e, dd, c)) {
                Some(l) => l.determinant().abs().powf(1.0 / 3.0),
                None => continue,
            };
            let mut w = |x: f64| if r.chance(0.7) { x + eps * r.f(-1.3, 1.3) } else { x };
            let (a, b, c, f, e, dd) = (w(a), w(b), w(c), w(f), w(e), w(dd));
            match from_metric(&M3::new(a, f, e, f, b, dd, e, dd, c)) {
                Some(l) => l,
                None => continue,
            }
        } else if it % 3 == 0 {
            let t = BRAVAIS[(it / 3 % 14) as usize];
            bravais_cell(r, t) * centring(t.chars().nth(1).unwrap())
        } else if it % 3 == 1 {
            // metrics of a small grid: most of the 44 characters and their boundaries
            let d = [16.0, 16.0, 20.0, 24.0, 32.0];
            let (a, b, c) = (*r.pick(&d), *r.pick(&d), *r.pick(&d));
            let h = [0.0, 4.0, -4.0, 6.0, -6.0, 8.0, -8.0, 10.0, -10.0, 5.0, -5.0, 2.0, -2.0, 12.0, 16.0 / 3.0, -16.0 / 3.0];
            let (f, e, dd) = (*r.pick(&h), *r.pick(&h), *r.pick(&h));
            match from_metric(&M3::new(a, f, e, f, b, dd, e, dd, c)) {
                Some(l) => l,
                None => continue,
            }
        } else {
            special_lattice_any(r, it)
        };
        if l.determinant().abs() > 4.0 && l.iter().all(|x| x.is_finite()) {
            break l;
        }
    };
    let (st, neg) = (r.i(0, 5) as usize, r.chance(0.3));
    let m = unimodular(r, st, neg);
    let rot = if r.chance(0.5) { rand_rotation(r) } else { M3::identity() };
    let kind = if it % 9 == 4 { "edge" } else { "lattice" };
    let (rot, m) = if it % 9 == 4 { (M3::identity(), M3::identity()) } else { (rot, m) };
    Input::new(kind).put("l", (rot * l * m).as_slice()).put("dtol", &[0.01])
}

fn special_lattice_any(r: &mut Rng, it: u64) -> M3 {
    crate::cells::special_lattice(r, it / 3)
}

/// The shape of a conventional cell `gm` (metric) for a lattice system, and the centrings that system has.
fn cell_shape(gm: &M3, sys: &str) -> (bool, &'static str) {
    let (a, bb, cc) = (gm[(0, 0)], gm[(1, 1)], gm[(2, 2)]);
    let (bc, ac, ab) = (gm[(1, 2)], gm[(0, 2)], gm[(0, 1)]);
    let z = |x: f64| x.abs() < 1e-3 * gm.norm();
    match sys {
        "Triclinic" => (true, "P"),
        "Monoclinic" => (z(bc) && z(ab), "PCI"),
        "Orthorhombic" => (z(bc) && z(ab) && z(ac), "PCFI"),
        "Tetragonal" => (z(bc) && z(ab) && z(ac) && z(a - bb), "PI"),
        "Rhombohedral" => (z(bc) && z(ac) && z(a - bb) && z(ab + a / 2.0), "R"),
        "Hexagonal" => (z(bc) && z(ac) && z(a - bb) && z(ab + a / 2.0), "P"),
        _ => (z(bc) && z(ab) && z(ac) && z(a - bb) && z(a - cc), "PIF"),
    }
}

/// Name of the lattice system with this number of symmetries of the metric.
fn system_of(n: usize) -> Option<&'static str> {
    Some(match n { 2 => "Triclinic", 4 => "Monoclinic", 8 => "Orthorhombic", 16 => "Tetragonal", 12 => "Rhombohedral", 24 => "Hexagonal", 48 => "Cubic", _ => return None })
}

/// What is wrong with `conv` as the conventional cell of the lattice `l` of this system, or its centring.
fn conventional_fault(l: &M3, conv: &M3, sys: &str) -> Result<char, String> {
    let q = l.try_inverse().unwrap() * conv;
    let ratio = q.determinant().abs().round();
    let gm = conv.transpose() * conv;
    let (ok_shape, cens) = cell_shape(&gm, sys);
    if !ok_shape {
        return Err(format!("{} lattice gets the conventional cell with metric {:?}", sys, gm.as_slice()));
    }
    // a centring of the conventional cell that spans exactly the lattice
    let cen: Vec<char> = cens.chars().filter(|c| { let w = q * prim(*c); is_int_m(&w, 1e-5) && (w.determinant().abs() - 1.0).abs() < 1e-5 }).collect();
    if cen.is_empty() {
        return Err(format!("{} lattice: conventional cell of {} lattice points has none of the centrings {}", sys, ratio, cens));
    }
    if mult(cen[0]) != ratio {
        return Err(format!("{} lattice: volume ratio {} for centring {}", sys, ratio, cen[0]));
    }
    Ok(cen[0])
}

pub fn check13(i: &Input) -> Res {
    let l = i.mat("l");
    let c = Crystal { l, sp: vec!["Na".into()], f: vec![V3::new(0.1, 0.2, 0.3)] };
    // lattice system by counting the metric's symmetries
    let b = l * short_basis(&l);
    let g = b.transpose() * b;
    let (n1, n2) = (metric_ops(&g, 1e-7 * g.norm()).len(), metric_ops(&g, 3e-3 * g.norm().sqrt() + 2e-3).len());
    let edge = i.kind() == "edge";
    if n1 != n2 && !edge {
        return Res::Skip("lattice close to a more symmetric one".into());
    }
    let sys = match system_of(n1) {
        _ if edge => "Near-symmetric",
        Some(s) => s,
        None => return Res::Skip("unclear lattice symmetry".into()),
    };
    let sa = SymmetryAnalyzer { dtol: i.num("dtol"), atol: 5.0 };
    let s = match lib(|| sa.get_standard_conventional_structure(&structure(&c))) {
        Ok(s) => s,
        Err(e) if e.contains("iggli") => return Res::Skip(format!("reduction reports failure: {}", e)),
        Err(e) => return Res::Fail(format!("{} lattice: panic: {}", sys, e)),
    };
    let q = l.try_inverse().unwrap() * s.lattice;
    fail_if!(!is_int_m(&q, 1e-6), "{} lattice: conventional vectors are not lattice vectors", sys);
    let ratio = (s.lattice.determinant() / l.determinant()).abs().round();
    let gm = s.lattice.transpose() * s.lattice;
    if edge {
        // either the symmetric lattice nearby or a less symmetric one may be meant, but some Bravais type must fit
        let fits = |t: &str| { let (k, c) = cell_shape(&gm, t); k && c.chars().any(|c| mult(c) == ratio) };
        fail_if!(!["Triclinic", "Monoclinic", "Orthorhombic", "Rhombohedral"].iter().any(|t| fits(t)), "near-symmetric lattice gets a conventional cell of {} lattice points with metric {:?}", ratio, gm.as_slice());
        return ok("near-symmetric");
    }
    let cen = match conventional_fault(&l, &s.lattice, sys) {
        Ok(c) => c,
        Err(e) => return Res::Fail(e),
    };
    if let Some(m) = consistent(&s) {
        return Res::Fail(m);
    }
    ok(&format!("{} {}", sys, cen))
}

// ---------------------------------------------------------------------------------------------------- C16

pub fn gen16(r: &mut Rng, it: u64) -> Input {
    if it < 230 {
        let num = it as u8 + 1;
        return match group_crystal(r, num, true) {
            Some(c) => with_prim(c.put(Input::new("standard")), &c).put("num", &[num as f64]).put("dtol", &[0.01]),
            None => Input::new("missing").put("num", &[num as f64]),
        };
    }
    let dtol = *r.pick(&[0.01, 0.03]);
    loop {
        let num = match it % 4 {
            0 => r.i(1, 15),
            1 => r.i(16, 74),
            _ => r.i(75, 230),
        } as u8;
        if table().get(&num).map(|t| t.1 > 24 && r.chance(0.8)).unwrap_or(false) {
            continue;
        }
        let p = if it % 3 == 2 {
            special_crystal(r)
        } else if it % 3 == 1 {
            match group_crystal(r, num, false) {
                Some(c) => c,
                None => continue,
            }
        } else {
            match group_crystal(r, num, true) {
                Some(c) if min_separation(&c.l, &c.f) > 0.2 => c,
                _ => continue,
            }
        };
        if p.f.len() > 48 || (p.f.len() <= 24 && symmetry(&p, 0.15).len() != symmetry(&p, 1e-3).len()) {
            continue;
        }
        let big = if p.f.len() > 30 { 1 } else { 3 };
        let c = presented(r, &p, it / 3, big);
        let c2 = presented(r, &p, it / 3 + 1, 1);
        return with_prim(c.put(Input::new(if it % 3 == 2 { "special" } else { "presented" })), &p)
            .put("num", &[if it % 3 == 2 { 0.0 } else { num as f64 }])
            .put("dtol", &[dtol])
            .put("l2", c2.l.as_slice())
            .put("frac2", &flat(&c2.f))
            .puts("sp2", &c2.sp);
    }
}

fn order_known(p: &Crystal, num: u8) -> bool {
    num == 0 || table().get(&num).map(|t| symmetry(p, 0.08).len() == t.1 as usize).unwrap_or(false)
}

pub fn check16(i: &Input) -> Res {
    let num = i.num("num") as u8;
    fail_if!(i.kind() == "missing", "group {} is not tabulated", num);
    let c = Crystal::get(i);
    let p = get_prim(i);
    let sa = SymmetryAnalyzer { dtol: i.num("dtol"), atol: 5.0 };
    let s = structure(&c);
    let got = lib(|| sa.get_space_group_info(&s));
    let (n, sym, _) = match got {
        Ok(g) => g,
        Err(e) if i.kind() == "standard" => {
            if UNIDENTIFIED.contains(&num) && !is_fault(&e) {
                return Res::Known("standard crystal of a screw-axis group is not identified".into());
            }
            return Res::Fail(format!("group {} is not identified from its own standard crystal: {}", num, e));
        }
        Err(e) if is_fault(&e) => return Res::Fail(format!("panic: {}", e)),
        Err(e) => return Res::Skip(format!("not identified: {}", e)),
    };
    fail_if!(SG_NUM_TO_SYMBOL.get(&n).map(|x| x.to_string()) != Some(sym.clone()), "number {} reported with the symbol {}", n, sym);
    if num != 0 && order_known(&p, num) {
        fail_if!(n != num, "crystal of group {} is reported as {}", num, n);
    }
    // the operations found in the standard primitive cell are the tabulated ones
    let sp = match lib(|| sa.get_standard_primitive_structure(&s)) {
        Ok(x) => x,
        Err(e) => return Res::Fail(format!("standard primitive cell: panic: {}", e)),
    };
    let pc = crate::cells::crystal(&sp);
    if pc.f.len() <= 24 {
        let found = symmetry(&pc, 0.08);
        if found.len() != symmetry(&pc, 1e-3).len() {
            return Res::Skip("close to a more symmetric crystal".into());
        }
        let t = table();
        let tab: Vec<Op> = t[&n].2.iter().map(|e| crate::groups::decode_op(*e)).collect();
        fail_if!(found.len() != tab.len(), "crystal with {} operations is reported as group {} with {}", found.len(), n, tab.len());
    }
    // other presentation: same number if one is reported
    if !i.nums("l2").is_empty() {
        let c2 = Crystal { l: i.mat("l2"), sp: i.strs("sp2"), f: i.vecs("frac2") };
        if let Ok(g) = lib(|| sa.get_space_group_info(&structure(&c2))) {
            fail_if!(g.0 != n, "one cell of the crystal is reported as {}, another as {}", n, g.0);
        }
    }
    // hash order: a second evaluation gives the same answer
    if let Ok(g) = lib(|| sa.get_space_group_info(&s)) {
        fail_if!(g.0 != n, "two runs report {} and {}", n, g.0);
    }
    ok(&format!("{} {}", i.kind(), n))
}

// ---------------------------------------------------------------------------------------------------- C19

/// Pairs of sites related by a centre of inversion, all but one of them exactly.
fn odd_site(r: &mut Rng) -> Option<Crystal> {
    let l = rand_lattice(r) * r.f(1.0, 1.6);
    let o = if r.chance(0.8) { V3::zeros() } else { r.v3(0., 1.) };
    let n = 2 * r.i(2, 11) as usize;
    let mut c = Crystal { l, sp: vec![], f: vec![] };
    for _ in 0..200 {
        if c.f.len() >= n {
            break;
        }
        let x = r.v3(0., 1.);
        let mut d = c.clone();
        d.sp.extend(vec![NAMES[r.i(0, 2) as usize].to_string(); 2]);
        d.f.extend([x, o * 2.0 - x]);
        if min_separation(&d.l, &d.f) > 1.0 {
            c = d;
        }
    }
    let k = c.f.len();
    if k < 2 {
        return None;
    }
    match r.i(0, 3) {
        0 => {}
        1 => c.sp[k - 1] = NAMES[5].to_string(),
        2 => {
            c.sp.pop();
            c.f.pop();
        }
        _ => c.f[k - 1] += V3::new(0.12, 0.1, 0.13),
    }
    let j = r.i(0, c.f.len() as i64 - 1) as usize;
    let last = c.f.len() - 1;
    c.f.swap(j, last);
    c.sp.swap(j, last);
    if min_separation(&c.l, &c.f) > 0.6 { Some(c) } else { None }
}

pub fn gen19(r: &mut Rng, it: u64) -> Input {
    loop {
        let p = match it % 4 {
            0 => special_crystal(r),
            1 if it % 8 == 1 => match odd_site(r) {
                Some(c) => c,
                None => continue,
            },
            1 => rand_crystal(r, 3),
            k => {
                let n = r.i(1, 230) as u8;
                if table().get(&n).map(|t| t.1 > 16 && r.chance(0.9)).unwrap_or(false) {
                    continue;
                }
                match group_crystal(r, n, k == 2) {
                    Some(c) if min_separation(&c.l, &c.f) > 0.2 => c,
                    _ => continue,
                }
            }
        };
        // keep away from crystals that are nearly more symmetric: the tolerance does not resolve them
        if p.f.len() > 48 || symmetry(&p, 0.15).len() != symmetry(&p, 1e-3).len() {
            continue;
        }
        let max = if p.f.len() > 12 { 1 } else { 4 };
        let c = presented(r, &p, it / 4, max);
        return with_prim(c.put(Input::new("crystal")), &p).put("dtol", &[*r.pick(&[0.01, 0.02])]);
    }
}

pub fn check19(i: &Input) -> Res {
    let c = Crystal::get(i);
    let dtol = i.num("dtol");
    let sa = SymmetryAnalyzer { dtol, atol: 5.0 };
    let s = structure(&c);
    let ops: Vec<Op> = match lib(|| sa.get_space_group_info(&s)) {
        Ok(g) => g.2.operations.iter().map(from_lib).collect(),
        Err(e) if is_fault(&e) => return Res::Fail(format!("panic: {}", e)),
        Err(e) => return Res::Skip(format!("not identified: {}", e)),
    };
    let g = c.l.transpose() * c.l;
    let len: Vec<f64> = (0..3).map(|k| c.l.column(k).norm()).collect();
    let tol = V3::new(2.0 * dtol / len[0], 2.0 * dtol / len[1], 2.0 * dtol / len[2]);
    fail_if!(!ops.iter().any(|o| eq_mod(o, &(M3::identity(), V3::zeros()), &tol)), "the identity is missing");
    for (k, o) in ops.iter().enumerate() {
        let h = o.0.transpose() * g * o.0;
        fail_if!((h - g).norm() > 1e-3 * g.norm(), "operation {} does not preserve the metric", k);
        fail_if!(!maps_to_self(&c, &o.0, &o.1, 5.0 * dtol), "operation {} ({:?} {:?}) does not map the crystal onto itself", k, o.0.as_slice(), o.1.as_slice());
        fail_if!(ops[..k].iter().any(|x| eq_mod(x, o, &(tol * 0.45))), "operation {} occurs twice", k);
    }
    for a in &ops {
        for b in &ops {
            let m = mul(a, b);
            fail_if!(!ops.iter().any(|x| eq_mod(x, &m, &(tol * 2.0))), "operations are not closed");
        }
    }
    if c.f.len() <= 24 {
        let n = symmetry(&c, 0.1).len();
        if n != symmetry(&c, 1e-3).len() {
            return Res::Skip("close to a more symmetric crystal".into());
        }
        fail_if!(n != ops.len(), "{} operations reported, the crystal has {}", ops.len(), n);
    }
    ok(if ops.len() == 1 { "identity only" } else { "several" })
}

// ---------------------------------------------------------------------------------------------------- C20

pub fn gen20(r: &mut Rng, it: u64) -> Input {
    gen19(r, it)
}

pub fn check20(i: &Input) -> Res {
    let c = Crystal::get(i);
    let sa = SymmetryAnalyzer { dtol: i.num("dtol"), atol: 5.0 };
    let s = structure(&c);
    // the input's own primitive cell: the recorded one is in the original orientation, so take translations of c
    let n = translations(&c, 1e-3);
    if n != translations(&c, 0.1) {
        return Res::Skip("close to a crystal with a smaller cell".into());
    }
    let v = c.l.determinant().abs() / n as f64;
    let per = c.f.len() / n;
    let mut base = c.l;
    for conv in [false, true] {
        let what = if conv { "conventional" } else { "primitive" };
        let o = match lib(|| if conv { sa.get_standard_conventional_structure(&s) } else { sa.get_standard_primitive_structure(&s) }) {
            Ok(o) => o,
            Err(e) if e.contains("iggli") => return Res::Skip(format!("reduction reports failure: {}", e)),
            Err(e) => return Res::Fail(format!("{} cell: panic: {}", what, e)),
        };
        let d = o.lattice.determinant().abs();
        let m = (d / v).round();
        fail_if!((d - m * v).abs() > 1e-5 * d, "{} volume {} is no multiple of {}", what, d, v);
        fail_if!(!conv && m != 1.0, "standard primitive cell has {} times the primitive volume", m);
        fail_if!(conv && !(1.0..=4.0).contains(&m), "conventional cell has {} times the primitive volume", m);
        fail_if!(o.species.len() != per * m as usize, "{} cell has {} sites instead of {}", what, o.species.len(), per * m as usize);
        if let Some(e) = consistent(&o) {
            return Res::Fail(format!("{} cell: {}", what, e));
        }
        if !conv {
            base = o.lattice;
        } else {
            // the conventional cell shows the symmetry of the lattice and has a centring that gives the primitive one
            let b = base * short_basis(&base);
            let g = b.transpose() * b;
            let (n1, n2) = (metric_ops(&g, 1e-7 * g.norm()).len(), metric_ops(&g, 3e-3 * g.norm().sqrt() + 2e-3).len());
            if let (true, Some(sys)) = (n1 == n2, system_of(n1)) {
                if let Err(e) = conventional_fault(&base, &o.lattice, sys) {
                    return Res::Fail(e);
                }
            }
        }
        // vectors are translations of the crystal
        let li = c.l.try_inverse().unwrap();
        for k in 0..3 {
            let t = li * V3::from(o.lattice.column(k));
            fail_if!(!maps_to_self(&c, &M3::identity(), &t, 1e-4), "{} vector {} is no translation of the crystal", what, k);
        }
        // sites are sites; each class represented m times, none twice
        let cc = Crystal { l: c.l, sp: c.sp.clone(), f: c.f.clone() };
        for k in 0..o.species.len() {
            fail_if!(find_site(&cc, &o.species[k], &(li * o.coords[k]), 1e-4).is_none(), "{} cell: site {} is no site of the crystal", what, k);
            for j in 0..k {
                fail_if!(dist_mod(&o.lattice, &o.frac_coords[j], &o.frac_coords[k]) < 1e-4, "{} cell: sites {} and {} coincide", what, j, k);
            }
        }
    }
    ok(if n > 1 { "supercell" } else { "primitive" })
}
