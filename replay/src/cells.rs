//! Oracles for C05, C06, C07 and C08.
use crate::common::*;
use crate::fail_if;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;

pub fn structure(c: &Crystal) -> Structure {
    Structure { lattice: c.l, species: c.sp.clone(), coords: c.f.iter().map(|x| c.l * x).collect(), frac_coords: c.f.clone() }
}

pub fn crystal(s: &Structure) -> Crystal {
    Crystal { l: s.lattice, sp: s.species.clone(), f: s.frac_coords.clone() }
}

/// Both coordinate lists of a structure are complete and belong together.
pub fn consistent(s: &Structure) -> Option<String> {
    let n = s.species.len();
    if s.coords.len() != n || s.frac_coords.len() != n {
        return Some(format!("{} species, {} Cartesian and {} fractional coordinates", n, s.coords.len(), s.frac_coords.len()));
    }
    for k in 0..n {
        if (s.lattice * s.frac_coords[k] - s.coords[k]).norm() > 1e-7 {
            return Some(format!("site {}: Cartesian and fractional coordinates differ", k));
        }
    }
    None
}

/// Sites of s are, modulo the lattice of base, sites of base with the same species; every site of base has
/// exactly `times` of them, and no two sites of s coincide modulo the lattice of s.
pub fn same_crystal(base: &Crystal, s: &Structure, times: usize, tol: f64) -> Option<String> {
    if let Some(m) = consistent(s) {
        return Some(m);
    }
    let bi = base.l.try_inverse().unwrap();
    let mut cnt = vec![0; base.f.len()];
    for k in 0..s.species.len() {
        let x = bi * s.coords[k];
        match find_site(base, &s.species[k], &x, tol) {
            Some(j) => cnt[j] += 1,
            None => return Some(format!("site {} ({} at {:?}) is not a site of the crystal", k, s.species[k], s.frac_coords[k].as_slice())),
        }
    }
    for i in 0..s.species.len() {
        for j in 0..i {
            if dist_mod(&s.lattice, &s.frac_coords[i], &s.frac_coords[j]) < tol {
                return Some(format!("sites {} and {} coincide", j, i));
            }
        }
    }
    if let Some(j) = cnt.iter().position(|c| *c != times) {
        return Some(format!("original site {} is represented {} times instead of {}", j, cnt[j], times));
    }
    None
}

pub fn gen05(r: &mut Rng, it: u64) -> Input {
    if it % 25 == 24 {
        let c = rand_crystal(r, 2);
        let col = r.v3(-1., 1.);
        let t = match r.i(0, 2) {
            0 => M3::zeros(),
            1 => M3::from_columns(&[col.map(|x| (x * 2.).round()), V3::zeros(), V3::x()]),
            _ => M3::from_columns(&[V3::x(), V3::y(), V3::x() * 2.0 + V3::y()]),
        };
        return c.put(Input::new("singular")).put("t", t.as_slice()).put("tol", &[0.01]);
    }
    let big = it % 6 == 0;
    let p = rand_crystal(r, if big { 2 } else { 4 });
    let tol = *r.pick(&[0.01, 0.05, 0.001]);
    let (neg1, neg2) = (r.chance(0.3), r.chance(0.3));
    let (st1, st2) = (r.i(0, 4) as usize, r.i(0, 4) as usize);
    let (m, reps) = if it % 3 == 0 { (unimodular(r, st1, neg1), vec![V3::zeros()]) } else { int_matrix(r, if big { 6 } else { 3 }, st1, neg1) };
    let (k, _) = if it % 3 == 1 { (unimodular(r, st2, neg2), vec![]) } else { int_matrix(r, if big { 8 } else { 4 }, st2, neg2) };
    let mut c = supercell(&p, &m, &reps);
    scramble(r, &mut c, it % 2 == 0);
    let t = m.try_inverse().unwrap() * k;
    c.put(Input::new(["whole", "to smaller", "general"][(it % 3) as usize])).put("t", t.as_slice()).put("tol", &[tol]).put("p", p.l.as_slice()).put("pfrac", &flat(&p.f)).puts("psp", &p.sp)
}

pub fn check05(i: &Input) -> Res {
    let c = Crystal::get(i);
    let t = i.mat("t");
    let tol = i.num("tol");
    let r = lib(|| {
        let mut s = structure(&c);
        s.apply_transformation(&t, &tol);
        s
    });
    if i.kind() == "singular" {
        fail_if!(r.is_ok(), "a singular change of basis is accepted");
        return ok("singular");
    }
    let s = match r {
        Ok(s) => s,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    let p = Crystal { l: i.mat("p"), sp: i.strs("psp"), f: i.vecs("pfrac") };
    fail_if!((s.lattice - c.l * t).norm() > 1e-9 * (1.0 + s.lattice.norm()), "new lattice is not the old one times T");
    let want = (c.f.len() as f64 * t.determinant().abs()).round() as usize;
    fail_if!(s.species.len() != want, "{} sites instead of {}", s.species.len(), want);
    if let Some(m) = same_crystal(&p, &s, want / p.f.len(), 1e-5) {
        return Res::Fail(m);
    }
    ok(&format!("{}{}", i.kind(), if (c.l * t).determinant() < 0.0 { ", left-handed" } else { "" }))
}

pub fn gen06(r: &mut Rng, it: u64) -> Input {
    let p = rand_crystal(r, if it % 4 == 0 { 6 } else { 3 });
    let tol = *r.pick(&[0.01, 0.05, 0.1]);
    let neg = r.chance(0.4);
    let st = r.i(0, 4) as usize;
    let (m, reps) = if it % 5 == 4 { (unimodular(r, st, neg), vec![V3::zeros()]) } else { int_matrix(r, if it % 4 == 0 { 4 } else { 9 }, st, neg) };
    let mut c = supercell(&p, &m, &reps);
    if it % 2 == 0 {
        wrap01(&mut c);
    }
    scramble(r, &mut c, it % 3 == 0);
    c.put(Input::new("supercell")).put("tol", &[tol]).put("p", p.l.as_slice()).put("pfrac", &flat(&p.f)).puts("psp", &p.sp)
}

pub fn check06(i: &Input) -> Res {
    let c = Crystal::get(i);
    let p = Crystal { l: i.mat("p"), sp: i.strs("psp"), f: i.vecs("pfrac") };
    let red = Reducer { dtol: i.num("tol"), atol: 5.0 };
    let s = match lib(|| red.find_primitive_cell(&structure(&c))) {
        Ok(s) => s,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    let v = p.l.determinant().abs();
    let d = s.lattice.determinant();
    fail_if!(d <= 0.0, "primitive lattice is left-handed");
    fail_if!((d - v).abs() > 1e-6 * v, "primitive volume {} instead of {}", d, v);
    let n = p.l.try_inverse().unwrap() * s.lattice;
    fail_if!(!is_int_m(&n, 1e-6), "primitive vectors are not translations of the crystal");
    fail_if!(s.species.len() != p.f.len(), "{} sites instead of {}", s.species.len(), p.f.len());
    if let Some(m) = same_crystal(&p, &s, 1, 1e-5) {
        return Res::Fail(m);
    }
    ok(if c.f.len() == p.f.len() { "already primitive" } else { "supercell" })
}

/// Lattices on and off the special metrics, in skewed bases.
pub fn special_lattice(r: &mut Rng, it: u64) -> M3 {
    loop {
        let l = match it % 4 {
            0 => rand_lattice(r),
            1 => {
                // metric with repeated entries
                let s = [4.0, 9.0, 16.0, 12.0, 4.0, 9.0];
                let (a, b, c) = (*r.pick(&s), *r.pick(&s), *r.pick(&s));
                let h = |r: &mut Rng, x: f64, y: f64| -> f64 { let m: f64 = if x < y { x } else { y }; m * *r.pick(&[0.0, 0.5, -0.5, 0.25, -0.25, 1.0 / 3.0, -1.0 / 3.0]) };
                let (d, e, f) = (h(r, b, c), h(r, a, c), h(r, a, b));
                match from_metric(&M3::new(a, f, e, f, b, d, e, d, c)) {
                    Some(l) => l * *r.pick(&[1.0, 1.7]),
                    None => continue,
                }
            }
            2 => M3::from_columns(&[r.v3(-6., 6.), r.v3(-6., 6.), r.v3(-6., 6.)]),
            _ => {
                let t = *r.pick(&BRAVAIS);
                bravais_cell(r, t) * centring(t.chars().nth(1).unwrap())
            }
        };
        if l.determinant().abs() > 2.0 && l.iter().all(|x| x.is_finite()) {
            return l;
        }
    }
}

fn reduction_input(r: &mut Rng, it: u64) -> Input {
    let l = special_lattice(r, it);
    let (neg, st) = (r.chance(0.4), r.i(0, 9) as usize);
    let m = unimodular(r, st, neg);
    let n = r.i(1, 3) as usize;
    let mut c = loop {
        let f: Vec<V3> = (0..n).map(|_| r.v3(0., 1.)).collect();
        if n == 1 || min_separation(&l, &f) > 0.5 || r.chance(0.02) {
            break Crystal { l, sp: (0..n).map(|_| NAMES[r.i(0, 2) as usize].to_string()).collect(), f };
        }
    };
    if r.chance(0.5) {
        c.l = rand_rotation(r) * c.l;
    }
    if min_separation(&c.l, &c.f) < 0.5 {
        c.f.truncate(1);
        c.sp.truncate(1);
    }
    supercell(&c, &m, &[V3::zeros()]).put(Input::new("reduce"))
}

pub fn gen07(r: &mut Rng, it: u64) -> Input {
    let t = *r.pick(&[1e-5, 1e-5, 1e-4, 1e-6]);
    reduction_input(r, it).put("tol", &[t]).put("dtol", &[0.01])
}

/// Niggli conditions of a metric within eps; special ones where an equality clearly holds.
pub fn niggli_violation(g: &M3, eps: f64) -> Option<String> {
    let (a, b, c) = (g[(0, 0)], g[(1, 1)], g[(2, 2)]);
    let (d, e, f) = (g[(1, 2)], g[(0, 2)], g[(0, 1)]); // bc, ac, ab
    let t = 2.5 * eps + 1e-9 * c;
    if a > b + t || b > c + t {
        return Some(format!("lengths are not ordered: {} {} {}", a, b, c));
    }
    let pos = [d, e, f].iter().all(|x| *x > -t);
    let neg = [d, e, f].iter().all(|x| *x < t);
    if !pos && !neg {
        return Some(format!("angles are neither all acute nor all non-acute: {} {} {}", d, e, f));
    }
    let typ1 = [d, e, f].iter().all(|x| *x > 2.0 * t);
    if !typ1 && !neg {
        // a mixture of zero and positive products
        let nz = [d, e, f].iter().filter(|x| **x > 2.0 * t).count();
        if nz > 0 && [d, e, f].iter().any(|x| x.abs() < eps * 0.2) {
            return Some(format!("acute and right angles mixed: {} {} {}", d, e, f));
        }
    }
    if 2.0 * d.abs() > b + t || 2.0 * e.abs() > a + t || 2.0 * f.abs() > a + t {
        return Some(format!("off-diagonal entries exceed half the diagonal: {} {} {} / {} {}", d, e, f, a, b));
    }
    let near = |x: f64, y: f64| (x - y).abs() < eps * 0.05;
    if near(a, b) && d.abs() > e.abs() + t {
        return Some(format!("a=b but |bc| > |ac|: {} {}", d, e));
    }
    if near(b, c) && e.abs() > f.abs() + t {
        return Some(format!("b=c but |ac| > |ab|: {} {}", e, f));
    }
    if typ1 {
        if near(2.0 * d, b) && f > 2.0 * e + 2.0 * t {
            return Some("2bc=b but ab > 2ac".into());
        }
        if near(2.0 * e, a) && f > 2.0 * d + 2.0 * t {
            return Some("2ac=a but ab > 2bc".into());
        }
        if near(2.0 * f, a) && e > 2.0 * d + 2.0 * t {
            return Some("2ab=a but ac > 2bc".into());
        }
    } else {
        if near(2.0 * d.abs(), b) && f.abs() > 4.0 * t {
            return Some("2|bc|=b but ab is not zero".into());
        }
        if near(2.0 * e.abs(), a) && f.abs() > 4.0 * t {
            return Some("2|ac|=a but ab is not zero".into());
        }
        if near(2.0 * f.abs(), a) && e.abs() > 4.0 * t {
            return Some("2|ab|=a but ac is not zero".into());
        }
        if 2.0 * (d.abs() + e.abs() + f.abs()) > a + b + 2.0 * t {
            return Some("sum of the off-diagonal entries exceeds half of a+b".into());
        }
        if near(2.0 * (d.abs() + e.abs() + f.abs()), a + b) && a > 2.0 * e.abs() + f.abs() + 3.0 * t {
            return Some("2(|bc|+|ac|+|ab|)=a+b but a > 2|ac|+|ab|".into());
        }
    }
    None
}

pub fn check07(i: &Input) -> Res {
    let c = Crystal::get(i);
    let tol = i.num("tol");
    let red = Reducer { dtol: i.num("dtol"), atol: 5.0 };
    let s = match lib(|| red.niggli_reduce(&structure(&c), &tol)) {
        Ok(s) => s,
        Err(e) if is_fault(&e) => return Res::Fail(format!("panic: {}", e)),
        Err(e) => return Res::Skip(format!("reports failure: {}", e)),
    };
    let n = c.l.try_inverse().unwrap() * s.lattice;
    fail_if!(!is_int_m(&n, 1e-6), "basis change is not integral: {:?}", n.as_slice());
    fail_if!((n.determinant() - 1.0).abs() > 1e-6, "basis change has determinant {}", n.determinant());
    let g = s.lattice.transpose() * s.lattice;
    let eps = tol * c.l.determinant().abs().powf(1.0 / 3.0);
    if eps >= 1.0 {
        return Res::Skip("scaled tolerance not below one".into());
    }
    if let Some(m) = niggli_violation(&g, eps) {
        return Res::Fail(m);
    }
    if let Some(m) = same_crystal(&c, &s, 1, 1e-5) {
        return Res::Fail(m);
    }
    ok(if g[(1, 2)] > eps { "acute" } else { "non-acute" })
}

pub fn gen08(r: &mut Rng, it: u64) -> Input {
    let full = (it % 2) as f64;
    reduction_input(r, it / 2).put("full", &[full]).put("dtol", &[0.01])
}

pub fn check08(i: &Input) -> Res {
    let c = Crystal::get(i);
    let full = i.num("full") != 0.0;
    let red = Reducer { dtol: i.num("dtol"), atol: 5.0 };
    let s = match lib(|| red.delaunay_reduce(&structure(&c), full)) {
        Ok(s) => s,
        Err(e) if is_fault(&e) => return Res::Fail(format!("panic: {}", e)),
        Err(e) => return Res::Skip(format!("reports failure: {}", e)),
    };
    let n = c.l.try_inverse().unwrap() * s.lattice;
    fail_if!(!is_int_m(&n, 1e-6), "basis change is not integral: {:?}", n.as_slice());
    fail_if!((n.determinant().abs() - 1.0).abs() > 1e-6, "basis change has determinant {}", n.determinant());
    if let Some(m) = same_crystal(&c, &s, 1, 1e-5) {
        return Res::Fail(m);
    }
    if !full {
        let l = s.lattice;
        let v: Vec<V3> = (0..3).map(|j| V3::from(l.column(j))).collect();
        let w = [v[0], v[1], v[2], -(v[0] + v[1] + v[2])];
        for a in 0..4 {
            for b in 0..a {
                fail_if!(w[a].dot(&w[b]) > 1e-6 + 1e-8, "vectors {} and {} have the positive scalar product {}", b, a, w[a].dot(&w[b]));
            }
        }
    }
    ok(if full { "shortened" } else { "obtuse" })
}
