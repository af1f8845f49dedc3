//! Oracles for C01, C02, C03, C04, C09, C15, C17 and C21.
use crate::common::*;
use crate::fail_if;
use crystsymm::structure::Structure;
use crystsymm::symmop::SymmOp;
use crystsymm::utils::*;
use nalgebra::Matrix3;
use std::collections::BTreeMap;

const E: f64 = 1e-9;

/// Numbers where the thresholds of wrapping lie, and generic ones.
fn wrap_number(r: &mut Rng, tol: f64) -> f64 {
    let n = r.i(-3, 3) as f64;
    match r.i(0, 11) {
        0 => n,
        1 => n + tol * 0.5,
        2 => n - tol * 0.5,
        3 => n + tol * 1.5,
        4 => n - tol * 1.5,
        5 => n + r.i(0, 8) as f64 / 8.0,
        6 => n + tol,
        7 => n - tol,
        8 => r.f(-1000., 1000.),
        _ => r.f(-3., 3.),
    }
}

fn tol_half(r: &mut Rng) -> f64 {
    match r.i(0, 5) {
        0 => 0.0,
        1 => 1.0 / 16.0,
        2 => 0.25,
        3 => 1e-3,
        4 => 0.49,
        _ => r.f(0.001, 0.49),
    }
}

fn wrapped_ok(old: f64, new: f64, tol: f64) -> Option<String> {
    let d = new - old;
    if (d - d.round()).abs() > E * (1.0 + old.abs()) {
        return Some(format!("changed by {} which is not an integer", d));
    }
    if new < -tol - E || new > 1.0 - tol + E {
        return Some(format!("{} is outside [-{}, 1-{}]", new, tol, tol));
    }
    None
}

pub fn gen01(r: &mut Rng, it: u64) -> Input {
    let tol = V3::new(tol_half(r), tol_half(r), tol_half(r));
    if it % 4 == 3 {
        let v: Vec<f64> = (0..3).map(|i| wrap_number(r, tol[i])).collect();
        let rot: Vec<f64> = (0..9).map(|_| r.i(-1, 1) as f64).collect();
        return Input::new("op").put("tol", tol.as_slice()).put("vec", &v).put("rot", &rot);
    }
    let n = if it % 7 == 0 { r.i(0, 1) } else { r.i(1, 9) };
    let mut v = vec![];
    for _ in 0..n {
        for i in 0..3 {
            v.push(wrap_number(r, tol[i]));
        }
    }
    Input::new("list").put("tol", tol.as_slice()).put("vec", &v)
}

pub fn check01(i: &Input) -> Res {
    let tol = i.vec("tol");
    let old = i.vecs("vec");
    let mut new = old.clone();
    let mut twice;
    if i.kind() == "op" {
        let rot = Matrix3::<i8>::from_iterator(i.nums("rot").iter().map(|x| *x as i8));
        let mut op = SymmOp { rotation: rot, translation: old[0] };
        if let Err(e) = lib(|| op.normalize(&tol)) {
            return Res::Fail(format!("panic: {}", e));
        }
        fail_if!(op.rotation != rot, "rotation changed");
        new = vec![op.translation];
        let _ = lib(|| op.normalize(&tol));
        twice = vec![op.translation];
    } else {
        if let Err(e) = lib(|| normalize_frac_vectors(&mut new, &tol)) {
            return Res::Fail(format!("panic: {}", e));
        }
        twice = new.clone();
        let _ = lib(|| normalize_frac_vectors(&mut twice, &tol));
    }
    fail_if!(new.len() != old.len(), "number of vectors changed from {} to {}", old.len(), new.len());
    for k in 0..old.len() {
        for a in 0..3 {
            if let Some(m) = wrapped_ok(old[k][a], new[k][a], tol[a]) {
                return Res::Fail(format!("vector {} axis {}: {}", k, a, m));
            }
            // a component that sits on a threshold may move by rounding only
            let edge = ((new[k][a] + tol[a]).abs() < 1e-9) || ((new[k][a] - 1.0 + tol[a]).abs() < 1e-9);
            fail_if!(!edge && (twice[k][a] - new[k][a]).abs() > E, "vector {} axis {}: second wrapping moves {} to {}", k, a, new[k][a], twice[k][a]);
        }
    }
    if old.is_empty() {
        return ok("empty list");
    }
    ok(i.kind())
}

fn near(r: &mut Rng, a: f64, tol: f64) -> f64 {
    let s = if r.chance(0.5) { 1.0 } else { -1.0 };
    match r.i(0, 6) {
        0 => a,
        1 => a + s * tol * (1.0 - 1e-4),
        2 => a + s * tol * (1.0 + 1e-4) + s * 1e-7,
        3 => a + s * tol * 0.5,
        4 => a + s * tol * 2.5 + s * 1e-6,
        5 => a + s * tol, // exact in dyadic cases
        _ => a + r.f(-1., 1.),
    }
}

fn dy(r: &mut Rng) -> f64 {
    r.i(-64, 64) as f64 / 16.0
}

fn dytol(r: &mut Rng) -> f64 {
    *r.pick(&[0.0, 0.0625, 0.125, 0.25, 0.5, 1.0, 1e-3])
}

pub fn gen02(r: &mut Rng, it: u64) -> Input {
    match it % 5 {
        0 => {
            let (a, t) = (dy(r), dytol(r));
            Input::new("pair").put("a", &[a]).put("b", &[near(r, a, t)]).put("tol", &[t])
        }
        1 => {
            let t: Vec<f64> = (0..9).map(|_| dytol(r)).collect();
            let a: Vec<f64> = (0..9).map(|_| dy(r)).collect();
            let bad = if r.chance(0.6) { r.i(0, 8) } else { -1 };
            let b: Vec<f64> = (0..9)
                .map(|k| if k == bad { near(r, a[k as usize], t[k as usize]) } else { a[k as usize] + t[k as usize] * *r.pick(&[0.0, 0.5, -0.5]) })
                .collect();
            Input::new("matrix").put("a", &a).put("b", &b).put("tol", &t)
        }
        2 => {
            let t = dytol(r);
            let n = *r.pick(&[0, 1, 2, 3, 9, 40, 300]);
            let a: Vec<f64> = (0..n).map(|_| dy(r)).collect();
            let bad = if r.chance(0.5) && n > 0 { r.i(0, n as i64 - 1) } else { -1 };
            let mut b: Vec<f64> = (0..n).map(|k| if k as i64 == bad { near(r, a[k], t) } else { a[k] + t * *r.pick(&[0.0, 0.5, -0.5]) }).collect();
            if r.chance(0.2) {
                if r.chance(0.5) && !b.is_empty() {
                    b.pop();
                } else {
                    b.push(dy(r));
                }
            }
            Input::new("seq").put("a", &a).put("b", &b).put("tol", &[t])
        }
        _ => {
            let t = dytol(r);
            let n = if r.chance(0.05) { 127 } else { r.i(0, 12) };
            let a: Vec<f64> = (0..n)
                .map(|_| match r.i(0, 7) {
                    0 => 0.0,
                    1 => t,
                    2 => -t,
                    3 => t * 0.5,
                    4 => -t * 0.5,
                    5 => t + 0.1,
                    6 => -t - 0.1,
                    _ => dy(r),
                })
                .collect();
            Input::new("count").put("a", &a).put("tol", &[t])
        }
    }
}

pub fn check02(i: &Input) -> Res {
    let (a, b, t) = (i.nums("a"), i.nums("b"), i.nums("tol"));
    // decisions closer to the threshold than rounding are only compared when they are exact
    let sharp = |x: f64, y: f64, t: f64| {
        let d = (x - y).abs();
        (d - t).abs() > 1e-9 || [x, y, t].iter().all(|v| (v * 1024.0).fract() == 0.0 && v.abs() < 1e6)
    };
    match i.kind() {
        "pair" => {
            if !sharp(a[0], b[0], t[0]) {
                return Res::Skip("threshold within rounding".into());
            }
            let le = (a[0] - b[0]).abs() <= t[0];
            let lt = (a[0] - b[0]).abs() < t[0];
            for (x, y) in [(a[0], b[0]), (b[0], a[0])] {
                match lib(|| (cust_eq(&x, &y, &t[0]), approx_equal(&x, &y, &t[0]))) {
                    Ok((p, q)) => {
                        fail_if!(p != le, "cust_eq({:?}, {:?}, {:?}) = {}", x, y, t[0], p);
                        fail_if!(q != lt, "approx_equal({:?}, {:?}, {:?}) = {}", x, y, t[0], q);
                    }
                    Err(e) => return Res::Fail(format!("panic: {}", e)),
                }
            }
            ok(if le { "pair equal" } else { "pair different" })
        }
        "matrix" => {
            if (0..9).any(|k| !sharp(a[k], b[k], t[k])) {
                return Res::Skip("threshold within rounding".into());
            }
            let want = (0..9).all(|k| (a[k] - b[k]).abs() <= t[k]);
            let (ma, mb) = (i.mat("a"), i.mat("b"));
            for (x, y) in [(ma, mb), (mb, ma)] {
                match lib(|| compare_matrices(&x, &y, &t)) {
                    Ok(p) => fail_if!(p != want, "compare_matrices gives {} for entries {:?} / {:?}", p, a, b),
                    Err(e) => return Res::Fail(format!("panic: {}", e)),
                }
            }
            ok(if want { "matrices equal" } else { "matrices different" })
        }
        "seq" => {
            let got = lib(|| approx_equal_iter(a.iter(), b.iter(), &t[0]));
            if a.len() != b.len() {
                fail_if!(got.is_ok(), "sequences of lengths {} and {} are not refused", a.len(), b.len());
                return ok("different lengths");
            }
            if (0..a.len()).any(|k| !sharp(a[k], b[k], t[0])) {
                return Res::Skip("threshold within rounding".into());
            }
            let want = (0..a.len()).all(|k| (a[k] - b[k]).abs() < t[0]);
            match (got, lib(|| approx_equal_iter(b.iter(), a.iter(), &t[0]))) {
                (Ok(p), Ok(q)) => fail_if!(p != want || q != want, "approx_equal_iter gives {}/{} instead of {}", p, q, want),
                (p, q) => return Res::Fail(format!("panic: {:?} {:?}", p.err(), q.err())),
            }
            ok(if want { "sequences equal" } else { "sequences different" })
        }
        _ => {
            let neg = a.iter().filter(|x| **x < -t[0]).count();
            let zero = a.iter().filter(|x| **x >= -t[0] && **x < t[0]).count();
            match lib(|| num_negative_zero(&a, &t[0])) {
                Ok((p, q)) => fail_if!(p as usize != neg || q as usize != zero, "num_negative_zero gives ({}, {}) instead of ({}, {})", p, q, neg, zero),
                Err(e) => return Res::Fail(format!("panic: {}", e)),
            }
            ok("counter")
        }
    }
}

fn any_lattice(r: &mut Rng) -> M3 {
    let m = r.i(1, 6) as usize;
    let neg = r.chance(0.4);
    rand_rotation(r) * rand_lattice(r) * unimodular(r, m, neg)
}

fn vcl(a: &V3, b: &V3, tol: f64) -> bool {
    (a - b).norm() <= tol * (1.0 + a.norm())
}

pub fn gen03(r: &mut Rng, it: u64) -> Input {
    let l = any_lattice(r) * *r.pick(&[1.0, 1.0, 0.01, 50.0]);
    let n = *r.pick(&[0, 1, 1, 2, 3, 5, 17]);
    let sp: Vec<String> = (0..n).map(|_| r.pick(&NAMES).to_string()).collect();
    let f: Vec<V3> = (0..n).map(|_| if r.chance(0.2) { V3::new(r.i(-1, 1) as f64, 0.0, r.i(0, 2) as f64 / 2.0) } else { r.v3(-2., 2.) }).collect();
    let k = if it % 2 == 0 { "cart" } else { "frac" };
    let c: Vec<V3> = if k == "cart" { f.iter().map(|x| l * x).collect() } else { f };
    Input::new(k).put("lattice", l.as_slice()).put("coords", &flat(&c)).puts("species", &sp)
}

pub fn check03(i: &Input) -> Res {
    let l = i.mat("lattice");
    let li = l.try_inverse().unwrap();
    let c = i.vecs("coords");
    let sp = i.strs("species");
    let cart = i.kind() == "cart";
    let s = match lib(|| Structure::new(l, sp.clone(), c.clone(), cart)) {
        Ok(s) => s,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    fail_if!(s.lattice != l, "lattice changed");
    fail_if!(s.species != sp, "species changed");
    fail_if!(s.coords.len() != c.len() || s.frac_coords.len() != c.len(), "number of sites changed");
    let given = if cart { &s.coords } else { &s.frac_coords };
    fail_if!(*given != c, "the coordinates passed in are not stored unchanged");
    let cond = l.norm() * li.norm();
    for k in 0..c.len() {
        fail_if!(!vcl(&s.coords[k], &(l * s.frac_coords[k]), 1e-8 * cond), "site {}: cart {:?} is not lattice * frac {:?}", k, s.coords[k], s.frac_coords[k]);
        let (wf, wc) = if cart { (li * c[k], c[k]) } else { (c[k], l * c[k]) };
        fail_if!(!vcl(&s.frac_coords[k], &wf, 1e-8 * cond) || !vcl(&s.coords[k], &wc, 1e-8 * cond), "site {} converted wrongly", k);
    }
    let r = lib(|| {
        let f2 = Structure::get_frac_coords(&l, &Structure::get_cart_coords(&l, &s.frac_coords));
        let c2 = Structure::get_cart_coords(&l, &Structure::get_frac_coords(&l, &s.coords));
        (f2, c2)
    });
    match r {
        Ok((f2, c2)) => {
            fail_if!(f2.len() != c.len() || c2.len() != c.len(), "round trip changes the number of sites");
            for k in 0..c.len() {
                fail_if!(!vcl(&f2[k], &s.frac_coords[k], 1e-8 * cond), "frac -> cart -> frac moves site {}", k);
                fail_if!(!vcl(&c2[k], &s.coords[k], 1e-8 * cond), "cart -> frac -> cart moves site {}", k);
            }
        }
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    }
    if c.is_empty() {
        return ok("no sites");
    }
    ok(i.kind())
}

pub fn gen04(r: &mut Rng, it: u64) -> Input {
    let l = any_lattice(r);
    let tol = *r.pick(&[0.01, 0.1, 0.5, 0.001]);
    let n = if it % 9 == 0 { r.i(0, 1) } else if it % 9 == 4 { r.i(20, 90) } else { r.i(2, 14) };
    let kinds = r.i(1, 4);
    let sp: Vec<String> = (0..n).map(|_| NAMES[r.i(0, kinds) as usize].to_string()).collect();
    let mut f = vec![];
    for _ in 0..n {
        let mut v = V3::zeros();
        for a in 0..3 {
            v[a] = wrap_number(r, tol / l.column(a).norm());
        }
        f.push(v);
    }
    Input::new("normalize").put("lattice", l.as_slice()).put("frac", &flat(&f)).puts("species", &sp).put("tol", &[tol])
}

pub fn check04(i: &Input) -> Res {
    let c = Crystal::get(i);
    let tol = i.num("tol");
    for a in 0..3 {
        if tol / c.l.column(a).norm() >= 0.5 {
            return Res::Skip("tolerance too large".into());
        }
    }
    let s0 = Structure::new(c.l, c.sp.clone(), c.f.clone(), false);
    let s = match lib(|| {
        let mut s = s0.clone();
        s.normalize_coords(&tol);
        s
    }) {
        Ok(s) => s,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    fail_if!(s.lattice != c.l, "lattice changed");
    let n = c.f.len();
    fail_if!(s.species.len() != n || s.coords.len() != n || s.frac_coords.len() != n, "number of sites changed");
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|a, b| c.sp[*a].cmp(&c.sp[*b]));
    for k in 0..n {
        let o = idx[k];
        fail_if!(s.species[k] != c.sp[o], "site {}: species {} instead of {}", k, s.species[k], c.sp[o]);
        for a in 0..3 {
            if let Some(m) = wrapped_ok(c.f[o][a], s.frac_coords[k][a], tol / c.l.column(a).norm()) {
                return Res::Fail(format!("site {} (originally {}) axis {}: {}", k, o, a, m));
            }
        }
        fail_if!(!vcl(&s.coords[k], &(c.l * s.frac_coords[k]), 1e-7), "site {}: Cartesian coordinates do not belong to the fractional ones", k);
    }
    ok(if n < 2 { "few sites" } else { "sites" })
}

pub fn gen09(r: &mut Rng, _it: u64) -> Input {
    let l = any_lattice(r);
    let l2 = any_lattice(r);
    let n = r.i(0, 5) as f64;
    Input::new("lattice").put("lattice", l.as_slice()).put("lattice2", l2.as_slice()).put("n", &[n])
}

pub fn check09(i: &Input) -> Res {
    let (l, l2) = (i.mat("lattice"), i.mat("lattice2"));
    let n = i.num("n") as usize;
    let mk = |l: M3| Structure::new(l, vec!["A".to_string(); n], vec![V3::new(0.1, 0.2, 0.3); n], false);
    let (s, s2) = (mk(l), mk(l2));
    let r = lib(|| {
        (s.a(), s.b(), s.c(), s.alpha(), s.beta(), s.gamma(), s.volume(), s.metric_tensor(), s.reciprocal_lattice(), s.delaunay_matrix(), s.num_sites(), s.get_transformation_matrix(&s2))
    });
    let (a, b, c, al, be, ga, v, g, rec, d, ns, t) = match r {
        Ok(x) => x,
        Err(e) => return Res::Fail(format!("panic: {}", e)),
    };
    let col = |j: usize| V3::new(l[(0, j)], l[(1, j)], l[(2, j)]);
    let ln: Vec<f64> = (0..3).map(|j| col(j).dot(&col(j)).sqrt()).collect();
    for (k, x) in [a, b, c].iter().enumerate() {
        fail_if!((x - ln[k]).abs() > 1e-9 * ln[k], "edge {} reported as {} instead of {}", k, x, ln[k]);
    }
    for (nm, x, p, q) in [("alpha", al, 1, 2), ("beta", be, 0, 2), ("gamma", ga, 0, 1)] {
        let w = (col(p).dot(&col(q)) / (ln[p] * ln[q])).clamp(-1., 1.).acos().to_degrees();
        fail_if!((x - w).abs() > 1e-6, "{} reported as {} instead of {}", nm, x, w);
    }
    let vol = col(0).dot(&col(1).cross(&col(2))).abs();
    fail_if!((v - vol).abs() > 1e-9 * vol, "volume reported as {} instead of {}", v, vol);
    for p in 0..3 {
        for q in 0..3 {
            let w = col(p).dot(&col(q));
            fail_if!((g[(p, q)] - w).abs() > 1e-9 * (1.0 + w.abs()), "metric entry ({},{}) is {} instead of {}", p, q, g[(p, q)], w);
            let w = if p == q { 2.0 * std::f64::consts::PI } else { 0.0 };
            let x = V3::from(rec.column(p)).dot(&col(q));
            fail_if!((x - w).abs() > 1e-7, "reciprocal vector {} times lattice vector {} is {} instead of {}", p, q, x, w);
        }
    }
    for k in 0..3 {
        fail_if!((0..3).any(|j| d[(k, j)] != l[(k, j)]), "extended basis does not start with the lattice");
        let w = -(l[(k, 0)] + l[(k, 1)] + l[(k, 2)]);
        fail_if!((d[(k, 3)] - w).abs() > 1e-9 * (1.0 + w.abs()), "fourth vector is not minus the sum");
    }
    fail_if!(ns != n, "site count {} instead of {}", ns, n);
    let cond = l.norm() * l.try_inverse().unwrap().norm();
    fail_if!((l * t - l2).norm() > 1e-7 * cond * (1.0 + l2.norm()), "reported basis change does not take the first lattice to the second");
    ok(if l.determinant() < 0.0 { "left-handed" } else { "right-handed" })
}

pub fn gen15(r: &mut Rng, it: u64) -> Input {
    if it % 3 == 0 {
        let e = match r.i(0, 4) {
            0 => u32::MAX as f64 - r.i(0, 5) as f64,
            1 => r.i(0, 40) as f64,
            2 => (19683u64 * r.i(0, 511) as u64 + r.i(0, 19682) as u64) as f64,
            _ => (r.next() as u32) as f64,
        };
        return Input::new("op").put("e", &[e]);
    }
    let base = if r.chance(0.4) { *r.pick(&[2.0, 3.0, 8.0, 10.0, 127.0]) } else { r.i(2, 127) as f64 };
    let sub = if r.chance(0.5) { r.i(0, 2) as f64 } else { r.i(0, base as i64 - 1) as f64 };
    let e = if r.chance(0.2) { u32::MAX } else { r.next() as u32 >> r.i(0, 31) };
    Input::new("digits").put("e", &[e as f64]).put("base", &[base]).put("sub", &[sub]).put("len", &[r.i(0, 33) as f64])
}

pub fn check15(i: &Input) -> Res {
    let e = i.num("e") as u32;
    if i.kind() == "op" {
        let (rot, tr) = match lib(|| decode_spg_op(e)) {
            Ok(x) => x,
            Err(m) => return Res::Fail(format!("panic: {}", m)),
        };
        fail_if!(rot.len() != 9 || tr.len() != 3, "{} rotation entries and {} translation components", rot.len(), tr.len());
        let mut x = e % 19683;
        for k in (0..9).rev() {
            fail_if!(rot[k] as i64 != (x % 3) as i64 - 1, "rotation entry {} of {} is {}", k, e, rot[k]);
            x /= 3;
        }
        let mut y = e / 19683;
        for k in (0..3).rev() {
            let w = [0, 2, 3, 4, 6, 8, 9, 10][(y % 8) as usize];
            fail_if!(tr[k] != w, "translation component {} of {} is {} instead of {}", k, e, tr[k], w);
            y /= 8;
        }
        return ok("operation");
    }
    let (base, sub, len) = (i.num("base") as u8, i.num("sub") as i8, i.num("len") as i8);
    let d = match lib(|| decode(e, base, sub, len)) {
        Ok(x) => x,
        Err(m) => return Res::Fail(format!("panic: {}", m)),
    };
    fail_if!(d.len() != len as usize, "{} digits instead of {}", d.len(), len);
    let mut x = e;
    for k in (0..d.len()).rev() {
        let w = (x % base as u32) as i64 - sub as i64;
        fail_if!(d[k] as i64 != w, "digit {} of {} in base {} is {} instead of {}", k, e, base, d[k], w);
        x /= base as u32;
    }
    ok(if len == 0 { "no digits" } else { "digits" })
}

pub fn gen17(r: &mut Rng, it: u64) -> Input {
    let names = ["Na", "Cl", "O", "Au", "C", "Fe", "Co", "N", "Cs", "Sn"];
    let k = r.i(1, 5) as usize;
    let mut kinds: Vec<&str> = names.to_vec();
    r.shuffle(&mut kinds);
    let big = it % 23 == 5;
    let mult = *r.pick(&[1, 1, 2, 3, 6]);
    let mut sp = vec![];
    for e in kinds.iter().take(k) {
        let n = if big { *r.pick(&[256, 300, 512, 1000]) } else { r.i(1, 4) * mult };
        for _ in 0..n {
            sp.push(e.to_string());
        }
    }
    if r.chance(0.8) {
        r.shuffle(&mut sp);
    }
    Input::new("species").puts("species", &sp)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

pub fn check17(i: &Input) -> Res {
    let sp = i.strs("species");
    let n = sp.len();
    let s = Structure { lattice: M3::identity(), species: sp.clone(), coords: vec![V3::zeros(); n], frac_coords: vec![V3::zeros(); n] };
    let mut cnt: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (k, e) in sp.iter().enumerate() {
        cnt.entry(e.clone()).or_insert((0, k)).0 += 1;
    }
    let g = cnt.values().fold(0, |g, x| gcd(g, x.0));
    let f = |d: usize| cnt.iter().map(|(e, c)| if c.0 / d == 1 { e.clone() } else { format!("{}{}", e, c.0 / d) }).collect::<String>();
    match lib(|| s.formulas()) {
        Ok((a, b)) => {
            fail_if!(a != f(1), "formula {} instead of {}", a, f(1));
            fail_if!(b != f(g), "reduced formula {} instead of {}", b, f(g));
        }
        Err(e) => return Res::Fail(format!("formulas: panic: {}", e)),
    }
    match lib(|| s.get_min_element()) {
        Ok((m, inds, counts)) => {
            fail_if!(inds.len() != cnt.len() || counts.len() != cnt.len(), "number of reported species");
            for (e, (c, k)) in &cnt {
                fail_if!(counts.get(e).map(|x| *x as usize) != Some(*c), "{} counted as {:?} instead of {}", e, counts.get(e), c);
                fail_if!(inds.get(e).map(|x| *x as usize) != Some(*k), "first {} reported at {:?} instead of {}", e, inds.get(e), k);
            }
            let lo = cnt.values().map(|x| x.0).min().unwrap();
            let want = cnt.iter().find(|(_, x)| x.0 == lo).unwrap().0;
            fail_if!(&m != want, "rarest element {} instead of {}", m, want);
        }
        Err(e) => return Res::Fail(format!("get_min_element: panic: {}", e)),
    }
    ok(if g > 1 { "reducible" } else { "irreducible" })
}

pub fn gen21(r: &mut Rng, it: u64) -> Input {
    let rot = |r: &mut Rng| -> Vec<f64> { (0..9).map(|_| r.i(-2, 2) as f64).collect() };
    let k = if it == 0 { "product" } else { ["compose", "equal", "act", "equal"][(it % 4) as usize] };
    let tol = V3::new(r.f(1e-3, 0.45), r.f(1e-3, 0.45), *r.pick(&[0.125, 0.25, 0.01]));
    let r1 = rot(r);
    let r2 = if k == "equal" && r.chance(0.8) { r1.clone() } else { rot(r) };
    let t1 = r.v3(-2., 2.);
    let mut t2 = r.v3(-2., 2.);
    if k == "equal" {
        for a in 0..3 {
            let s = if r.chance(0.5) { 1.0 } else { -1.0 };
            t2[a] = t1[a] + r.i(-2, 2) as f64 + s * tol[a] * if r.chance(0.8) { *r.pick(&[0.0, 0.3, 0.999]) } else { *r.pick(&[1.001, 1.5]) };
        }
    }
    Input::new(k).put("r1", &r1).put("r2", &r2).put("t1", t1.as_slice()).put("t2", t2.as_slice()).put("tol", tol.as_slice()).put("x", r.v3(-3., 3.).as_slice())
}

pub fn check21(i: &Input) -> Res {
    let m = |k: &str| Matrix3::<i8>::from_iterator(i.nums(k).iter().map(|x| *x as i8));
    let op = |r: &str, t: &str| SymmOp { rotation: m(r), translation: i.vec(t) };
    let (p, q, x, tol) = (op("r1", "t1"), op("r2", "t2"), i.vec("x"), i.vec("tol"));
    let act = |o: &SymmOp, x: &V3| -> V3 {
        let mut y = o.translation;
        for a in 0..3 {
            for b in 0..3 {
                y[a] += o.rotation[(a, b)] as f64 * x[b];
            }
        }
        y
    };
    match i.kind() {
        "act" => match lib(|| p.clone() * x) {
            Ok(y) => {
                fail_if!((y - act(&p, &x)).norm() > 1e-9, "action gives {:?} instead of {:?}", y, act(&p, &x));
                ok("action")
            }
            Err(e) => Res::Fail(format!("panic: {}", e)),
        },
        "product" => match lib(|| p.clone() * q.clone()) {
            Ok(c) => {
                if (act(&c, &x) - act(&p, &act(&q, &x))).norm() > 1e-9 {
                    return Res::Known("the product of two operations is not their composition".into());
                }
                ok("product")
            }
            Err(e) => Res::Fail(format!("panic: {}", e)),
        },
        "compose" => match lib(|| p.compose(&q)) {
            Ok(c) => {
                for v in [x, V3::zeros(), V3::x(), V3::y(), V3::z()] {
                    fail_if!((act(&c, &v) - act(&p, &act(&q, &v))).norm() > 1e-9, "composition differs from acting one after the other");
                }
                ok("composition")
            }
            Err(e) => Res::Fail(format!("panic: {}", e)),
        },
        _ => {
            let d = p.translation - q.translation;
            let mut want = p.rotation == q.rotation;
            for a in 0..3 {
                let e = (d[a] - d[a].round()).abs();
                if (e - tol[a]).abs() < 1e-9 {
                    return Res::Skip("threshold within rounding".into());
                }
                want &= e < tol[a];
            }
            for (x, y) in [(&p, &q), (&q, &p)] {
                match lib(|| x.is_approx_eq(y, &tol)) {
                    Ok(g) => fail_if!(g != want, "is_approx_eq gives {} instead of {}", g, want),
                    Err(e) => return Res::Fail(format!("panic: {}", e)),
                }
            }
            let mut w = p.clone();
            match lib(|| {
                w.normalize(&tol);
                w
            }) {
                Ok(w) => {
                    fail_if!(w.rotation != p.rotation, "wrapping changes the rotation");
                    for a in 0..3 {
                        if let Some(m) = wrapped_ok(p.translation[a], w.translation[a], tol[a]) {
                            return Res::Fail(format!("wrapping an operation, axis {}: {}", a, m));
                        }
                    }
                }
                Err(e) => return Res::Fail(format!("panic: {}", e)),
            }
            ok(if want { "equal" } else { "different" })
        }
    }
}
