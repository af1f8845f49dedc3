//! Shared pieces of the replay oracles: random numbers, inputs, crystals and lattice arithmetic.  Nothing in
//! here calls the crate under check.
use nalgebra::{Matrix3, Vector3};
use std::collections::BTreeMap;
use std::fmt::Write;

pub type M3 = Matrix3<f64>;
pub type V3 = Vector3<f64>;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// Integer from lo to hi, both included.
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[(self.next() % xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = (self.next() % (i as u64 + 1)) as usize;
            xs.swap(i, j);
        }
    }
    pub fn v3(&mut self, lo: f64, hi: f64) -> V3 {
        V3::new(self.f(lo, hi), self.f(lo, hi), self.f(lo, hi))
    }
}

/// A concrete input of one oracle: named lists of numbers and of strings.
#[derive(Clone, Default, Debug)]
pub struct Input {
    pub n: BTreeMap<String, Vec<f64>>,
    pub s: BTreeMap<String, Vec<String>>,
}

impl Input {
    pub fn new(kind: &str) -> Self {
        let mut i = Input::default();
        i.s.insert("kind".into(), vec![kind.into()]);
        i
    }
    pub fn kind(&self) -> &str {
        self.s.get("kind").map(|v| v[0].as_str()).unwrap_or("")
    }
    pub fn put(mut self, k: &str, v: &[f64]) -> Self {
        self.n.insert(k.into(), v.to_vec());
        self
    }
    pub fn puts(mut self, k: &str, v: &[String]) -> Self {
        self.s.insert(k.into(), v.to_vec());
        self
    }
    pub fn nums(&self, k: &str) -> Vec<f64> {
        self.n.get(k).cloned().unwrap_or_default()
    }
    pub fn num(&self, k: &str) -> f64 {
        self.n.get(k).and_then(|v| v.first().copied()).unwrap_or(0.0)
    }
    pub fn strs(&self, k: &str) -> Vec<String> {
        self.s.get(k).cloned().unwrap_or_default()
    }
    pub fn mat(&self, k: &str) -> M3 {
        M3::from_iterator(self.nums(k).into_iter())
    }
    pub fn vecs(&self, k: &str) -> Vec<V3> {
        self.nums(k).chunks(3).map(|c| V3::new(c[0], c[1], c[2])).collect()
    }
    pub fn vec(&self, k: &str) -> V3 {
        self.vecs(k)[0]
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (k, v) in &self.s {
            write!(o, "s {}", k).unwrap();
            for x in v {
                write!(o, " {}", x).unwrap();
            }
            o.push('\n');
        }
        for (k, v) in &self.n {
            write!(o, "n {}", k).unwrap();
            for x in v {
                write!(o, " {:?}", x).unwrap();
            }
            o.push('\n');
        }
        o
    }
    pub fn parse(t: &str) -> Self {
        let mut i = Input::default();
        for l in t.lines() {
            let mut w = l.split(' ');
            match (w.next(), w.next()) {
                (Some("s"), Some(k)) => {
                    i.s.insert(k.into(), w.map(|x| x.to_string()).collect());
                }
                (Some("n"), Some(k)) => {
                    i.n.insert(k.into(), w.filter_map(|x| x.parse().ok()).collect());
                }
                _ => {}
            }
        }
        i
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for b in self.text().bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    }
}

pub enum Res {
    /// The property was exercised and held; the label says which case of it.
    Ok(String),
    /// The input does not meet the property's precondition, or the function reported a failure it may report.
    Skip(String),
    /// A failure recorded in known-findings.txt.
    Known(String),
    Fail(String),
}

pub fn ok(s: &str) -> Res {
    Res::Ok(s.to_string())
}

#[macro_export]
macro_rules! fail_if {
    ($c:expr, $($a:tt)*) => { if $c { return Res::Fail(format!($($a)*)); } };
}

/// Run library code; a panic becomes an error with its message.
pub fn lib<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

/// A panic that reports a refusal rather than a fault such as an index or overflow error.
pub fn is_fault(msg: &str) -> bool {
    ["index out of", "overflow", "out of bounds", "divide by zero", "attempt to", "out of range", "unwrap", "slice"].iter().any(|k| msg.contains(k))
}

// ---- lattices ------------------------------------------------------------------------------------

pub fn rand_rotation(r: &mut Rng) -> M3 {
    let q = loop {
        let q = [r.f(-1., 1.), r.f(-1., 1.), r.f(-1., 1.), r.f(-1., 1.)];
        let n: f64 = q.iter().map(|x| x * x).sum();
        if n > 0.1 && n < 1.0 {
            let s = n.sqrt();
            break [q[0] / s, q[1] / s, q[2] / s, q[3] / s];
        }
    };
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    M3::new(
        1. - 2. * (y * y + z * z), 2. * (x * y - w * z), 2. * (x * z + w * y),
        2. * (x * y + w * z), 1. - 2. * (x * x + z * z), 2. * (y * z - w * x),
        2. * (x * z - w * y), 2. * (y * z + w * x), 1. - 2. * (x * x + y * y),
    )
}

pub fn cell(a: f64, b: f64, c: f64, al: f64, be: f64, ga: f64) -> M3 {
    let d = std::f64::consts::PI / 180.0;
    let cos = |x: f64| if x == 90.0 { 0.0 } else if x == 120.0 { -0.5 } else { (x * d).cos() };
    let sg = (1.0 - cos(ga) * cos(ga)).sqrt();
    let cx = cos(be);
    let cy = (cos(al) - cx * cos(ga)) / sg;
    let cz = (1. - cx * cx - cy * cy).sqrt();
    M3::from_columns(&[V3::new(a, 0., 0.), V3::new(b * cos(ga), b * sg, 0.), V3::new(c * cx, c * cy, c * cz)])
}

/// Lattice with the given metric tensor.
pub fn from_metric(g: &M3) -> Option<M3> {
    g.cholesky().map(|c| c.l().transpose())
}

/// Primitive basis (columns, in the conventional one) of a centring.
pub fn centring(c: char) -> M3 {
    match c {
        'I' => M3::new(-0.5, 0.5, 0.5, 0.5, -0.5, 0.5, 0.5, 0.5, -0.5),
        'F' => M3::new(0.0, 0.5, 0.5, 0.5, 0.0, 0.5, 0.5, 0.5, 0.0),
        'C' => M3::new(0.5, -0.5, 0.0, 0.5, 0.5, 0.0, 0.0, 0.0, 1.0),
        'R' => M3::new(2. / 3., -1. / 3., -1. / 3., 1. / 3., 1. / 3., -2. / 3., 1. / 3., 1. / 3., 1. / 3.),
        _ => M3::identity(),
    }
}

pub const BRAVAIS: [&str; 14] = ["aP", "mP", "mC", "oP", "oC", "oF", "oI", "tP", "tI", "hP", "hR", "cP", "cF", "cI"];

/// Conventional cell of a Bravais type with generic parameters.
pub fn bravais_cell(r: &mut Rng, t: &str) -> M3 {
    let (a, b, c) = (r.f(3.5, 7.5), r.f(3.5, 7.5), r.f(3.5, 9.5));
    match &t[..1] {
        "a" => cell(a, b, c, r.f(62., 118.), r.f(62., 118.), r.f(65., 115.)),
        "m" => cell(a, b, c, 90., r.f(91., 125.), 90.),
        "o" => cell(a, b, c, 90., 90., 90.),
        "t" => cell(a, a, c, 90., 90., 90.),
        "h" => cell(a, a, c, 90., 90., 120.),
        _ => cell(a, a, a, 90., 90., 90.),
    }
}

/// Primitive lattice of a random Bravais type.
pub fn rand_lattice(r: &mut Rng) -> M3 {
    loop {
        let t = *r.pick(&BRAVAIS);
        let l = bravais_cell(r, t) * centring(t.chars().nth(1).unwrap());
        if l.determinant().is_finite() && l.determinant().abs() > 8.0 {
            return l;
        }
    }
}

pub fn unimodular(r: &mut Rng, steps: usize, det_neg: bool) -> M3 {
    let mut m = M3::identity();
    for _ in 0..steps {
        let (i, j) = (r.i(0, 2) as usize, r.i(0, 2) as usize);
        if i == j {
            continue;
        }
        let k = r.i(-1, 1) as f64;
        let c = m.column(j) * k;
        let n = m.column(i) + c;
        m.set_column(i, &n);
        if r.chance(0.3) {
            m.swap_columns(i, j);
            let n = -m.column(i);
            m.set_column(i, &n);
        }
    }
    if det_neg {
        let n = -m.column(2);
        m.set_column(2, &n);
    }
    m
}

/// Integer matrix M = H U (H upper triangular with positive diagonal, U unimodular) and the representatives of
/// the cosets of the lattice M Z^3 in Z^3.
pub fn int_matrix(r: &mut Rng, max_det: i64, steps: usize, neg: bool) -> (M3, Vec<V3>) {
    let (p, q, s) = loop {
        let t = (r.i(1, max_det), r.i(1, max_det), r.i(1, max_det));
        if t.0 * t.1 * t.2 <= max_det {
            break t;
        }
    };
    let h = M3::new(p as f64, r.i(0, p - 1) as f64, r.i(0, p - 1) as f64, 0., q as f64, r.i(0, q - 1) as f64, 0., 0., s as f64);
    let mut reps = vec![];
    for i in 0..p {
        for j in 0..q {
            for k in 0..s {
                reps.push(V3::new(i as f64, j as f64, k as f64));
            }
        }
    }
    (h * unimodular(r, steps, neg), reps)
}

pub fn round_v(v: &V3) -> V3 {
    v.map(|x| x.round())
}

pub fn is_int_m(m: &M3, tol: f64) -> bool {
    m.iter().all(|x| (x - x.round()).abs() < tol)
}

/// Distance of two fractional positions modulo the lattice (exact for small distances).
pub fn dist_mod(l: &M3, a: &V3, b: &V3) -> f64 {
    let d = a - b;
    (l * (d - round_v(&d))).norm()
}

/// Smallest distance between two sites, or between a site and its own images.
pub fn min_separation(l: &M3, f: &[V3]) -> f64 {
    let mut m = f64::MAX;
    for (i, a) in f.iter().enumerate() {
        for b in &f[i..] {
            let d = a - b;
            let d = d - round_v(&d);
            for x in -2..=2 {
                for y in -2..=2 {
                    for z in -2..=2 {
                        let v = (l * (d + V3::new(x as f64, y as f64, z as f64))).norm();
                        if v > 1e-9 || !std::ptr::eq(a, b) {
                            m = m.min(v);
                        }
                    }
                }
            }
        }
    }
    m
}

#[derive(Clone, Debug)]
pub struct Crystal {
    pub l: M3,
    pub sp: Vec<String>,
    pub f: Vec<V3>,
}

pub const NAMES: [&str; 6] = ["Na", "Cl", "O", "Au", "C", "Fe"];

/// A crystal with generic positions; primitive unless it has one site (which is primitive as well).
pub fn rand_crystal(r: &mut Rng, max_sites: i64) -> Crystal {
    loop {
        let l = rand_lattice(r);
        let n = r.i(1, max_sites) as usize;
        let kinds = r.i(1, 3);
        let base = r.i(0, 5);
        let mut sp = vec![];
        let mut f = vec![];
        for _ in 0..n {
            sp.push(NAMES[((base + r.i(0, kinds - 1)) % 6) as usize].to_string());
            f.push(r.v3(0., 1.));
        }
        if n == 1 && r.chance(0.5) {
            f[0] = V3::zeros();
        }
        if max_sites >= 3 && r.chance(0.25) {
            // almost a smaller cell: a second copy of the sites that differs in a species or a position
            let q = r.i(2, 3) as f64;
            let t = V3::new(r.i(0, 1) as f64, r.i(0, 1) as f64, 1.0) / q;
            let odd = r.i(0, n as i64 - 1) as usize;
            let moved = r.chance(0.3);
            for k in 0..n {
                for c in 1..q as i64 {
                    let mut x = f[k] + t * c as f64;
                    let mut s = sp[k].clone();
                    if k == odd && moved {
                        x += V3::new(0.12, 0.1, 0.13);
                    } else if k == odd {
                        s = NAMES[((base + 3 + r.i(0, 2)) % 6) as usize].to_string();
                    }
                    sp.push(s);
                    f.push(x);
                }
            }
            if r.chance(0.5) {
                let m = sp.len();
                sp.swap(0, m - 1);
                f.swap(0, m - 1);
            }
        }
        if min_separation(&l, &f) > 1.0 && translations(&Crystal { l, sp: sp.clone(), f: f.clone() }, 0.3) == 1 {
            return Crystal { l, sp, f };
        }
    }
}

/// Number of lattice-inequivalent translations mapping the crystal onto itself within tol.
pub fn translations(c: &Crystal, tol: f64) -> usize {
    (0..c.f.len()).filter(|&j| c.sp[j] == c.sp[0] && maps_to_self(c, &M3::identity(), &(c.f[j] - c.f[0]), tol)).count()
}

pub fn find_site(c: &Crystal, sp: &str, x: &V3, tol: f64) -> Option<usize> {
    (0..c.f.len()).find(|&k| c.sp[k] == sp && dist_mod(&c.l, &c.f[k], x) <= tol)
}

/// The operation x -> R x + t (fractional) maps every site onto a site of the same species.
pub fn maps_to_self(c: &Crystal, rot: &M3, t: &V3, tol: f64) -> bool {
    c.f.iter().zip(&c.sp).all(|(x, s)| find_site(c, s, &(rot * x + t), tol).is_some())
}

/// The same crystal in the cell l*m; reps are the cosets of m.
pub fn supercell(c: &Crystal, m: &M3, reps: &[V3]) -> Crystal {
    let mi = m.try_inverse().unwrap();
    let mut o = Crystal { l: c.l * m, sp: vec![], f: vec![] };
    for (x, s) in c.f.iter().zip(&c.sp) {
        for n in reps {
            o.f.push(mi * (x + n));
            o.sp.push(s.clone());
        }
    }
    o
}

/// Change order of sites, move them by lattice vectors.
pub fn scramble(r: &mut Rng, c: &mut Crystal, shifts: bool) {
    let mut idx: Vec<usize> = (0..c.f.len()).collect();
    r.shuffle(&mut idx);
    c.sp = idx.iter().map(|&i| c.sp[i].clone()).collect();
    c.f = idx.iter().map(|&i| c.f[i]).collect();
    if shifts {
        for x in c.f.iter_mut() {
            *x += V3::new(r.i(-2, 2) as f64, r.i(-2, 2) as f64, r.i(-2, 2) as f64);
        }
    }
}

pub fn wrap01(c: &mut Crystal) {
    for x in c.f.iter_mut() {
        *x = x.map(|v| v - v.floor());
    }
}

impl Crystal {
    pub fn put(&self, i: Input) -> Input {
        i.put("lattice", self.l.as_slice()).put("frac", &flat(&self.f)).puts("species", &self.sp)
    }
    pub fn get(i: &Input) -> Crystal {
        Crystal { l: i.mat("lattice"), sp: i.strs("species"), f: i.vecs("frac") }
    }
}

pub fn flat(v: &[V3]) -> Vec<f64> {
    v.iter().flat_map(|x| x.iter().copied().collect::<Vec<_>>()).collect()
}

/// All integer matrices with entries -1..1 that keep the metric: the holohedry of a reduced basis.
pub fn metric_ops(g: &M3, tol: f64) -> Vec<M3> {
    // candidate images of each basis vector
    let mut cand: [Vec<V3>; 3] = [vec![], vec![], vec![]];
    let b = 2;
    for x in -b..=b {
        for y in -b..=b {
            for z in -b..=b {
                let v = V3::new(x as f64, y as f64, z as f64);
                let n = v.dot(&(g * v));
                for i in 0..3 {
                    if (n - g[(i, i)]).abs() < tol {
                        cand[i].push(v);
                    }
                }
            }
        }
    }
    let mut out = vec![];
    for u in &cand[0] {
        for v in &cand[1] {
            if (u.dot(&(g * v)) - g[(0, 1)]).abs() >= tol {
                continue;
            }
            for w in &cand[2] {
                if (u.dot(&(g * w)) - g[(0, 2)]).abs() < tol && (v.dot(&(g * w)) - g[(1, 2)]).abs() < tol {
                    let m = M3::from_columns(&[*u, *v, *w]);
                    if (m.determinant().abs() - 1.0).abs() < 0.5 {
                        out.push(m);
                    }
                }
            }
        }
    }
    out
}

/// A reduced basis of the lattice (short vectors), as the integer matrix taking l to it.
pub fn short_basis(l: &M3) -> M3 {
    let mut m = M3::identity();
    for _ in 0..200 {
        let mut changed = false;
        for i in 0..3 {
            for x in -1..=1 {
                for y in -1..=1 {
                    let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                    let c = m.column(i) + m.column(j) * x as f64 + m.column(k) * y as f64;
                    if (l * c).norm() < (l * m.column(i)).norm() - 1e-9 {
                        let c: V3 = c.into();
                        m.set_column(i, &c);
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    m
}

/// All symmetry operations (R, t) of a crystal in its own basis, one per rotation and translation modulo the lattice.
pub fn symmetry(c: &Crystal, tol: f64) -> Vec<(M3, V3)> {
    let q = short_basis(&c.l);
    let s = c.l * q;
    let qi = q.try_inverse().unwrap();
    let mut out: Vec<(M3, V3)> = vec![];
    // the rarest species gives the candidate translations
    let mut best = &c.sp[0];
    for s in &c.sp {
        let n = |t: &String| c.sp.iter().filter(|x| *x == t).count();
        if n(s) < n(best) {
            best = s;
        }
    }
    let idx: Vec<usize> = (0..c.f.len()).filter(|&k| &c.sp[k] == best).collect();
    for r in metric_ops(&(s.transpose() * s), tol) {
        let rot = (q * r * qi).map(|x| x.round());
        for &j in &idx {
            let t = c.f[j] - rot * c.f[idx[0]];
            if maps_to_self(c, &rot, &t, tol) && !out.iter().any(|(a, b)| *a == rot && dist_mod(&c.l, b, &t) < tol * 2.0) {
                out.push((rot, t));
            }
        }
    }
    out
}
