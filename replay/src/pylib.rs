//! What the library computes for one call of the Python interface; compared with the interface by the C18 check.
use crate::common::*;
use crate::json_str;
use crate::sym::any_crystal;
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::reduce::Reducer;
use crystsymm::structure::Structure;

fn nums<'a>(v: impl Iterator<Item = &'a f64>) -> String {
    format!("[{}]", v.map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(", "))
}

fn cell(s: &Structure) -> String {
    let l: Vec<f64> = (0..3).flat_map(|k| (0..3).map(move |j| (j, k))).map(|(j, k)| s.lattice[(j, k)]).collect();
    format!(
        "[{}, [{}], [{}]]",
        nums(l.iter()),
        s.species.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        s.frac_coords.iter().map(|v| nums([v.x, v.y, v.z].iter())).collect::<Vec<_>>().join(", ")
    )
}

pub const FUNCTIONS: [&str; 5] = ["find_primitive", "niggli_reduce", "get_space_group_info", "get_standard_conventional_structure", "get_standard_primitive_structure"];

/// Calls of the Python interface: asymmetric lattices, both coordinate kinds, all functions.
pub fn calls(seed: u64, n: usize) -> Input {
    let mut out = Input::new("calls").put("calls", &[n as f64]);
    for k in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(7_000_003).wrapping_add(k as u64));
        let c = any_crystal(&mut r, k as u64);
        let cart = (k / 5) % 2 == 1;
        let f = FUNCTIONS[k % 5];
        let tol = if f == "niggli_reduce" { vec![*r.pick(&[1e-5, 1e-4])] } else { vec![*r.pick(&[0.01, 0.02, 0.04]), 5.0] };
        let x: Vec<V3> = c.f.iter().map(|v| if cart { c.l * v } else { *v }).collect();
        let g = |s: &str| format!("{}{}", s, k);
        out = out
            .put(&g("l"), c.l.as_slice())
            .puts(&g("sp"), &c.sp)
            .put(&g("x"), &flat(&x))
            .put(&g("cart"), &[if cart { 1.0 } else { 0.0 }])
            .put(&g("tol"), &tol)
            .puts(&g("fn"), &[f.to_string()]);
    }
    out
}

/// kind = name of the Python function; several calls may be given in one file, numbered.
pub fn run(i: &Input) -> String {
    let n = i.num("calls") as usize;
    let mut out = vec![];
    for k in 0..n {
        let g = |s: &str| format!("{}{}", s, k);
        let v = i.nums(&g("l"));
        let l = M3::new(v[0], v[3], v[6], v[1], v[4], v[7], v[2], v[5], v[8]);
        let sp = i.strs(&g("sp"));
        let co = i.vecs(&g("x"));
        let cart = i.num(&g("cart")) != 0.0;
        let t = i.nums(&g("tol"));
        let f = i.strs(&g("fn"))[0].clone();
        let r = lib(|| {
            let s = Structure::new(l, sp.clone(), co.clone(), cart);
            match f.as_str() {
                "find_primitive" => cell(&Reducer { dtol: t[0], atol: t[1] }.find_primitive_cell(&s)),
                "niggli_reduce" => cell(&Reducer::default().niggli_reduce(&s, &t[0])),
                "delaunay_reduce" => cell(&Reducer::default().delaunay_reduce(&s, t[0] != 0.0)),
                "get_standard_conventional_structure" => cell(&SymmetryAnalyzer { dtol: t[0], atol: t[1] }.get_standard_conventional_structure(&s)),
                "get_standard_primitive_structure" => cell(&SymmetryAnalyzer { dtol: t[0], atol: t[1] }.get_standard_primitive_structure(&s)),
                "get_space_group_info" => {
                    let (n, sym, sg) = SymmetryAnalyzer { dtol: t[0], atol: t[1] }.get_space_group_info(&s);
                    let ops: Vec<String> = sg
                        .operations
                        .iter()
                        .map(|o| {
                            let r: Vec<String> = (0..9).map(|e| o.rotation[(e / 3, e % 3)].to_string()).collect();
                            format!("[[{}], {}]", r.join(", "), nums([o.translation.x, o.translation.y, o.translation.z].iter()))
                        })
                        .collect();
                    format!("[{}, {}, [{}]]", n, json_str(&sym), ops.join(", "))
                }
                _ => "null".into(),
            }
        });
        out.push(match r {
            Ok(s) => s,
            Err(e) => format!("{{\"panic\": {}}}", json_str(&e)),
        });
    }
    format!("[{}]", out.join(",\n"))
}
