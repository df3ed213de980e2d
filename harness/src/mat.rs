//! Recorder for the `matrix` and `polynomial` crates (C18)
use crate::common::*;
use matrix::{GenericMatrix, Matrix, NDiagGenericMatrix};
use polynomial::{poly, Polynomial};

fn rows(m: &Matrix) -> Value {
    let (r, c) = m.size();
    json!((0..r).map(|i| fs(&(0..c).map(|j| m.as_slice()[i * c + j]).collect::<Vec<_>>())).collect::<Vec<_>>())
}
fn num(r: &mut Rng, int: bool) -> f64 {
    if int {
        r.range(-6, 6) as f64
    } else {
        r.uni(-10., 10.)
    }
}
fn rand(r: &mut Rng, nr: usize, nc: usize, int: bool) -> Matrix {
    Matrix::from_data(nr, nc, (0..nr * nc).map(|_| num(r, int)).collect())
}
fn res<T>(x: &Result<T, (&'static str, String)>) -> &'static str {
    match x {
        Ok(_) => "ok",
        Err((k, _)) => k,
    }
}

trait Elem {
    fn g(&self, r: usize, c: usize) -> Result<f64, String>;
    fn s(&mut self, k: &str, r: usize, c: usize, v: f64) -> Result<(), String>;
    fn dump(&self) -> Value;
}
impl Elem for Matrix {
    fn g(&self, r: usize, c: usize) -> Result<f64, String> {
        self.get(r, c)
    }
    fn s(&mut self, k: &str, r: usize, c: usize, v: f64) -> Result<(), String> {
        match k {
            "set" => self.set(r, c, v).map(|_| ()),
            "add_to" => self.add_to_element(r, c, v),
            _ => self.scale_element(r, c, v),
        }
    }
    fn dump(&self) -> Value {
        rows(self)
    }
}
impl<const N: usize> Elem for NDiagGenericMatrix<N, f64> {
    fn g(&self, r: usize, c: usize) -> Result<f64, String> {
        self.get(r, c)
    }
    fn s(&mut self, k: &str, r: usize, c: usize, v: f64) -> Result<(), String> {
        match k {
            "set" => self.set(r, c, v).map(|_| ()),
            "add_to" => self.add_to_element(r, c, v).map(|_| ()),
            _ => self.scale_element(r, c, v).map(|_| ()),
        }
    }
    fn dump(&self) -> Value {
        let (r, c) = self.size();
        json!((0..r).map(|i| (0..c).map(|j| f(self.get(i, j).unwrap_or(f64::NAN))).collect::<Vec<_>>()).collect::<Vec<_>>())
    }
}
fn elements(w: &mut W, m: &mut dyn Elem, ops: &[(String, usize, usize, f64)]) {
    for (k, r, c, v) in ops {
        if k == "get" {
            let x = guard_res(|| m.g(*r, *c));
            w.ev(json!({"op": "get", "r": r, "c": c, "res": res(&x), "v": f(x.unwrap_or(0.))}));
        } else {
            let x = guard_res(|| m.s(k, *r, *c, *v));
            w.ev(json!({"op": k, "r": r, "c": c, "v": f(*v), "res": res(&x), "m": m.dump()}));
        }
    }
}
fn ndiag<const N: usize>(w: &mut W, r: &mut Rng, nr: usize, nc: usize, ops: &[(String, usize, usize, f64)]) {
    let v = num(r, true);
    let x = guard(|| NDiagGenericMatrix::<N, f64>::new(v, nr, nc));
    let Ok(mut m) = x else {
        w.ev(json!({"op": "new", "how": "fill", "res": "panic", "v": f(v), "nr": nr, "nc": nc, "half": (N - 1) / 2}));
        return;
    };
    w.ev(json!({"op": "new", "how": "fill", "res": "ok", "v": f(v), "nr": nr, "nc": nc, "half": (N - 1) / 2, "m": m.dump(),
        "rows": m.size().0, "cols": m.size().1}));
    elements(w, &mut m, ops);
    // fill the band with distinguishable values and multiply
    for i in 0..nr {
        for j in 0..nc {
            if i.abs_diff(j) <= (N - 1) / 2 {
                let v = num(r, false);
                let x = guard_res(|| m.set(i, j, v));
                w.ev(json!({"op": "set", "r": i, "c": j, "v": f(v), "res": res(&x), "m": m.dump()}));
            }
        }
    }
    for len in [nc, nc + 1] {
        if nr != nc {
            break;
        }
        let x: Vec<f64> = (0..len).map(|_| num(r, false)).collect();
        let mut out = vec![num(r, false); nc];
        let o = guard_res(|| m.column_prod_into(&x, &mut out));
        w.ev(json!({"op": "col_prod", "x": fs(&x), "nout": out.len(), "out": fs(&out), "res": res(&o)}));
    }
    if r.bool() {
        let s = num(r, false);
        m *= s;
        w.ev(json!({"op": "mul_assign", "v": f(s), "res": "ok", "m": m.dump()}));
    }
    let s = num(r, false);
    let mut into = NDiagGenericMatrix::<N, f64>::new(7., nr, nc);
    let o = guard_res(|| m.scale_into(s, &mut into));
    w.ev(json!({"op": "scale", "v": f(s), "into": m.dump(), "res": res(&o), "out": into.dump(), "m": m.dump()}));
    // a dominant diagonal makes the system solvable
    if nr == nc {
        for k in 0..nr {
            let v = 60. * N as f64 * if r.bool() { 1. } else { -1. };
            let x = guard_res(|| m.set(k, k, v));
            w.ev(json!({"op": "set", "r": k, "c": k, "v": f(v), "res": res(&x), "m": m.dump()}));
        }
        let b: Vec<f64> = (0..nr).map(|_| num(r, false)).collect();
        let mut x = b.clone();
        let before = m.dump();
        let o = guard_res(|| m.mut_gaussian(&mut x));
        let col = |v: &[f64]| json!(v.iter().map(|k| vec![f(*k)]).collect::<Vec<_>>());
        let after = if o.is_ok() { before } else { m.dump() };
        w.ev(json!({"op": "solve", "b": col(&b), "x": col(&x), "regular": true, "res": res(&o), "m": after}));
    }
}

/// the polynomial of at most twelve coefficients, written with the macro
fn written(c: &[f64]) -> Polynomial {
    match c.len() {
        0 => poly![],
        1 => poly![c[0]],
        2 => poly![c[0], c[1]],
        3 => poly![c[0], c[1], c[2]],
        4 => poly![c[0], c[1], c[2], c[3]],
        5 => poly![c[0], c[1], c[2], c[3], c[4]],
        6 => poly![c[0], c[1], c[2], c[3], c[4], c[5]],
        7 => poly![c[0], c[1], c[2], c[3], c[4], c[5], c[6]],
        8 => poly![c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]],
        9 => poly![c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]],
        10 => poly![c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9]],
        11 => poly![c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10]],
        12 => poly![c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11]],
        _ => panic!("too many"),
    }
}
pub fn matrix(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(181);
    // histories generated from the specification
    for s in a.read_scenarios() {
        let (nr, nc, half) = (s[0]["nr"].as_u64().unwrap() as usize, s[0]["nc"].as_u64().unwrap() as usize, s[0]["half"].as_i64().unwrap());
        let ops: Vec<(String, usize, usize, f64)> = s[1]
            .as_array()
            .unwrap()
            .iter()
            .map(|o| (o[0].as_str().unwrap().into(), o[1].as_u64().unwrap() as usize, o[2].as_u64().unwrap() as usize, o[3].as_i64().unwrap() as f64))
            .collect();
        w.begin(s.to_string());
        match half {
            0 => ndiag::<1>(&mut w, &mut r, nr, nc, &ops),
            1 => ndiag::<3>(&mut w, &mut r, nr, nc, &ops),
            2 => ndiag::<5>(&mut w, &mut r, nr, nc, &ops),
            _ => {
                let v = num(&mut r, true);
                let mut m = GenericMatrix::new(v, nr, nc);
                w.ev(json!({"op": "new", "how": "fill", "res": "ok", "v": f(v), "nr": nr, "nc": nc, "half": -1, "m": rows(&m),
                    "rows": m.size().0, "cols": m.size().1}));
                elements(&mut w, &mut m, &ops);
            }
        }
    }
    for _ in 0..a.n(500, 4000) {
        let n = 1 + r.below(9);
        w.begin(format!("ndiag {n}"));
        match r.below(4) {
            0 => ndiag::<1>(&mut w, &mut r, n, n, &[]),
            1 => ndiag::<5>(&mut w, &mut r, n, n, &[]),
            2 => ndiag::<7>(&mut w, &mut r, n, n, &[]),
            _ => ndiag::<3>(&mut w, &mut r, n, n, &[]),
        }
    }
    // whole-matrix algebra
    for _ in 0..a.n(2500, 15000) {
        let int = r.bool();
        let (nr, nc) = (1 + r.below(6), 1 + r.below(6));
        w.begin("algebra");
        let d: Vec<f64> = (0..nr * nc).map(|_| num(&mut r, int)).collect();
        let mut m = Matrix::from_data(nr, nc, d.clone());
        w.ev(json!({"op": "new", "how": "data", "res": "ok", "d": fs(&d), "nr": nr, "nc": nc, "half": -1, "m": rows(&m),
            "rows": m.size().0, "cols": m.size().1}));
        for _ in 0..6 {
            let (nr, nc) = m.size();
            let (onr, onc) = if r.chance(0.25) { (1 + r.below(6), 1 + r.below(6)) } else { (nr, nc) };
            let o = rand(&mut r, onr, onc, int);
            let s = {
                let s = num(&mut r, int);
                if s == 0. {
                    2.
                } else {
                    s
                }
            };
            match r.below(12) {
                0 => {
                    let before = m.clone();
                    let x = guard(|| m += &o);
                    if x.is_err() {
                        m = before;
                    }
                    w.ev(json!({"op": "add_assign", "other": rows(&o), "res": if x.is_ok() {"ok"} else {"panic"}, "m": rows(&m)}));
                }
                1 => {
                    let before = m.clone();
                    let x = guard(|| m -= &o);
                    if x.is_err() {
                        m = before;
                    }
                    w.ev(json!({"op": "sub_assign", "other": rows(&o), "res": if x.is_ok() {"ok"} else {"panic"}, "m": rows(&m)}));
                }
                2 => {
                    m *= s;
                    w.ev(json!({"op": "mul_assign", "v": f(s), "res": "ok", "m": rows(&m)}));
                }
                3 => {
                    m /= s;
                    w.ev(json!({"op": "div_assign", "v": f(s), "res": "ok", "m": rows(&m)}));
                }
                4 => {
                    let o = if onc == nc { o } else { rand(&mut r, onr, nc, int) };
                    let o = if r.chance(0.2) { rand(&mut r, 1 + onr, nc + 1, int) } else { o };
                    let x = guard_res(|| m.concat_rows(&o));
                    w.ev(json!({"op": "concat", "other": rows(&o), "res": res(&x), "m": rows(&m)}));
                }
                5 => {
                    let x = guard(|| m.copy_from(&o));
                    w.ev(json!({"op": "copy_from", "other": rows(&o), "res": if x.is_ok() {"ok"} else {"panic"}, "m": rows(&m)}));
                }
                6 | 7 => {
                    let add = r.bool();
                    let into_form = r.bool();
                    let x = if into_form {
                        let mut into = rand(&mut r, nr, nc, int);
                        guard_res(|| if add { m.add_into(&o, &mut into) } else { m.sub_into(&o, &mut into) }).map(|_| into)
                    } else {
                        guard(|| if add { &m + &o } else { &m - &o }).map_err(|e| ("panic", e))
                    };
                    w.ev(json!({"op": if add {"add"} else {"sub"}, "other": rows(&o), "res": res(&x), "m": rows(&m),
                        "out": x.map(|x| rows(&x)).unwrap_or(json!([]))}));
                }
                8 => {
                    let how = r.below(3);
                    let into0 = rand(&mut r, onr, onc, int);
                    let mut into = into0.clone();
                    let (x, into_rows, v) = match how {
                        0 => (guard_res(|| m.scale_into(s, &mut into)).map(|_| into), rows(&into0), s),
                        1 => (guard(|| &m * s).map_err(|e| ("panic", e)), rows(&m), s),
                        _ => (guard(|| &m / s).map_err(|e| ("panic", e)), rows(&m), 1. / s),
                    };
                    w.ev(json!({"op": "scale", "v": f(v), "into": into_rows, "res": res(&x), "m": rows(&m),
                        "out": x.map(|x| rows(&x)).unwrap_or(json!([]))}));
                }
                9 => {
                    let k = 1 + r.below(6);
                    let inner = if r.chance(0.15) { nc + 1 } else { nc };
                    let o = rand(&mut r, inner, k, int);
                    let (ir, ic) = if r.chance(0.15) { (nr + 1, k) } else { (nr, k) };
                    let op = r.bool();
                    let mut into = rand(&mut r, if op { nr } else { ir }, ic, int);
                    let into_rows = rows(&into);
                    let x = if op {
                        guard(|| &m * &o).map_err(|e| ("panic", e))
                    } else {
                        guard_res(|| m.prod_into(&o, &mut into)).map(|_| into)
                    };
                    w.ev(json!({"op": "prod", "other": rows(&o), "into": into_rows, "res": res(&x), "m": rows(&m),
                        "out": x.map(|x| rows(&x)).unwrap_or(json!([]))}));
                }
                10 => {
                    let k = 1 + r.below(4);
                    let half = r.below(3);
                    let inner = if r.chance(0.1) { nc + 1 } else { nc };
                    let o = rand(&mut r, inner, k, int);
                    let mut into = rand(&mut r, nr, k, int);
                    let into_rows = rows(&into);
                    let x = match r.below(2) {
                        0 if half == 1 => guard_res(|| m.prod_tri_diag_into(&o, &mut into)).map(|_| into),
                        0 => guard_res(|| m.from_prod_n_diag(&o, 2 * half + 1)),
                        _ => guard_res(|| m.prod_n_diag_into(&o, 2 * half + 1, &mut into)).map(|_| into),
                    };
                    w.ev(json!({"op": "band_prod", "half": half, "other": rows(&o), "into": into_rows, "res": res(&x), "m": rows(&m),
                        "out": x.map(|x| rows(&x)).unwrap_or(json!([]))}));
                }
                _ => {
                    let mut o = if r.bool() { m.clone() } else { o };
                    if r.bool() {
                        let (a, b) = o.size();
                        let (i, j) = (r.below(a), r.below(b));
                        let _ = o.add_to_element(i, j, 1e-3);
                    }
                    let x = guard(|| m.compare(&o)).map_err(|e| ("panic", e));
                    w.ev(json!({"op": "compare", "other": rows(&o), "res": res(&x), "v": x.unwrap_or(false)}));
                }
            }
        }
    }
    for _ in 0..a.n(60, 400) {
        let n = 1 + r.below(6);
        w.begin("constructors");
        let m = Matrix::eye(n);
        w.ev(json!({"op": "new", "how": "eye", "res": "ok", "nr": n, "nc": n, "half": -1, "m": rows(&m), "rows": m.size().0, "cols": m.size().1}));
        w.begin("constructors");
        let d: Vec<f64> = (0..n).map(|_| num(&mut r, false)).collect();
        let m = Matrix::diag(d.clone());
        w.ev(json!({"op": "new", "how": "diag", "res": "ok", "d": fs(&d), "nr": n, "nc": n, "half": -1, "m": rows(&m), "rows": m.size().0, "cols": m.size().1}));
        w.begin("constructors");
        let x = guard(|| Matrix::from_data(n, 2, vec![0.; 2 * n + 1 + r.below(3)]));
        w.ev(json!({"op": "new_bad", "res": if x.is_ok() {"ok"} else {"panic"}}));
    }
    // linear systems
    for _ in 0..a.n(1200, 8000) {
        let n = 1 + r.below(8);
        let half = r.below(n.min(4));
        let mut m = Matrix::new(0., n, n);
        for i in 0..n {
            for j in 0..n {
                if i.abs_diff(j) <= half {
                    let v = if r.chance(0.15) { 0. } else { num(&mut r, false) };
                    m.set(i, j, v).unwrap();
                }
            }
            let d = 25. * (half + 1) as f64 * if r.bool() { 1. } else { -1. };
            m.set(i, i, d).unwrap();
        }
        let singular = r.chance(0.1);
        if singular {
            // a null row
            let k = r.below(n);
            for j in 0..n {
                m.set(k, j, 0.).unwrap();
            }
        }
        w.begin("solve");
        w.ev(json!({"op": "new", "how": "data", "res": "ok", "d": fs(m.as_slice()), "nr": n, "nc": n, "half": -1, "m": rows(&m),
            "rows": n, "cols": n}));
        let k = 1 + r.below(3);
        let b = rand(&mut r, n, k, false);
        let mutating = r.bool();
        let x = if mutating {
            let mut a2 = m.clone();
            let mut b2 = b.clone();
            guard_res(|| a2.mut_n_diag_gaussian(&mut b2, 2 * half + 1)).map(|_| b2)
        } else {
            guard_res(|| m.n_diag_gaussian(&b, 2 * half + 1))
        };
        w.ev(json!({"op": "solve", "b": rows(&b), "regular": !singular, "res": res(&x), "m": rows(&m), "x": x.map(|x| rows(&x)).unwrap_or(json!([]))}));
        if !singular {
            let wrong = r.chance(0.1);
            let b = rand(&mut r, if wrong { n + 1 } else { n }, 1, false);
            let mut x = rand(&mut r, n, 1, false);
            let o = guard_res(|| m.gauss_seidel(&b, &mut x, 10_000, 1e-10));
            w.ev(json!({"op": "seidel", "b": rows(&b), "square": !wrong, "res": res(&o), "x": rows(&x), "m": rows(&m)}));
            if half > 0 && n > 2 {
                let b = rand(&mut r, n, 1, false);
                let mut x = Matrix::new(1e9, n, 1);
                let o = guard_res(|| m.gauss_seidel(&b, &mut x, 1, 1e-9));
                w.ev(json!({"op": "seidel_short", "res": res(&o)}));
            }
        }
    }
    // polynomials
    for _ in 0..a.n(200, 3000) {
        let n = r.below(15);
        let cs: Vec<f64> = (0..n).map(|_| num(&mut r, false)).collect();
        let mut p = Polynomial::new();
        let ok = guard(|| {
            for c in &cs {
                p.push(*c);
            }
        });
        let xs: Vec<f64> = (0..4).map(|k| if k == 0 { 0. } else { num(&mut r, k == 1) / 3. }).collect();
        // rounding: relative to the sum of the magnitudes of the terms
        let scale: Vec<f64> = xs.iter().map(|x| 1e-12 * cs.iter().enumerate().map(|(i, c)| c.abs() * x.abs().powi(i as i32)).sum::<f64>()).collect();
        let mut ev = |p: &Polynomial, ok: bool| {
            let ys: Vec<f64> = xs.iter().map(|x| p.eval(*x)).collect();
            w.one(json!({"op": "poly", "cs": fs(&cs), "n": p.len(), "empty": p.is_empty(), "xs": fs(&xs), "ys": fs(&ys), "scale": fs(&scale), "res": if ok {"ok"} else {"panic"}}));
        };
        ev(&p, ok.is_ok());
        if cs.len() <= 12 {
            ev(&written(&cs), true);
        }
    }
    w.finish();
}
