//! Recorder for loops and polygons (C20) and triangulations (C21): vertices are lattice points of a plane somewhere in space
use crate::common::*;
use geometry::{Loop3D, Point3D, Polygon3D, Segment3D, Triangulation3D, Vector3D};
use std::convert::TryInto;

pub struct Frame {
    pub o: Point3D,
    pub u: Vector3D,
    pub v: Vector3D,
    pub n: Vector3D,
    pub s: f64,
    /// its points are computed without rounding
    pub exact: bool,
}
/// what is not a lattice point
const OFF: i64 = -9999;
impl Frame {
    pub fn new(r: &mut Rng) -> Self {
        let s = *r.pick(&[0.05, 0.5, 1.0, 1.0, 2.0, 3.7, 50.]);
        let o = Point3D::new(r.range(-20, 20) as f64, r.range(-20, 20) as f64, r.range(-5, 20) as f64);
        let e = |x: f64, y: f64, z: f64| Vector3D::new(x, y, z);
        let kind = r.below(8);
        let (u, v) = match kind {
            0 => (e(1., 0., 0.), e(0., 1., 0.)),
            1 => (e(0., 1., 0.), e(0., 0., 1.)),
            2 => (e(1., 0., 0.), e(0., 0., 1.)),
            3 => (e(0.6, 0.8, 0.), e(-0.8, 0.6, 0.)),
            4 => (e(0.6, 0.8, 0.), e(0., 0., 1.)),
            5 => (e(1., 0., 0.), e(0., 0.8, 0.6)),
            _ => {
                // any plane
                let a = e(r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.));
                let b = e(r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.) + 2.);
                let u = a.get_normalized();
                let v = (b - u * (b * u)).get_normalized();
                (u, v)
            }
        };
        Frame { o, u, v, n: u.cross(v), s, exact: kind < 3 && [0.5, 1., 2.].contains(&s) }
    }
    pub fn at(&self, p: &Value, off: i64) -> Point3D {
        let (x, y) = (p[0].as_f64().unwrap(), p[1].as_f64().unwrap());
        self.o + self.u * (x * self.s) + self.v * (y * self.s) + self.n * (off as f64 * self.s * 0.01)
    }
    pub fn back(&self, p: Point3D) -> Value {
        let d = p - self.o;
        let (x, y, z) = (d * self.u / self.s, d * self.v / self.s, d * self.n / self.s);
        if z.abs() > 1e-6 || (x - x.round()).abs() > 1e-6 || (y - y.round()).abs() > 1e-6 {
            return json!([OFF, OFF]);
        }
        json!([x.round() as i64, y.round() as i64])
    }
    pub fn path(&self, l: &Loop3D) -> Value {
        Value::Array(l.vertices().iter().map(|p| self.back(*p)).collect())
    }
    /// which way a normal points: 1 along n, -1 against it, 0 neither
    pub fn side(&self, n: Vector3D) -> i64 {
        if (n - self.n).length() < 1e-6 {
            1
        } else if (n + self.n).length() < 1e-6 {
            -1
        } else {
            0
        }
    }
    /// a length and an area in lattice units
    fn len(&self, l: f64) -> Value {
        f(l / self.s)
    }
    fn area(&self, a: f64) -> Value {
        f(a / (self.s * self.s))
    }
}
fn res<T>(r: &Result<T, (&'static str, String)>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err((k, _)) => k,
    }
}
fn build(fr: &Frame, path: &Value) -> Result<Loop3D, String> {
    let mut l = Loop3D::new();
    for p in path.as_array().unwrap() {
        l.push(fr.at(p, 0))?;
    }
    l.close()?;
    Ok(l)
}
fn scaled(p: &Value, k: i64) -> Value {
    json!([p[0].as_i64().unwrap() * k, p[1].as_i64().unwrap() * k])
}
fn scaled_path(p: &Value, k: i64) -> Value {
    Value::Array(p.as_array().unwrap().iter().map(|x| scaled(x, k)).collect())
}
fn measures(fr: &Frame, l: &Loop3D) -> Value {
    let g = |x: Result<f64, String>| x.unwrap_or(f64::NAN);
    let c = l.centroid().map(|c| {
        let d = c - fr.o;
        fs(&[d * fr.u / fr.s, d * fr.v / fr.s])
    });
    let b = l.bbox().unwrap();
    let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
    for p in l.vertices() {
        for (k, x) in [p.x, p.y, p.z].iter().enumerate() {
            lo[k] = lo[k].min(*x);
            hi[k] = hi[k].max(*x);
        }
    }
    let boxed = lo == [b.min.x, b.min.y, b.min.z] && hi == [b.max.x, b.max.y, b.max.z];
    json!({"area": fr.area(g(l.area())), "perimeter": fr.len(g(l.perimeter())), "centroid": c.unwrap_or(json!([])),
        "side": fr.side(l.normal()), "boxed": boxed, "closed": l.closed()})
}
/// points of the lattice, around and between the vertices
fn query(fr: &Frame, r: &mut Rng, verts: &Value, n: usize, test: &dyn Fn(Point3D) -> Result<bool, String>) -> Value {
    let vs: Vec<(i64, i64)> = verts.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect();
    let (x0, x1) = (vs.iter().map(|p| p.0).min().unwrap() - 1, vs.iter().map(|p| p.0).max().unwrap() + 1);
    let (y0, y1) = (vs.iter().map(|p| p.1).min().unwrap() - 1, vs.iter().map(|p| p.1).max().unwrap() + 1);
    let mut ret = vec![];
    for i in 0..n {
        let (x, y) = if i % 4 == 0 {
            // half way between two vertices
            let (a, b) = (*r.pick(&vs), *r.pick(&vs));
            ((a.0 + b.0) / 2, (a.1 + b.1) / 2)
        } else {
            (r.range(x0, x1), r.range(y0, y1))
        };
        let off = if i % 11 == 10 { *r.pick(&[-1, 1, 30]) } else { 0 };
        let a = match guard_res(|| test(fr.at(&json!([x, y]), off))) {
            Ok(true) => "in",
            Ok(false) => "out",
            Err((k, _)) => k,
        };
        ret.push(json!([x, y, off, a]));
    }
    Value::Array(ret)
}
/// pairs of segments between vertices and points around them
fn segments(w: &mut W, fr: &Frame, r: &mut Rng, verts: &Value) {
    let vs: Vec<(i64, i64)> = verts.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect();
    if vs.is_empty() || vs.iter().any(|v| v.0 == OFF) {
        return;
    }
    let point = |r: &mut Rng| {
        let p = *r.pick(&vs);
        if r.chance(0.6) { json!([p.0, p.1]) } else { json!([p.0 + r.range(-3, 3), p.1 + r.range(-3, 3)]) }
    };
    let xy = |p: Point3D| {
        let d = p - fr.o;
        fs(&[d * fr.u / fr.s, d * fr.v / fr.s])
    };
    let mut list = vec![];
    for _ in 0..12 {
        let (a, b, mut c, mut d) = (point(r), point(r), point(r), point(r));
        let mid = |k: i64, n: i64| json!([a[0].as_i64().unwrap() + (b[0].as_i64().unwrap() - a[0].as_i64().unwrap()) * k / n, a[1].as_i64().unwrap() + (b[1].as_i64().unwrap() - a[1].as_i64().unwrap()) * k / n]);
        if r.chance(0.25) {
            c = mid(1, 2);
        }
        if r.chance(0.15) {
            d = mid(r.range(-1, 2), 2);
        }
        if a == b || c == d {
            continue;
        }
        let off = if r.chance(0.1) { 100 } else { 0 };
        let (s, t) = (Segment3D::new(fr.at(&a, 0), fr.at(&b, 0)), Segment3D::new(fr.at(&c, off), fr.at(&d, off)));
        let yes = |x: Result<bool, String>| match x {
            Ok(true) => "yes",
            Ok(false) => "no",
            Err(_) => "panic",
        };
        let mut p = fr.o;
        let touches = yes(guard(|| s.touches(&t, &mut p)));
        let mut q = fr.o;
        let crosses = yes(guard(|| s.intersect(&t, &mut q)));
        list.push(json!({"a": a, "b": b, "c": c, "d": d, "off": off, "exact": fr.exact, "touches": touches, "at": xy(p), "crosses": crosses, "cat": xy(q), "contains": yes(guard(|| s.contains(&t).unwrap())),
            "same": [s.compare(&s), s.compare(&Segment3D::new(s.end(), s.start())), s.compare(&t)], "length": fr.len(s.length()), "mid": xy(s.midpoint())}));
    }
    w.ev(json!({"op": "segments", "list": list}));
}
fn finished(w: &mut W, fr: &Frame, r: &mut Rng, l: &Loop3D) {
    segments(w, fr, r, &fr.path(l));
    let verts = fr.path(l);
    w.ev(json!({"op": "points", "points": query(fr, r, &verts, 40, &|p| l.test_point(p))}));
    // reversed
    let rl = l.get_reversed();
    w.ev(json!({"op": "reversed", "verts": fr.path(&rl), "m": measures(fr, &rl)}));
    // every pair of vertices as a diagonal and as a side
    let n = l.len();
    let (mut diags, mut sides) = (vec![], vec![]);
    for i in 0..n {
        for j in 0..n {
            if i != j {
                let s = Segment3D::new(l[i], l[j]);
                if i < j {
                    let a = match guard_res(|| l.is_diagonal(s)) {
                        Ok(true) => "yes",
                        Ok(false) => "no",
                        Err((k, _)) => k,
                    };
                    diags.push(json!([i + 1, j + 1, a]));
                }
                if l.contains_segment(&s) {
                    sides.push(json!([i + 1, j + 1]));
                }
            }
        }
    }
    w.ev(json!({"op": "diagonals", "diags": diags, "sides": sides}));
    // the same vertices in another order, and others
    for k in 0..4 {
        let mut vs: Vec<Point3D> = l.vertices().to_vec();
        let m = r.below(n);
        vs.rotate_left(m);
        if k % 2 == 1 {
            vs.reverse();
        }
        if k == 2 {
            vs[0] = vs[0] + (vs[1] - vs[0]) * 0.5 + (vs[n - 1] - vs[0]) * 0.25;
        }
        if k == 3 {
            for p in vs.iter_mut() {
                *p = *p + fr.u * fr.s;
            }
        }
        let o = guard_res(|| -> Result<Loop3D, String> {
            let mut o = Loop3D::new();
            for p in &vs {
                o.push(*p)?;
            }
            o.close()?;
            Ok(o)
        });
        if let Ok(o) = o {
            if o.len() != n {
                continue;
            }
            let a = [guard_res(|| l.is_equal(&o, 0.01)), guard_res(|| o.is_equal(l, 0.01)), guard_res(|| l.is_equal(&o.get_reversed(), 0.01))];
            let a: Vec<&str> = a.iter().map(|x| match x { Ok(true) => "yes", Ok(false) => "no", Err((k, _)) => *k }).collect();
            w.ev(json!({"op": "equal", "same": k < 2, "answers": a}));
        }
    }
    // written and read
    let txt = serde_json::to_string(l).unwrap();
    let back = guard_res(|| serde_json::from_str::<Loop3D>(&txt));
    match back {
        Ok(b) => w.ev(json!({"op": "read", "res": "ok", "verts": fr.path(&b), "m": measures(fr, &b)})),
        Err((k, _)) => w.ev(json!({"op": "read", "res": k, "verts": [], "m": {}})),
    }
}
fn a_loop(w: &mut W, r: &mut Rng, s: &Value) {
    let fr = Frame::new(r);
    w.begin(s.to_string());
    w.ev(json!({"op": "start"}));
    let mut l = Loop3D::new();
    let ops = s["ops"].as_array().unwrap();
    for o in ops {
        if o["op"] == "push" {
            // lattice points of even coordinates, so that half way is a lattice point too
            let p = scaled(&o["p"], 2);
            let (off, merge) = (o["off"].as_i64().unwrap(), o["merge"].as_bool().unwrap());
            let a = guard_res(|| if merge { l.push(fr.at(&p, off)) } else { l.push_collinear(fr.at(&p, off), false) });
            w.ev(json!({"op": "push", "p": p, "off": off, "merge": merge, "res": res(&a), "verts": fr.path(&l), "closed": l.closed()}));
        } else {
            let a = guard_res(|| l.close());
            if a.is_ok() {
                w.ev(json!({"op": "close", "res": "ok", "verts": fr.path(&l), "m": measures(&fr, &l)}));
            } else {
                w.ev(json!({"op": "close", "res": res(&a), "verts": fr.path(&l), "m": {}}));
                if l.len() < 3 {
                    return;
                }
            }
        }
    }
    if l.closed() && l.area().is_ok() && l.len() >= 3 {
        // one more vertex, one more close
        let p = json!([4, 5]);
        let mut l2 = l.clone();
        let a = guard_res(|| l2.push(fr.at(&p, 0)));
        w.ev(json!({"op": "push", "p": p, "off": 0, "merge": true, "res": res(&a), "verts": fr.path(&l2), "closed": l2.closed()}));
        finished(w, &fr, r, &l);
    }
}
pub struct Poly {
    pub fr: Frame,
    pub poly: Polygon3D,
}
/// The polygon of a scenario; its events unless quiet.  Stops at the first hole that is accepted where it may or may not be.
fn a_polygon(w: &mut W, r: &mut Rng, s: &Value, tri: bool) {
    let fr = Frame::new(r);
    let k = if tri { 1 } else { 2 };
    w.begin(s.to_string());
    let ops = s["ops"].as_array().unwrap();
    let path = scaled_path(&ops[0]["path"], k);
    let Ok(outer) = build(&fr, &path) else {
        w.ev(json!({"op": "poly", "path": path, "res": "err"}));
        return;
    };
    let mut poly = Polygon3D::new(outer).unwrap();
    w.ev(json!({"op": "poly", "path": path, "res": "ok", "area": fr.area(poly.area()), "side": fr.side(poly.normal())}));
    for o in &ops[1..] {
        let path = scaled_path(&o["path"], k);
        let Ok(hole) = build(&fr, &path) else { continue };
        // a hole in another plane
        if !tri && r.chance(0.1) {
            let t = r.uni(0.2, 1.3);
            let n2 = fr.v * t.cos() + fr.n * t.sin();
            let f2 = Frame { o: fr.o, u: fr.u, v: n2, n: fr.u.cross(n2), s: fr.s, exact: false };
            if let Ok(h2) = build(&f2, &path) {
                let a = guard_res(|| poly.cut_hole(h2));
                w.ev(json!({"op": "tilted", "res": res(&a), "area": fr.area(poly.area()), "holes": poly.n_inner_loops()}));
            }
        }
        let a = guard_res(|| poly.cut_hole(hole));
        let why = a.as_ref().err().map(|e| e.1.clone()).unwrap_or_default();
        if std::env::var("CONF_DEBUG").is_ok() && a.is_err() {
            eprintln!("{path} {why} {:?} {:?} {:?} {:?}", path.as_array().unwrap().iter().map(|p| poly.test_point(fr.at(p, 0)).unwrap()).collect::<Vec<_>>(), fr.o, fr.u, fr.v);
        }
        w.ev(json!({"op": "hole", "path": path, "res": res(&a), "area": fr.area(poly.area()), "holes": poly.n_inner_loops()}));
    }
    if tri {
        let t = guard_res(|| {
            let t: Result<Triangulation3D, String> = (&poly).try_into();
            t
        });
        match t {
            Ok(t) => {
                let l: Vec<Value> = t
                    .get_trilist()
                    .iter()
                    .map(|t| json!({"verts": [fr.back(t.a()), fr.back(t.b()), fr.back(t.c())], "area": fr.area(t.area()), "side": fr.side(t.normal().get_normalized())}))
                    .collect();
                w.ev(json!({"op": "triangles", "res": "ok", "list": l}))
            }
            Err((k, e)) => w.ev(json!({"op": "triangles", "res": k, "list": [], "why": e})),
        }
        return;
    }
    w.ev(json!({"op": "inside", "points": query(&fr, r, &path, 60, &|p| poly.test_point(p))}));
    let rp = poly.get_reversed();
    w.ev(json!({"op": "turned", "area": fr.area(rp.area()), "side": fr.side(rp.normal()), "outer": fr.path(rp.outer())}));
    match guard(|| poly.get_closed_loop()) {
        Ok(l) => w.ev(json!({"op": "joined", "res": "ok", "path": fr.path(&l)})),
        Err(_) => w.ev(json!({"op": "joined", "res": "panic", "path": []})),
    }
    match guard_res(|| serde_json::to_string(&poly).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str::<Polygon3D>(&t).map_err(|e| e.to_string()))) {
        Ok(p) => w.ev(json!({"op": "reread", "res": "ok", "area": fr.area(p.area()), "side": fr.side(p.normal()),
                "points": query(&fr, r, &path, 20, &|x| p.test_point(x))})),
        Err((k, _)) => w.ev(json!({"op": "reread", "res": k, "area": "0", "side": 0, "points": []})),
    }
}
pub fn loops(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(201);
    for s in a.read_scenarios() {
        if s["mode"] == "loop" {
            a_loop(&mut w, &mut r, &s);
        } else {
            a_polygon(&mut w, &mut r, &s, false);
        }
    }
    w.finish();
}
pub fn triang(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(211);
    for s in a.read_scenarios() {
        a_polygon(&mut w, &mut r, &s, true);
    }
    w.finish();
}
