//! Recorder for transformations and for the shapes rays hit (C23)
use crate::common::*;
use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::{BBox3D, Cylinder3D, Disk3D, DistantSource3D, Plane3D, Point3D, Ray3D, Sphere3D, Transform, Triangle3D, Vector3D};
use rendering::primitive::Primitive;

fn v3(p: Vector3D) -> Value {
    fs(&[p.x, p.y, p.z])
}
fn p3(p: Point3D) -> Value {
    fs(&[p.x, p.y, p.z])
}
fn bx(b: &BBox3D) -> Value {
    json!([p3(b.min), p3(b.max)])
}
fn point(r: &mut Rng, s: f64) -> Point3D {
    Point3D::new(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s))
}
fn unit(r: &mut Rng) -> Vector3D {
    loop {
        let v = Vector3D::new(r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.));
        if v.length() > 0.1 && v.length() < 1. {
            return v.get_normalized();
        }
    }
}
fn axis(r: &mut Rng) -> Vector3D {
    let s = *r.pick(&[1., -1.]);
    *r.pick(&[Vector3D::new(s, 0., 0.), Vector3D::new(0., s, 0.), Vector3D::new(0., 0., s)])
}
/// a transformation of so many steps, and what it was
fn transform(r: &mut Rng, steps: &Value) -> (Transform, Value) {
    let mut t = Transform::new();
    let mut ops = vec![];
    for s in steps.as_array().unwrap() {
        let (x, o) = match s[0].as_str().unwrap() {
            "turn" => {
                let a = s[1].as_u64().unwrap() as usize;
                let deg = if r.chance(0.5) { *r.pick(&[90., -90., 180., 45., 30., 120., 270.]) } else { r.uni(-180., 360.) };
                ([Transform::rotate_x, Transform::rotate_y, Transform::rotate_z][a - 1](deg), json!(["turn", a, f(deg)]))
            }
            "shift" => {
                let p = point(r, 10.);
                (Transform::translate(p.x, p.y, p.z), json!(["shift", 0, f(p.x), f(p.y), f(p.z)]))
            }
            k => {
                let mut c = || r.uni(0.4, 2.5) * if k == "mirror" && r.chance(0.5) { -1. } else { 1. };
                let x = c();
                let p = if k == "size" { [x, x, x] } else { [x, c(), c()] };
                (Transform::scale(p[0], p[1], p[2]), json!(["scale", 0, f(p[0]), f(p[1]), f(p[2])]))
            }
        };
        t *= x;
        ops.push(o);
    }
    (t, Value::Array(ops))
}
fn moving(w: &mut W, r: &mut Rng, sc: &Value) {
    let (t, ops) = transform(r, &sc["ops"]);
    let (mut pts, mut vecs, mut nrms) = (vec![], vec![], vec![]);
    for _ in 0..4 {
        let p = point(r, 5.);
        pts.push(json!([p3(p), p3(t.transform_pt(p)), p3(t.inv_transform_pt(p))]));
        let v = unit(r) * r.uni(0.3, 4.);
        vecs.push(json!([v3(v), v3(t.transform_vec(v)), v3(t.inv_transform_vec(v))]));
        nrms.push(json!([v3(v), v3(t.transform_normal(v)), v3(t.inv_transform_normal(v))]));
    }
    let (a, b) = (point(r, 3.), point(r, 3.));
    let bb = BBox3D::new(a, b);
    let ray = Ray3D { origin: point(r, 10.), direction: unit(r) };
    let (fwd, ..) = t.transform_ray(&ray);
    let (back, ..) = t.inv_transform_ray(&ray);
    w.ev(json!({"op": "transform", "ops": ops, "pts": pts, "vecs": vecs, "nrms": nrms, "hands": t.changes_hands(), "box": bx(&bb), "tbox": bx(&t.transform_bbox(bb)),
        "ibox": bx(&t.inv_transform_bbox(bb)), "ray": [p3(ray.origin), v3(ray.direction)], "tray": [p3(fwd.origin), v3(fwd.direction)], "iray": [p3(back.origin), v3(back.direction)]}));
}
/// what answers: with the details, and without
type Ask = Box<dyn Fn(&Ray3D) -> (Option<IntersectionInfo>, Option<Point3D>, Option<f64>)>;
fn primitive(p: Primitive) -> Ask {
    Box::new(move |ray| {
        let i = p.intersect(ray);
        let pdf = match (&i, &p) {
            (_, Primitive::Cylinder(_)) | (None, _) => None,
            (Some(i), _) => Some(p.solid_angle_pdf(i, ray)),
        };
        (i, p.simple_intersect(ray), pdf)
    })
}
fn shape(w: &mut W, r: &mut Rng, sc: &Value) {
    let kind = sc["kind"].as_str().unwrap();
    let (t, ops) = transform(r, &sc["ops"]);
    let tr = if ops.as_array().unwrap().is_empty() { None } else { Some(std::sync::Arc::new(t.clone())) };
    let rad = if r.chance(0.2) { r.uni(5., 30.) } else { r.uni(0.1, 3.) };
    let phi = if sc["part"].as_bool().unwrap() { if r.chance(0.3) { *r.pick(&[90., 180., 270.]) } else { r.uni(10., 355.) } } else { 360. };
    let (mut lo, mut hi) = (r.uni(-1., 0.5) * rad, rad);
    hi = r.uni(lo / rad + 0.2, 1.2) * hi;
    // what to aim at: a point of the shape, in its own coordinates
    let mut e = json!({"op": "shape", "kind": kind, "ops": ops, "r": f(rad), "phi": f(phi), "lo": f(lo), "hi": f(hi), "a": [], "b": [], "c": [], "box": [], "area": f(0.)});
    let mut aim: Vec<Point3D> = vec![];
    let on = |r: &mut Rng, k: &str, lo: f64, hi: f64| {
        let a = r.uni(0., 6.28);
        match k {
            "sphere" => unit(r).as_point3d() * rad,
            "cylinder" => Point3D::new(rad * a.cos(), rad * a.sin(), r.uni(lo, hi)),
            _ => Point3D::new(0., 0., 0.),
        }
    };
    let ask: Ask = match kind {
        "sphere" => {
            let s = if !sc["part"].as_bool().unwrap() {
                e["lo"] = f(-rad);
                e["hi"] = f(rad);
                match ops.as_array().unwrap().first() {
                    Some(o) if ops_len(&ops) == 1 && o[0] == "shift" => Sphere3D::new(rad, t.transform_pt(Point3D::new(0., 0., 0.))),
                    _ => Sphere3D::new_transformed(rad, tr),
                }
            } else {
                Sphere3D::new_partial_transformed(rad, lo, hi, phi, tr)
            };
            for _ in 0..24 {
                aim.push(t.transform_pt(on(r, "sphere", lo, hi)));
            }
            e["box"] = bx(&s.world_bounds());
            e["area"] = f(s.area());
            primitive(Primitive::Sphere(s))
        }
        "cylinder" => {
            let s = Cylinder3D::new_transformed(rad, lo, hi, phi, tr);
            for _ in 0..24 {
                aim.push(t.transform_pt(on(r, "cylinder", lo, hi)));
            }
            e["box"] = bx(&s.world_bounds());
            e["area"] = f(s.area());
            primitive(Primitive::Cylinder(s))
        }
        "tube" => {
            // from a point to another
            let a = point(r, 5.);
            let l = if r.chance(0.4) { axis(r) * r.uni(0.5, 6.) } else { unit(r) * r.uni(0.5, 6.) };
            let s = Cylinder3D::new(a, a + l, rad);
            (lo, hi) = (0., l.length());
            let (n, u) = (l.get_normalized(), l.get_perpendicular().unwrap().get_normalized());
            let v = n.cross(u);
            for _ in 0..24 {
                let p = on(r, "cylinder", lo, hi);
                aim.push(a + u * p.x + v * p.y + n * p.z);
            }
            e["a"] = p3(a);
            e["b"] = p3(a + l);
            e["box"] = bx(&s.world_bounds());
            e["area"] = f(s.area());
            primitive(Primitive::Cylinder(s))
        }
        "disk" => {
            let (c, n) = (point(r, 5.), if r.chance(0.4) { axis(r) } else { unit(r) });
            let inner = if sc["part"].as_bool().unwrap() && r.chance(0.6) { r.uni(0.05, 0.8) * rad } else { 0. };
            let zero = n.get_perpendicular().unwrap().get_normalized();
            let zero = if r.chance(0.5) { zero } else { n.cross(zero) };
            let s = if phi == 360. && tr.is_none() && inner == 0. { Disk3D::new(c, n, rad) } else { Disk3D::new_detailed(c, n, rad, inner, zero, phi, tr) };
            for _ in 0..24 {
                let (a, q) = (r.uni(0., 6.28), r.uni(0.02, 1.1) * rad);
                aim.push(t.transform_pt(c + zero * (q * a.cos()) + n.cross(zero) * (q * a.sin())));
            }
            e["a"] = p3(c);
            e["b"] = v3(n);
            e["c"] = v3(zero);
            e["lo"] = f(inner);
            e["area"] = f(s.area());
            Box::new(move |ray| (s.intersect(ray), s.simple_intersect(ray), None))
        }
        "triangle" => {
            let a = point(r, 5.);
            let (b, c) = (a + unit(r) * rad, a + unit(r) * (rad * r.uni(0.3, 1.)));
            let s = match Triangle3D::new(a, b, c) {
                Ok(s) => s,
                Err(_) => return,
            };
            for _ in 0..24 {
                aim.push(a + (b - a) * r.uni(-0.2, 1.1) + (c - a) * r.uni(-0.2, 1.1));
            }
            e["a"] = p3(a);
            e["b"] = p3(b);
            e["c"] = p3(c);
            e["box"] = bx(&s.world_bounds());
            e["area"] = f(s.area());
            e["n"] = v3(s.normal());
            e["centroid"] = p3(s.centroid());
            e["circum"] = json!([p3(s.circumcenter()), f(s.circumradius())]);
            primitive(Primitive::Triangle(s))
        }
        "plane" => {
            let (c, n) = (point(r, 5.), if r.chance(0.4) { axis(r) } else { unit(r) });
            let s = Plane3D::new(c, n * r.uni(0.5, 3.));
            for _ in 0..24 {
                aim.push(c + { let v = unit(r); (v - n * (v * n)) * r.uni(0., 5.) });
            }
            e["a"] = p3(c);
            e["b"] = v3(n);
            Box::new(move |ray| (None, s.intersect(ray).map(|t| ray.project(t)), None))
        }
        _ => {
            let d = unit(r);
            let a = if r.chance(0.3) { r.uni(0.5, 3.) } else { r.uni(0.005, 0.4) };
            let s = DistantSource3D::new(d * r.uni(0.5, 3.), a);
            e["a"] = v3(d);
            e["phi"] = f(a);
            e["lo"] = f(s.omega);
            for _ in 0..24 {
                // directions around it
                let u = d.get_perpendicular().unwrap().get_normalized();
                let v = d.cross(u);
                let (q, x) = (r.uni(0., 1.) * a, r.uni(0., 6.28));
                aim.push((d * q.cos() + (u * x.cos() + v * x.sin()) * q.sin()).as_point3d());
            }
            primitive(Primitive::Source(s))
        }
    };
    w.ev(e);
    for p in aim {
        let d = if r.chance(0.25) { axis(r) } else { unit(r) };
        let mut ray = Ray3D { origin: p - d * r.uni(0.2, 3.) * if r.chance(0.5) { rad } else { 1. }, direction: d };
        if kind == "source" {
            ray = Ray3D { origin: point(r, 5.), direction: Vector3D::new(p.x, p.y, p.z).get_normalized() };
        }
        if r.chance(0.1) {
            ray.direction = ray.direction * -1.;
        }
        let mut e = json!({"op": "hit", "o": p3(ray.origin), "d": v3(ray.direction), "res": "panic", "simple": "panic", "p": [], "sp": [], "n": [], "du": [], "dv": [], "side": "", "pdf": "none"});
        if let Ok((i, s, pdf)) = guard(|| ask(&ray)) {
            e["res"] = json!("miss");
            e["simple"] = json!("miss");
            if let Some(i) = i {
                e["res"] = json!("hit");
                e["p"] = p3(i.p);
                e["n"] = v3(i.normal);
                e["du"] = v3(i.dpdu);
                e["dv"] = v3(i.dpdv);
                e["side"] = json!(match i.side {
                    SurfaceSide::Front => "front",
                    SurfaceSide::Back => "back",
                    SurfaceSide::NonApplicable => "none",
                });
            }
            if let Some(p) = s {
                e["simple"] = json!("hit");
                e["sp"] = p3(p);
            }
            if let Some(x) = pdf {
                e["pdf"] = f(x);
            }
        }
        w.ev(e);
    }
}
fn ops_len(v: &Value) -> usize {
    v.as_array().unwrap().len()
}
pub fn shapes(a: &Args) {
    let mut w = W::new(a);
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(11000 + i as u64);
        w.begin(format!("shape {i}"));
        if sc["kind"] == "transform" {
            moving(&mut w, &mut r, sc)
        } else {
            shape(&mut w, &mut r, sc)
        }
    }
    w.finish()
}
