//! Recorder for ray casting (C22): scenes of triangles, meshed spheres and whole models
use crate::common::*;
use geometry::intersection::{IntersectionInfo, SurfaceSide};
use geometry::{Point3D, Ray3D, Sphere3D, Triangle3D, Vector3D};
use model::Model;
use rendering::Spectrum;
use rendering::from_simple_model::{SceneElement, SimpleModelReader};
use rendering::material::*;
use rendering::primitive::Primitive;
use rendering::Wavelengths;
use rendering::Scene;

type T9 = [f64; 9];
fn v3(p: Vector3D) -> Value {
    fs(&[p.x, p.y, p.z])
}
fn p3(p: Point3D) -> Value {
    fs(&[p.x, p.y, p.z])
}
fn tri(a: Point3D, b: Point3D, c: Point3D) -> T9 {
    [a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z]
}
fn corner(t: &T9, k: usize) -> Point3D {
    Point3D::new(t[3 * k], t[3 * k + 1], t[3 * k + 2])
}
fn point(r: &mut Rng, s: f64) -> Point3D {
    Point3D::new(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s))
}
fn unit(r: &mut Rng) -> Vector3D {
    loop {
        let p = point(r, 1.);
        let v = Vector3D::new(p.x, p.y, p.z);
        if v.length() > 0.1 && v.length() < 1. {
            return v.get_normalized();
        }
    }
}
/// the triangles of one part of a scene
fn part(r: &mut Rng, kind: &str, n: usize) -> Vec<T9> {
    let mut ret = vec![];
    let o = point(r, 6.);
    match kind {
        // a box seen from inside
        "room" => {
            let (w, d, h) = (r.uni(2., 9.), r.uni(2., 9.), r.uni(2., 4.));
            let at = |x: f64, y: f64, z: f64| o + Vector3D::new(x * w, y * d, z * h);
            let mut quad = |a, b, c, d| {
                ret.push(tri(a, b, c));
                ret.push(tri(a, c, d));
            };
            quad(at(0., 0., 0.), at(1., 0., 0.), at(1., 1., 0.), at(0., 1., 0.));
            quad(at(0., 0., 1.), at(0., 1., 1.), at(1., 1., 1.), at(1., 0., 1.));
            quad(at(0., 0., 0.), at(0., 0., 1.), at(1., 0., 1.), at(1., 0., 0.));
            quad(at(0., 1., 0.), at(1., 1., 0.), at(1., 1., 1.), at(0., 1., 1.));
            quad(at(0., 0., 0.), at(0., 1., 0.), at(0., 1., 1.), at(0., 0., 1.));
            quad(at(1., 0., 0.), at(1., 0., 1.), at(1., 1., 1.), at(1., 1., 0.));
        }
        // a tessellated plane along two axes
        "grid" => {
            let k = ((n / 2) as f64).sqrt().ceil() as usize;
            let ax = r.below(3);
            let s = *r.pick(&[0.25, 1., 1.5]);
            let at = |i: usize, j: usize| {
                let (x, y) = (i as f64 * s, j as f64 * s);
                o + match ax {
                    0 => Vector3D::new(0., x, y),
                    1 => Vector3D::new(x, 0., y),
                    _ => Vector3D::new(x, y, 0.),
                }
            };
            for i in 0..k {
                for j in 0..k {
                    ret.push(tri(at(i, j), at(i + 1, j), at(i + 1, j + 1)));
                    ret.push(tri(at(i, j), at(i + 1, j + 1), at(i, j + 1)));
                }
            }
        }
        // one above the other, with the same centre
        "stack" => {
            let (a, b) = (unit(r) * r.uni(0.5, 3.), unit(r) * r.uni(0.5, 3.));
            for i in 0..n {
                let k = 1. + (i % 7) as f64;
                let (a, b) = if i % 2 == 0 { (a * k, b * k) } else { (b * k, a * k) };
                ret.push(tri(o + a, o + b, o - a - b));
            }
        }
        // behind one another along an axis
        "line" => {
            let ax = r.below(3);
            let step = r.uni(0.1, 1.);
            for i in 0..n {
                let x = i as f64 * step;
                let at = |u: f64, v: f64| {
                    o + match ax {
                        0 => Vector3D::new(x, u, v),
                        1 => Vector3D::new(u, x, v),
                        _ => Vector3D::new(u, v, x),
                    }
                };
                ret.push(tri(at(-1., -1.), at(2., -1.), at(-1., 2.)));
            }
        }
        _ => {
            let (spread, size) = match kind {
                "tiny" => (0.02, 0.001),
                "small" => (0.2, 0.004),
                "huge" => (4000., 900.),
                "far" => (900., 2.),
                _ => (5., 1.5),
            };
            let o = if kind == "huge" { point(r, 5000.) } else { o };
            for _ in 0..n {
                let c = o + { let p = point(r, spread); Vector3D::new(p.x, p.y, p.z) };
                let (e1, e2) = (unit(r), unit(r));
                let thin = if kind == "sliver" { 0.003 } else { 1. };
                ret.push(tri(c, c + e1 * (size * r.uni(0.3, 1.)), c + e1 * (size * 0.2) + e2 * (thin * size * r.uni(0.3, 1.))));
            }
        }
    }
    // either way round, whichever corner first
    for t in ret.iter_mut() {
        let (mut q, k) = ([corner(t, 0), corner(t, 1), corner(t, 2)], r.below(3));
        q.rotate_left(k);
        if r.chance(0.3) {
            q.swap(1, 2);
        }
        *t = tri(q[0], q[1], q[2]);
    }
    ret
}
fn held(s: &Scene) -> Value {
    json!(s.triangles.iter().map(|t| fs(t)).collect::<Vec<_>>())
}
fn normals(s: &Scene) -> Value {
    json!(s.normals.iter().map(|n| json!([v3(n.0), v3(n.1), v3(n.2)])).collect::<Vec<_>>())
}
fn mats(s: &Scene) -> Value {
    json!(s.front_material_indexes.iter().zip(s.back_material_indexes.iter()).map(|(a, b)| [*a, *b]).collect::<Vec<_>>())
}
fn info(e: &mut Value, i: &IntersectionInfo) {
    e["n"] = v3(i.normal);
    e["e1"] = v3(i.dpdu);
    e["e2"] = v3(i.dpdv);
    e["side"] = json!(match i.side {
        SurfaceSide::Front => "front",
        SurfaceSide::Back => "back",
        SurfaceSide::NonApplicable => "none",
    });
}
fn cast(s: &Scene, ray: Ray3D) -> Value {
    let mut e = json!({"op": "cast", "o": p3(ray.origin), "d": v3(ray.direction), "k": 0, "free": []});
    let mut aux = [0; 64];
    match guard(|| s.cast_ray(ray, &mut aux)) {
        Err(_) => e["k"] = json!(-1),
        Ok(None) => {}
        Ok(Some((k, i))) => {
            e["k"] = json!(k + 1);
            e["p"] = p3(i.point);
            e["wo"] = v3(i.wo);
            info(&mut e, &i.geometry_shading);
        }
    }
    e
}
fn free(r: &mut Rng, s: &Scene, ray: Ray3D, e: &mut Value, scale: f64) {
    let mut aux = [0; 64];
    let mut ds = vec![r.uni(0.1, 2.) * scale, scale * 1e3];
    if e["k"].as_i64().unwrap() > 0 {
        let g = |k: usize| e["p"][k].as_str().unwrap().parse::<f64>().unwrap();
        let t = (Point3D::new(g(0), g(1), g(2)) - ray.origin).length();
        ds.extend([t * 0.9, t * 1.2, t + 0.02, t - 0.02, t * 3.]);
    }
    for d in ds {
        if d > 0. {
            let a = guard(|| s.unobstructed_distance(ray, d * d, &mut aux)).map_or("panic", |b| if b { "yes" } else { "no" });
            e["free"].as_array_mut().unwrap().push(json!([f(d), a]));
        }
    }
}
fn rays(r: &mut Rng, tris: &[T9], n: usize) -> Vec<Ray3D> {
    let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
    for t in tris {
        for (k, x) in t.iter().enumerate() {
            lo[k % 3] = lo[k % 3].min(*x);
            hi[k % 3] = hi[k % 3].max(*x);
        }
    }
    let grow = if r.chance(0.5) { 0.1 } else { 1. };
    let mut around = |r: &mut Rng| {
        let c = |k: usize, r: &mut Rng| {
            let w = (hi[k] - lo[k]).max(0.1) * grow;
            r.uni(lo[k] - w, hi[k] + w)
        };
        Point3D::new(c(0, r), c(1, r), c(2, r))
    };
    let on = |t: &T9, r: &mut Rng| {
        let (a, b, c) = (corner(t, 0), corner(t, 1), corner(t, 2));
        let (mut u, mut v) = (r.uni(0.02, 0.98), r.uni(0.02, 0.98));
        if u + v > 0.99 {
            (u, v) = (1. - u, 1. - v);
        }
        a + (b - a) * u + (c - a) * v
    };
    let axes = [Vector3D::new(1., 0., 0.), Vector3D::new(0., 1., 0.), Vector3D::new(0., 0., 1.)];
    let mut ret = vec![];
    for _ in 0..n {
        let t = r.pick(tris).clone();
        let (o, d) = match r.below(8) {
            0 | 1 | 2 => {
                let o = around(r);
                (o, on(&t, r) - o)
            }
            3 => (around(r), unit(r)),
            4 => {
                let d = *r.pick(&axes) * *r.pick(&[1., -1.]);
                (on(&t, r) - d * r.uni(0.5, 8.), d)
            }
            // a bounce
            5 => (on(&t, r), unit(r)),
            6 => {
                // along one of the planes of the axes
                let k = r.below(3);
                let u = unit(r);
                let d = u - axes[k] * (u * axes[k]);
                (on(&t, r) - d * r.uni(0.5, 8.), d)
            }
            _ => {
                let (o, p) = (on(&t, r), r.pick(tris).clone());
                (o, on(&p, r) - o)
            }
        };
        if d.length() > 1e-4 {
            ret.push(Ray3D { origin: o, direction: d.get_normalized() });
        }
    }
    ret
}
fn casting(w: &mut W, r: &mut Rng, sc: &Value) {
    let mut s = Scene::new();
    let lights = sc["lights"].as_bool().unwrap();
    for i in 0..5 {
        let c = Spectrum::gray(0.1 * (i + 1) as f64);
        s.push_material(match (i, lights) {
            (4, true) => Material::Light(Light(c)),
            (0 | 1, _) => Material::Plastic(Plastic { colour: c, specularity: 0., roughness: 0. }),
            (2, _) => Material::Diffuse(Diffuse { colour: c }),
            _ => Material::Mirror(Mirror(c)),
        });
    }
    let mut tris: Vec<T9> = vec![];
    for p in sc["parts"].as_array().unwrap() {
        tris.extend(part(r, p[0].as_str().unwrap(), p[1].as_u64().unwrap() as usize));
    }
    if sc["mixed"].as_bool().unwrap() {
        r.shuffle(&mut tris);
    }
    let (mut pushed, mut ms, mut shone) = (vec![], vec![], 0);
    for t in &tris {
        let (a, b) = (r.below(5), r.below(5));
        match Triangle3D::new(corner(t, 0), corner(t, 1), corner(t, 2)) {
            Ok(x) => s.push_object(a, b, Primitive::Triangle(x)),
            // not as small as that... but it can be there
            Err(_) => {
                let n = (corner(t, 1) - corner(t, 0)).cross(corner(t, 2) - corner(t, 0)).get_normalized();
                s.triangles.push(*t);
                s.normals.push((n, n, n));
                s.front_material_indexes.push(a);
                s.back_material_indexes.push(b);
                if lights && (a == 4 || b == 4) {
                    shone -= 1;
                }
            }
        }
        if lights && (a == 4 || b == 4) {
            shone += 1;
        }
        pushed.push(fs(t));
        ms.push([a, b]);
    }
    w.ev(json!({"op": "scene", "tris": pushed, "mats": ms, "lit": shone,
        "held": held(&s), "heldmats": mats(&s), "normals": normals(&s), "lights": s.lights.len(), "distant": s.distant_lights.len()}));
    let m = s.build_accelerator();
    let built = |s: &Scene, m: Vec<usize>| json!({"op": "built", "map": m, "tris": held(s), "mats": mats(s), "normals": normals(s)});
    w.ev(built(&s, m));
    if sc["again"].as_bool().unwrap() {
        let m = s.rebuild_accelerator();
        w.ev(built(&s, m));
    }
    let span = if sc["parts"][0][0] == "huge" { 1000. } else { 1. };
    for ray in rays(r, &tris, sc["rays"].as_u64().unwrap() as usize) {
        let mut e = cast(&s, ray);
        free(r, &s, ray, &mut e, span);
        w.ev(e);
    }
}
fn sphere(w: &mut W, r: &mut Rng, sc: &Value) {
    let k = sc["size"].as_u64().unwrap();
    let rad = r.uni(0.6, 1.) * [0.02, 0.2, 2., 50.][k as usize];
    let c = point(r, if k == 0 { 0.5 } else { 10. });
    let mut s = Scene::new();
    s.push_material(Material::Mirror(Mirror(Spectrum::gray(0.5))));
    s.push_object(0, 0, Primitive::Sphere(Sphere3D::new(rad, c)));
    // what the mesh is like
    let (mut area, mut off, mut out, mut nrm) = (0., 0.0f64, 0, 0.0f64);
    let mut edges = std::collections::HashMap::new();
    for (t, n) in s.triangles.iter().zip(s.normals.iter()) {
        let q = [corner(t, 0), corner(t, 1), corner(t, 2)];
        let x = (q[1] - q[0]).cross(q[2] - q[0]);
        area += x.length() / 2.;
        if x * (q[0] - c) > 0. {
            out += 1;
        }
        for (p, n) in q.iter().zip([n.0, n.1, n.2]) {
            off = off.max(((*p - c).length() / rad - 1.).abs());
            nrm = nrm.max((n - (*p - c) / rad).length());
        }
        let key = |p: Point3D| [p.x, p.y, p.z].map(|x| (x / rad * 1e6).round() as i64);
        for i in 0..3 {
            let (a, b) = (key(q[i]), key(q[(i + 1) % 3]));
            *edges.entry(if a < b { (a, b) } else { (b, a) }).or_insert(0) += if a < b { 1 } else { -1 };
        }
    }
    w.ev(json!({"op": "sphere", "r": f(rad), "c": p3(c), "n": s.triangles.len(), "outward": out, "area": f(area), "off": f(off), "nrm": f(nrm),
        "open": edges.values().filter(|x| **x != 0).count()}));
    s.build_accelerator();
    for _ in 0..sc["rays"].as_u64().unwrap() {
        // at a point of the sphere, or at some place by its side
        let d = unit(r);
        let u = loop {
            let u = unit(r);
            let u = u - d * (u * d);
            if u.length() > 0.1 {
                break u.get_normalized();
            }
        };
        let b = if r.chance(0.7) { r.uni(0., 0.97) } else { r.uni(1.03, 2.) };
        let back = if r.chance(0.25) && b < 0.9 { 0. } else { r.uni(1.1, 6.) };
        let ray = Ray3D { origin: c + u * (b * rad) - d * (back * rad), direction: d };
        let mut e = cast(&s, ray);
        e["op"] = json!("round");
        w.ev(e);
    }
}
/// the shapes of walls: outlines in their plane
const SHAPES: [&[[f64; 2]]; 6] = [
    &[[0., 0.], [3., 0.], [3., 2.], [0., 2.]],
    &[[0., 0.], [4., 0.], [4., 1.], [2., 1.], [2., 3.], [0., 3.]],
    &[[0., 0.], [3., 0.], [1., 2.]],
    &[[0., 0.], [0.0042, 0.], [0., 0.0042]],
    &[[0., 0.], [2., -1.], [4., 0.], [4., 2.], [2., 3.], [0., 2.]],
    &[[0., 0.], [6., 0.], [6., 3.], [4., 3.], [4., 1.], [2., 1.], [2., 3.], [0., 3.]],
];
fn whole(w: &mut W, r: &mut Rng, sc: &Value) {
    let mut js = json!({"substances": [], "materials": [], "constructions": [], "surfaces": [], "fenestrations": [], "spaces": [{"name": "room", "volume": 40}]});
    for (i, c) in sc["cons"].as_array().unwrap().iter().enumerate() {
        let mut names = vec![];
        for (j, l) in c.as_array().unwrap().iter().enumerate() {
            let n = format!("s{i}_{j}");
            let mut o = json!({"type": "Normal", "name": n, "thermal_conductivity": 1., "density": 1000., "specific_heat_capacity": 900.});
            let l = l.as_array().unwrap();
            if l[0] == -9 {
                o = json!({"type": "Gas", "name": n, "gas": "Air"});
            } else {
                for (v, p) in l.iter().zip(["front_solar_absorbtance", "back_solar_absorbtance", "solar_transmittance", "front_visible_reflectance", "back_visible_reflectance"]) {
                    if v.as_i64().unwrap() >= 0 {
                        o[p] = json!(v.as_f64().unwrap() / 100.);
                    }
                }
                if !o["solar_transmittance"].is_null() {
                    o["visible_transmissivity"] = o["solar_transmittance"].clone();
                }
            }
            js["substances"].as_array_mut().unwrap().push(o);
            js["materials"].as_array_mut().unwrap().push(json!({"name": format!("m{i}_{j}"), "substance": n, "thickness": 0.02}));
            names.push(json!(format!("m{i}_{j}")));
        }
        js["constructions"].as_array_mut().unwrap().push(json!({"name": format!("c{i}"), "materials": names}));
    }
    for (kind, key) in [("walls", "surfaces"), ("windows", "fenestrations")] {
        for (i, x) in sc[kind].as_array().unwrap().iter().enumerate() {
            let sh = SHAPES[x["shape"].as_u64().unwrap() as usize];
            let (s, c) = (x["tilt"].as_f64().unwrap() * 0.3).sin_cos();
            let o = point(r, 20.);
            let mut vs: Vec<f64> = vec![];
            for p in sh {
                vs.extend([o.x + p[0], o.y + p[1] * c, o.z + p[1] * s]);
            }
            let mut y = json!({"name": format!("{kind}{i}"), "construction": format!("c{}", x["cons"]), "vertices": vs,
                "front_boundary": {"type": "Space", "space": "room"}, "back_boundary": {"type": "Outdoor"}});
            if kind == "windows" {
                y["category"] = x["cat"].clone();
                if x["cat"] == "Opening" {
                    y["operation"] = json!({"type": "Fixed", "fraction": 0.0});
                }
            }
            js[key].as_array_mut().unwrap().push(y);
        }
    }
    let text = js.to_string();
    let m = match guard_res(|| Model::from_json(&text)) {
        Ok((m, ..)) => m,
        Err((_, e)) => {
            w.ev(json!({"op": "model", "res": "unread"}));
            if std::env::var("CONF_DEBUG").is_ok() {
                eprintln!("{e}\n{text}");
            }
            return;
        }
    };
    let ps = |p: &geometry::Polygon3D| {
        let l = p.outer();
        json!({"area": f(p.area()), "n": v3(p.normal()), "vs": l.vertices().iter().map(|v| p3(*v)).collect::<Vec<_>>()})
    };
    for (name, wave) in [("solar", Wavelengths::Solar)] { // daylight is not implemented
    let mut e = json!({"op": "model", "wave": name, "cons": sc["cons"], "walls": sc["walls"], "windows": sc["windows"],
        "wallp": m.surfaces.iter().map(|s| ps(&s.vertices)).collect::<Vec<_>>(), "windowp": m.fenestrations.iter().map(|s| ps(&s.vertices)).collect::<Vec<_>>(), "els": []});
    match guard_res(|| SimpleModelReader::default().build_scene(&m, &wave)) {
        Err((k, _)) => e["res"] = json!(k),
        Ok((s, map)) => {
            e["res"] = json!("ok");
            e["counts"] = json!([s.triangles.len(), s.normals.len(), s.front_material_indexes.len(), s.back_material_indexes.len(), map.len()]);
            let mat = |i: usize| match &s.materials[i] {
                Material::Plastic(p) => json!(["plastic", fs(&p.colour.0), f(p.specularity), f(p.roughness)]),
                Material::Glass(g) => json!(["glass", fs(&g.colour.0), f(g.refraction_index), f(0.)]),
                m => json!([m.id(), [], f(0.), f(0.)]),
            };
            for (i, (k, j)) in map.iter().enumerate() {
                let t = &s.triangles[i];
                let x = (corner(t, 1) - corner(t, 0)).cross(corner(t, 2) - corner(t, 0));
                e["els"].as_array_mut().unwrap().push(json!({"kind": if let SceneElement::Surface = k { "wall" } else { "window" }, "i": j + 1,
                    "area": f(x.length() / 2.), "n": v3(x.get_normalized()), "vs": [p3(corner(t, 0)), p3(corner(t, 1)), p3(corner(t, 2))],
                    "front": mat(s.front_material_indexes[i]), "back": mat(s.back_material_indexes[i])}));
            }
        }
    }
    w.ev(e);
    }
}
pub fn scenes(a: &Args) {
    let mut w = W::new(a);
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(9000 + i as u64);
        w.begin(format!("scene {i}"));
        match sc["mode"].as_str().unwrap() {
            "cast" => casting(&mut w, &mut r, sc),
            "sphere" => sphere(&mut w, &mut r, sc),
            _ => whole(&mut w, &mut r, sc),
        }
    }
    w.finish()
}
