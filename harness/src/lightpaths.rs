//! Recorder for light that goes from surface to surface (C30)
use crate::common::*;
use geometry::{DistantSource3D, Point3D, Ray3D, Sphere3D, Triangle3D, Vector3D};
use rendering::material::*;
use rendering::primitive::Primitive;
use rendering::rand::{RandGen, SeedableRng};
use rendering::{DCFactory, RayTracer, Scene, Spectrum};
use weather::ReinhartSky;

fn v3(v: Vector3D) -> Value {
    fs(&[v.x, v.y, v.z])
}
fn p3(v: Point3D) -> Value {
    fs(&[v.x, v.y, v.z])
}
fn unit(r: &mut Rng) -> Vector3D {
    loop {
        let v = Vector3D::new(r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.));
        if v.length() > 0.1 && v.length() < 1. {
            return v.get_normalized();
        }
    }
}
fn place(r: &mut Rng) -> Point3D {
    Point3D::new(r.uni(-5., 5.), r.uni(-5., 5.), r.uni(-5., 5.))
}
/// two directions across a unit vector
fn across(n: Vector3D) -> (Vector3D, Vector3D) {
    let a = if n.x.abs() < 0.7 { Vector3D::new(1., 0., 0.) } else { Vector3D::new(0., 1., 0.) };
    let e = n.cross(a).get_normalized();
    (e, n.cross(e))
}
/// so many degrees away from a unit vector
fn tilted(r: &mut Rng, n: Vector3D, deg: f64) -> Vector3D {
    let (a, b) = across(n);
    let (t, f) = (deg.to_radians(), r.uni(0., 2. * std::f64::consts::PI));
    (n * t.cos() + (a * f.cos() + b * f.sin()) * t.sin()).get_normalized()
}
/// a triangle around a point, facing this way
fn around(r: &mut Rng, p: Point3D, n: Vector3D, size: f64) -> [Point3D; 3] {
    let (a, b) = across(n);
    let f = r.uni(0., 6.);
    let at = |k: f64| p + (a * (f + k).cos() + b * (f + k).sin()) * size;
    let t = [at(0.), at(2.1), at(4.2)];
    if (t[1] - t[0]).cross(t[2] - t[0]) * n > 0. {
        t
    } else {
        [t[0], t[2], t[1]]
    }
}
fn colour(r: &mut Rng, k: &str) -> Spectrum {
    match k {
        "grey" => Spectrum::gray(r.uni(0.1, 0.95)),
        "clear" => Spectrum([r.uni(0.9, 1.), r.uni(0.9, 1.), r.uni(0.9, 1.)]),
        "one" => Spectrum::ONE,
        "dark" => {
            let mut c = [r.uni(0.05, 0.6), r.uni(0.05, 0.6), r.uni(0.05, 0.6)];
            c[r.below(3)] = 0.;
            Spectrum(c)
        }
        _ => Spectrum([r.uni(0.05, 1.), r.uni(0.05, 1.), r.uni(0.05, 1.)]),
    }
}
fn material(k: &str, c: Spectrum, index: f64) -> Material {
    match k {
        "mirror" => Material::Mirror(Mirror(c)),
        "glass" => Material::Glass(Glass { colour: c, refraction_index: index }),
        "plastic" => Material::Plastic(Plastic { colour: c, specularity: 0., roughness: 0. }),
        "metal" => Material::Metal(Metal { colour: c, specularity: 0., roughness: 0. }),
        _ => Material::Diffuse(Diffuse { colour: c }),
    }
}
fn add(s: &mut Scene, m: Material, t: [Point3D; 3]) {
    let k = s.push_material(m);
    s.push_object(k, k, Primitive::Triangle(Triangle3D::new(t[0], t[1], t[2]).unwrap()));
}
fn tri(t: &[Point3D; 3]) -> Value {
    json!([p3(t[0]), p3(t[1]), p3(t[2])])
}
fn cols(v: &[Spectrum]) -> Value {
    Value::Array(v.iter().map(|c| fs(&c.0)).collect())
}
fn furnace(w: &mut W, r: &mut Rng, sc: &Value, rng: &mut RandGen) {
    let mut s = Scene::new();
    s.sky = Some(Box::new(|_| 1.));
    let things = sc["things"].as_array().unwrap();
    for k in things {
        let (p, n, size, i) = (place(r), unit(r), r.uni(0.5, 6.), r.uni(1.1, 2.));
        let t = around(r, p, n, size);
        add(&mut s, material(k.as_str().unwrap(), Spectrum::ONE, i), t);
    }
    s.build_accelerator();
    let depth = sc["depth"].as_u64().unwrap() as usize;
    let tracer = RayTracer { max_depth: depth, n_shadow_samples: 1, n_ambient_samples: sc["samples"].as_u64().unwrap() as usize };
    let rays: Vec<Ray3D> = (0..sc["rays"].as_u64().unwrap())
        .map(|_| {
            let (from, to) = (place(r), place(r) * 0.5);
            Ray3D { origin: from, direction: (to - from).get_normalized() }
        })
        .collect();
    let mut aux = [0; 32];
    match guard(|| rays.iter().map(|x| tracer.trace_all_rays(rng, &s, *x, &mut aux)).collect::<Vec<_>>()) {
        Ok(v) => w.ev(json!({"op": "furnace", "res": "ok", "n": rays.len(), "vals": cols(&v)})),
        Err(e) => w.ev(json!({"op": "furnace", "res": "panic", "why": e})),
    }
    let mf = sc["mf"].as_u64().unwrap() as usize;
    let n = 20;
    let dc = DCFactory { reinhart: ReinhartSky::new(mf), max_depth: depth, n_ambient_samples: n };
    match guard(|| dc.calc_dc(&rays, &s, None)) {
        Ok(m) => {
            let (rows, bins) = m.size();
            let sums: Vec<Spectrum> = (0..rows).map(|y| (0..bins).fold(Spectrum::BLACK, |a, x| a + m.get(y, x).unwrap())).collect();
            let all: Vec<f64> = (0..rows).flat_map(|y| (0..bins).map(move |x| (y, x))).map(|(y, x)| m.get(y, x).unwrap().0[1]).filter(|v| *v != 0.).collect();
            w.ev(json!({"op": "patches", "res": "ok", "rows": rows, "bins": bins, "mf": mf, "want": rays.len(), "n": n, "sums": cols(&sums), "parts": fs(&all)}));
        }
        Err(e) => w.ev(json!({"op": "patches", "res": "panic", "why": e})),
    }
}
fn bounce(w: &mut W, r: &mut Rng, sc: &Value, rng: &mut RandGen) {
    let mat = sc["mat"].as_str().unwrap();
    let c = colour(r, sc["colour"].as_str().unwrap());
    let index: f64 = sc["index"].as_str().unwrap().parse().unwrap();
    let (p, n) = (place(r), unit(r));
    let t = around(r, p, n * if sc["side"] == 0 { 1. } else { -1. }, 5.);
    let e = tilted(r, n, sc["angle"].as_f64().unwrap());
    let d = e * -1.;
    let even = matches!(mat, "diffuse" | "plastic" | "metal");
    let k = if even { [r.uni(1., 4.), 0., 0., 0.] } else { [r.uni(2., 4.), r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.)] };
    let mut s = Scene::new();
    s.sky = Some(Box::new(move |d: Vector3D| k[0] + k[1] * d.x + k[2] * d.y + k[3] * d.z));
    let skycol = colour(r, "any");
    s.sky_colour = Some(skycol);
    add(&mut s, material(mat, c, index), t);
    s.build_accelerator();
    let depth = sc["depth"].as_u64().unwrap() as usize;
    let tracer = RayTracer { max_depth: depth, n_shadow_samples: 1, n_ambient_samples: 1 };
    let ray = Ray3D { origin: p + e * r.uni(0.5, 3.), direction: d };
    let mut aux = [0; 32];
    match guard(|| (0..160).map(|_| tracer.trace_ray(rng, &s, ray, &mut aux)).collect::<Vec<_>>()) {
        Ok(v) => w.ev(json!({"op": "bounce", "res": "ok", "mat": mat, "c": fs(&c.0), "index": f(index), "d": v3(d), "n": v3(n), "sky": fs(&k), "skycol": fs(&skycol.0), "depth": depth, "vals": cols(&v)})),
        Err(e) => w.ev(json!({"op": "bounce", "res": "panic", "why": e})),
    }
}
fn block(w: &mut W, r: &mut Rng, sc: &Value, rng: &mut RandGen) {
    let c = colour(r, sc["colour"].as_str().unwrap());
    let index: f64 = sc["index"].as_str().unwrap().parse().unwrap();
    // a body of four faces
    let form = sc["form"].as_str().unwrap();
    let v: [Point3D; 4] = loop {
        let at = place(r);
        let v = match form {
            "corner" => {
                let n = unit(r);
                let (a, b) = across(n);
                let (x, y, z) = (r.uni(1., 3.), r.uni(1., 3.), r.uni(1., 3.));
                [at, at + n * x, at + a * y, at + b * z]
            }
            "flat" => {
                let n = unit(r);
                let (a, b) = across(n);
                [at + n * r.uni(0.5, 0.8), at + a * 3., at - a * 1.5 + b * 2.6, at - a * 1.5 - b * 2.6]
            }
            _ => [at, place(r), place(r), place(r)],
        };
        let vol = (v[1] - v[0]).cross(v[2] - v[0]) * (v[3] - v[0]);
        let long = (1..4).map(|k| (v[k] - v[0]).length()).fold(0., f64::max);
        if vol.abs() > 0.02 * long * long * long {
            break v;
        }
    };
    let mut s = Scene::new();
    let k = [r.uni(2., 4.), r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.)];
    s.sky = Some(Box::new(move |d: Vector3D| k[0] + k[1] * d.x + k[2] * d.y + k[3] * d.z));
    let skycol = colour(r, "any");
    s.sky_colour = Some(skycol);
    let mut faces = vec![];
    let mut first = None;
    for q in 0..4 {
        let (x, y, z, away) = (v[(q + 1) % 4], v[(q + 2) % 4], v[(q + 3) % 4], v[q]);
        let n = (y - x).cross(z - x).get_normalized();
        let (t, n) = if n * (away - x) > 0. { ([x, z, y], n * -1.) } else { ([x, y, z], n) };
        add(&mut s, Material::Dielectric(Dielectric { colour: c, refraction_index: index }), t);
        faces.push(json!({"n": v3(n), "o": p3(x)}));
        if first.is_none() {
            let (a, b) = (r.uni(0.15, 0.4), r.uni(0.15, 0.4));
            first = Some((x + (y - x) * a + (z - x) * b, n));
        }
    }
    let (p, n) = first.unwrap();
    let et = sc["angle"].as_f64().unwrap();
    let e = tilted(r, n, et);
    let d = e * -1.;
    s.build_accelerator();
    let depth = sc["depth"].as_u64().unwrap() as usize;
    let tracer = RayTracer { max_depth: depth, n_shadow_samples: 1, n_ambient_samples: 1 };
    let ray = Ray3D { origin: p + e * r.uni(0.5, 3.), direction: d };
    let mut aux = [0; 32];
    match guard(|| (0..160).map(|_| tracer.trace_ray(rng, &s, ray, &mut aux)).collect::<Vec<_>>()) {
        Ok(v) => w.ev(json!({"op": "block", "res": "ok", "c": fs(&c.0), "index": f(index), "d": v3(d), "n": v3(n), "p": p3(p), "faces": faces, "sky": fs(&k), "skycol": fs(&skycol.0), "depth": depth, "vals": cols(&v)})),
        Err(e) => w.ev(json!({"op": "block", "res": "panic", "why": e})),
    }
}
fn cross(w: &mut W, r: &mut Rng, sc: &Value, rng: &mut RandGen) {
    let c = colour(r, sc["colour"].as_str().unwrap());
    let index: f64 = sc["index"].as_str().unwrap().parse().unwrap();
    let mat = Material::Dielectric(Dielectric { colour: c, refraction_index: index });
    // inside is behind the triangle
    let inside = sc["side"] == 1;
    let (p, n) = (place(r), unit(r));
    let t = around(r, p, if inside { n * -1. } else { n }, 5.);
    let mut s = Scene::new();
    add(&mut s, mat.clone(), t);
    s.build_accelerator();
    let ea = (sc["angle"].as_f64().unwrap() + r.uni(-0.5, 0.5)).abs();
    let e = tilted(r, n, ea);
    let d = e * -1.;
    let mut aux = [0; 32];
    let (here, there) = if inside { (index, 1.) } else { (1., index) };
    let mut go = |dir: Vector3D, eta: f64, rng: &mut RandGen| {
        let ray = Ray3D { origin: p - dir * 2., direction: dir };
        let (_, mut it) = s.cast_ray(ray, &mut aux)?;
        let mut after = eta;
        let x = mat.sample_bsdf(dir, &mut it, &mut after, rng)?;
        let cos = (it.geometry_shading.normal * x.wi).abs();
        Some((x.wi, x.spectrum * cos / x.pdf, x.pdf, after, it.point, x.is_reflection(), x.is_specular()))
    };
    let mut list = vec![];
    let mut refl = 0;
    let many = 200;
    let res = guard(|| {
        for k in 0..many {
            let Some((wi, weight, pdf, after, point, reflected, specular)) = go(d, here, rng) else { return Err("nothing") };
            if reflected {
                refl += 1;
            }
            if k < 12 {
                // and the way back of what went through
                let mut back = Spectrum::BLACK;
                if !reflected {
                    for _ in 0..4000 {
                        match go(wi * -1., there, rng) {
                            Some((_, b, _, _, _, false, _)) => {
                                back = b;
                                break;
                            }
                            Some(_) => (),
                            None => return Err("no way back"),
                        }
                    }
                }
                list.push(json!({"wi": v3(wi), "w": fs(&weight.0), "back": fs(&back.0), "pdf": f(pdf), "after": f(after), "off": f((point - p) * n), "refl": reflected, "spec": specular}));
            }
        }
        Ok(())
    });
    let res = match &res {
        Ok(Ok(())) => "ok",
        Ok(Err(e)) => e,
        Err(_) => "panic",
    };
    w.ev(json!({"op": "cross", "res": res, "c": fs(&c.0), "here": f(here), "there": f(there), "d": v3(d), "n": v3(n), "refl": refl, "many": many, "list": list}));
}
fn lit(w: &mut W, r: &mut Rng, sc: &Value, rng: &mut RandGen) {
    let mat = sc["mat"].as_str().unwrap();
    let c = colour(r, sc["colour"].as_str().unwrap());
    let half: f64 = sc["half"].as_str().unwrap().parse().unwrap();
    let (p, n) = (place(r), unit(r));
    let mut s = Scene::new();
    let t = around(r, p, n * if sc["side"] == 0 { 1. } else { -1. }, 9.);
    add(&mut s, material(mat, c, 1.5), t);
    let many = 1 + sc["two"].as_u64().unwrap() as usize;
    // where the lights are and where the eye is
    let (mut dirs, e) = loop {
        let et = r.uni(0., 75.);
        let e = tilted(r, n, et);
        let dirs: Vec<Vector3D> = (0..many)
            .map(|k| {
                let a = if k == 0 { sc["angle"].as_f64().unwrap() } else { r.uni(0., 80.) };
                tilted(r, n, a)
            })
            .collect();
        if dirs.iter().all(|d| *d * e < 0.97) && (many == 1 || dirs[0] * dirs[1] < 0.97) {
            break (dirs, e);
        }
    };
    if mat == "mirror" && e * n < 0.97 && r.chance(0.6) {
        dirs[0] = n * (2. * (e * n)) - e;
        if many == 2 && dirs[0] * dirs[1] > 0.97 {
            dirs[1] = n;
        }
    }
    let mut lights = vec![];
    for (k, d) in dirs.iter().enumerate() {
        let kind = if k == 0 { sc["light"].as_str().unwrap() } else { *r.pick(&["sun", "sphere", "triangle"]) };
        let l = Spectrum([r.uni(10., 9000.), r.uni(10., 9000.), r.uni(10., 9000.)]);
        let m = s.push_material(Material::Light(Light(l)));
        let far = r.uni(3., 6.);
        let at = p + *d * far;
        let mut what = json!({"kind": kind, "l": fs(&l.0), "d": v3(*d), "far": f(far), "half": f(half), "area": "0.0", "face": "0.0"});
        match kind {
            "sun" => s.push_object(m, m, Primitive::Source(DistantSource3D::new(*d, 2. * half))),
            "sphere" => s.push_object(m, m, Primitive::Sphere(Sphere3D::new(far * half, at))),
            _ => {
                let ft = r.uni(0., 60.);
                let face = tilted(r, *d * -1., ft);
                let t = around(r, at, face, far * half);
                // straight at its middle
                let mid = Point3D::new((t[0].x + t[1].x + t[2].x) / 3., (t[0].y + t[1].y + t[2].y) / 3., (t[0].z + t[1].z + t[2].z) / 3.);
                let x = Triangle3D::new(t[0], t[1], t[2]).unwrap();
                what["d"] = v3((mid - p).get_normalized());
                what["area"] = f((t[1] - t[0]).cross(t[2] - t[0]).length() / 2.);
                what["face"] = f((face * *d).abs());
                s.push_object(m, m, Primitive::Triangle(x));
            }
        }
        lights.push(what);
    }
    let mut block = json!([]);
    let away = match sc["block"].as_str().unwrap() {
        "between" => Some((r.uni(0.8, 2.5), 0.)),
        "near" => Some((0.2, 0.)),
        "beyond" => Some((r.uni(6.5, 9.), 0.)),
        "beside" => Some((r.uni(0.8, 2.5), 1.)),
        _ => None,
    };
    if let Some((far, aside)) = away {
        let d = dirs[0];
        let b = p + d * far + across(d).0 * aside * far;
        // 0.1 wide as seen from the point, facing it
        let t = around(r, b, d * -1., 0.12 * far);
        add(&mut s, Material::Diffuse(Diffuse { colour: Spectrum::BLACK }), t);
        block = tri(&t);
    }
    let sky = if sc["sky"] == 1 { r.uni(1., 50.) } else { 0. };
    if sky > 0. {
        s.sky = Some(Box::new(move |_| sky));
    }
    s.build_accelerator();
    let depth = sc["depth"].as_u64().unwrap() as usize;
    let tracer = RayTracer { max_depth: depth, n_shadow_samples: sc["shadow"].as_u64().unwrap() as usize, n_ambient_samples: 1 };
    let ray = Ray3D { origin: p + e * r.uni(0.4, 0.9), direction: e * -1. };
    let mut aux = [0; 32];
    match guard(|| (0..40).map(|_| tracer.trace_ray(rng, &s, ray, &mut aux)).collect::<Vec<_>>()) {
        Ok(v) => w.ev(json!({"op": "lit", "res": "ok", "mat": mat, "c": fs(&c.0), "p": p3(p), "n": v3(n), "e": v3(e), "lights": lights, "block": block, "sky": f(sky), "depth": depth, "shadow": sc["shadow"], "vals": cols(&v)})),
        Err(e) => w.ev(json!({"op": "lit", "res": "panic", "why": e})),
    }
}
pub fn lightpaths(a: &Args) {
    let mut w = W::new(a);
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(30000 + i as u64);
        let mut rng = RandGen::seed_from_u64(r.next());
        w.begin(format!("C30 {sc}"));
        match sc["mode"].as_str().unwrap() {
            "furnace" => furnace(&mut w, &mut r, sc, &mut rng),
            "bounce" => bounce(&mut w, &mut r, sc, &mut rng),
            "block" => block(&mut w, &mut r, sc, &mut rng),
            "cross" => cross(&mut w, &mut r, sc, &mut rng),
            _ => lit(&mut w, &mut r, sc, &mut rng),
        }
    }
    w.finish()
}
