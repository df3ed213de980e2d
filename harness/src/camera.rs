//! Recorder for cameras and the images rendered through them (C29)
use crate::common::*;
use geometry::{Point3D, Ray3D, Triangle3D, Vector3D};
use rendering::camera::{Camera, CameraSample, Film, Pinhole, View};
use rendering::material::{Diffuse, Light, Material, Mirror};
use rendering::primitive::Primitive;
use rendering::rand::{RandGen, SeedableRng};
use rendering::{RayTracer, Scene, Spectrum};

fn v3(v: Vector3D) -> Value {
    fs(&[v.x, v.y, v.z])
}
fn p3(v: Point3D) -> Value {
    fs(&[v.x, v.y, v.z])
}
fn unit(r: &mut Rng) -> Vector3D {
    loop {
        let v = Vector3D::new(r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.));
        if v.length() > 0.1 && v.length() < 1. {
            return v.get_normalized();
        }
    }
}
fn direction(r: &mut Rng, k: &str) -> Vector3D {
    let axes = [(1., 0., 0.), (0., 1., 0.), (-1., 0., 0.), (0., -1., 0.)];
    match k {
        "axis" => {
            let a = *r.pick(&axes);
            Vector3D::new(a.0, a.1, a.2)
        }
        "steep" => Vector3D::new(r.uni(-0.2, 0.2), r.uni(0.1, 0.3), if r.bool() { 1. } else { -1. }),
        "long" => unit(r) * r.uni(2., 20.),
        _ => unit(r),
    }
}
/// ahead, right, up
fn basis(dir: Vector3D, up: Vector3D) -> (Vector3D, Vector3D, Vector3D) {
    let a = dir.get_normalized();
    let r = a.cross(up).get_normalized();
    (a, r, r.cross(a))
}
fn scenario(w: &mut W, r: &mut Rng, _a: &Args, sc: &Value) {
    w.begin(format!("C29 {sc}"));
    let (dir, up) = loop {
        let d = direction(r, sc["dir"].as_str().unwrap());
        let u = match sc["up"].as_str().unwrap() {
            "z" => Vector3D::new(0., 0., 1.),
            "tilted" => Vector3D::new(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), 1.),
            "long" => unit(r) * r.uni(2., 9.),
            _ => unit(r),
        };
        if d.get_normalized().cross(u.get_normalized()).length() > 0.15 {
            break (d, u);
        }
    };
    let fov = sc["fov"].as_f64().unwrap();
    let (cw, ch) = (sc["size"][0].as_u64().unwrap() as usize, sc["size"][1].as_u64().unwrap() as usize);
    let at = match sc["at"].as_str().unwrap() {
        "origin" => Point3D::new(0., 0., 0.),
        "far" => Point3D::new(r.uni(-900., 900.), r.uni(-900., 900.), r.uni(-50., 50.)),
        _ => Point3D::new(r.uni(-9., 9.), r.uni(-9., 9.), r.uni(-9., 9.)),
    };
    let view = View { view_point: at, view_direction: dir, view_up: up, field_of_view: fov };
    let film = Film { resolution: (cw, ch) };
    let cam = Pinhole::new(view, film);
    let same = cam.film_resolution() == (cw, ch);
    w.ev(json!({"op": "cam", "res": if same { "ok" } else { "size" }, "dir": v3(dir), "up": v3(up), "at": p3(at), "fov": f(fov), "w": cw, "h": ch}));
    let (ahead, right, above) = basis(dir, up);
    let far = 1. / (fov.to_radians() / 2.).tan();
    // through a place on the film: columns and lines with fractions
    let through = |c: f64, l: f64| (ahead * far + right * (2. * c / cw as f64 - 1.) + above * ((ch as f64 - 2. * l) / cw as f64)).get_normalized();
    let find = |w: &mut W, d: Vector3D| {
        let ray = Ray3D { origin: at, direction: d };
        match guard(|| cam.pixel_from_ray(&ray)) {
            Ok(((x, y), g)) => w.ev(json!({"op": "find", "res": "ok", "d": v3(d), "x": x.min(1 << 30), "y": y.min(1 << 30), "wgt": f(g)})),
            Err(e) => w.ev(json!({"op": "find", "res": "panic", "d": v3(d), "why": e})),
        }
    };
    let (fw, fh) = (cw as f64, ch as f64);
    for q in sc["ask"].as_array().unwrap() {
        let (x, y) = (r.below(cw), r.below(ch));
        match q.as_str().unwrap() {
            "own" => {
                let (ray, g) = cam.gen_ray(&CameraSample { p_film: (x, y) });
                w.ev(json!({"op": "own", "res": "ok", "x": x, "y": y, "o": p3(ray.origin), "d": v3(ray.direction), "wgt": f(g)}));
                find(w, ray.direction);
                w.ev(json!({"op": "index", "res": "ok", "x": x, "y": y, "k": cam.pixel_index((x, y))}));
            }
            "inside" => find(w, through(r.uni(0., fw), r.uni(0., fh))),
            "edge" => {
                let e = [0., 1e-9, -1e-9, 1e-3, -1e-3];
                let n = *r.pick(&e);
                let (c, l) = match r.below(5) {
                    0 => (n, r.uni(0., fh)),
                    1 => (fw + n, r.uni(0., fh)),
                    2 => (r.uni(0., fw), n),
                    3 => (r.uni(0., fw), fh + n),
                    _ => (r.below(cw) as f64 + n, r.below(ch) as f64 + *r.pick(&e)),
                };
                find(w, through(c, l))
            }
            "out" => {
                let (dx, dy) = (r.uni(-1., 1.) * fw, r.uni(-1., 1.) * fh);
                let (c, l) = match r.below(4) {
                    0 => (fw + dx.abs(), r.uni(0., fh)),
                    1 => (-dx.abs(), r.uni(0., fh)),
                    2 => (r.uni(0., fw), fh + dy.abs()),
                    _ => (r.uni(0., fw), -dy.abs()),
                };
                find(w, through(c, l))
            }
            "behind" => {
                let mut d = unit(r);
                if d * ahead > 0. {
                    d = d * -1.;
                }
                find(w, d)
            }
            "mirror" => find(w, through(r.uni(0., fw), r.uni(0., fh)) * -1.),
            "across" => find(w, right * r.uni(-1., 1.) + above * r.uni(-1., 1.)),
            _ => find(w, through(r.uni(0., fw), r.uni(0., fh)) * r.uni(0.1, 7.)),
        }
    }
    let mut rng = RandGen::seed_from_u64(r.next());
    let at_random: Vec<Value> = (0..20).map(|_| cam.gen_random_sample(&mut rng).p_film).map(|(x, y)| json!([x.min(1 << 30), y.min(1 << 30)])).collect();
    w.ev(json!({"op": "random", "res": "ok", "at": at_random}));
    if sc["render"] == 0 {
        return;
    }
    let thing = sc["thing"].as_str().unwrap();
    let col = Spectrum([r.uni(0.1, 90.), r.uni(0.1, 90.), r.uni(0.1, 90.)]);
    let skycol = Spectrum([r.uni(0.1, 9.), r.uni(0.1, 9.), r.uni(0.1, 9.)]);
    let sky = [r.uni(2., 4.), r.uni(-1., 1.), r.uni(-1., 1.), r.uni(-1., 1.)];
    let mut s = Scene::new();
    s.sky = Some(Box::new(move |d: Vector3D| sky[0] + sky[1] * d.x + sky[2] * d.y + sky[3] * d.z));
    s.sky_colour = Some(skycol);
    let mut tri = vec![];
    if thing != "none" {
        let m = s.push_material(match thing {
            "light" => Material::Light(Light(col)),
            "mirror" => Material::Mirror(Mirror(Spectrum::gray(1.))),
            _ => Material::Diffuse(Diffuse { colour: Spectrum::gray(0.5) }),
        });
        let mut p = || at + through(r.uni(-0.2, 1.2) * fw, r.uni(-0.2, 1.2) * fh) * r.uni(2., 8.);
        loop {
            let (a, b, c) = (p(), p(), p());
            let n = (b - a).cross(c - a);
            // not seen from the side
            if n.length() < 0.1 || ((a - at) * n.get_normalized()).abs() < 0.1 {
                continue;
            }
            if let Ok(t) = Triangle3D::new(a, b, c) {
                s.push_object(m, m, Primitive::Triangle(t));
                tri = vec![p3(a), p3(b), p3(c)];
                break;
            }
        }
    } else {
        // something to look past
        let m = s.push_material(Material::Diffuse(Diffuse { colour: Spectrum::gray(0.5) }));
        let c = at + ahead * -500.;
        s.push_object(m, m, Primitive::Triangle(Triangle3D::new(c, c + right * 0.1, c + above * 0.1).unwrap()));
    }
    s.build_accelerator();
    let depth = sc["depth"].as_u64().unwrap() as usize;
    let tracer = RayTracer { max_depth: depth, n_shadow_samples: 1, n_ambient_samples: sc["samples"].as_u64().unwrap() as usize };
    match guard(|| tracer.render(&s, &cam)) {
        Ok(im) => {
            let all = im.pixels.len();
            let mut places: Vec<usize> = (0..all).collect();
            if all > 48 {
                r.shuffle(&mut places);
                places.truncate(40);
                places.push(0);
                places.push(all - 1);
            }
            let px: Vec<Value> = places.iter().map(|k| (k % cw, k / cw)).map(|(x, y)| json!([x, y, fs(&im[(x, y)].0)])).collect();
            w.ev(json!({"op": "image", "res": "ok", "w": im.width, "h": im.height, "n": all, "thing": thing, "tri": tri, "col": fs(&col.0), "skycol": fs(&skycol.0), "sky": fs(&sky), "depth": depth, "px": px}));
        }
        Err(e) => w.ev(json!({"op": "image", "res": "panic", "why": e})),
    }
}
pub fn camera(a: &Args) {
    let mut w = W::new(a);
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(29000 + i as u64);
        scenario(&mut w, &mut r, a, sc);
    }
    w.finish()
}
