//! Recorder for the radiation on walls and windows (C25)
use crate::common::*;
use crate::sky::date_at;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use geometry::Vector3D;
use light::{OpticalInfo, SolarModel};
use matrix::Matrix;
use model::{Boundary, FenestrationType, Model, SimulationState, SimulationStateElement as El, SimulationStateHeader, SolarOptions};
use std::path::{Path, PathBuf};
use weather::solar::ReinhartSky;
use weather::{CurrentWeather, Location, PerezSky, SkyUnits, Solar, WeatherTrait};

struct Now(CurrentWeather);
impl WeatherTrait for Now {
    fn get_weather_data(&self, _: Date) -> CurrentWeather {
        self.0
    }
}
struct Site {
    meta: MetaOptions,
    solar: Solar,
}
fn site(r: &mut Rng) -> Site {
    let lat = r.uni(-65., 65f64).to_radians();
    let tz = r.range(-11, 11);
    let lon = (tz as f64 * 15. + r.uni(-10., 10.)).to_radians();
    let l = Location { latitude: lat, longitude: lon, timezone: tz as i8, ..Location::default() };
    Site { meta: MetaOptions { latitude: lat, longitude: lon, standard_meridian: (tz as f64 * 15.).to_radians(), elevation: 0. }, solar: l.get_solar() }
}
fn sky(r: &mut Rng, x: &Value, date: Date) -> CurrentWeather {
    let (direct, diffuse) = match x["sky"].as_str().unwrap() {
        "night" => (0., 0.),
        "edge" => *r.pick(&[(0., 0.00009), (0.00009, 0.), (0.00006, 0.00006), (0.0002, 0.), (0., 0.0002)]),
        "dim" => (0., r.uni(0.5, 30.)),
        "overcast" => (r.uni(0., 5.), r.uni(50., 300.)),
        "clear" => (r.uni(700., 950.), r.uni(30., 90.)),
        _ => (r.uni(50., 600.), r.uni(30., 300.)),
    };
    CurrentWeather {
        date,
        dry_bulb_temperature: r.uni(-20., 40.),
        dew_point_temperature: r.uni(-20., 20.),
        direct_normal_radiation: direct,
        diffuse_horizontal_radiation: diffuse,
        global_horizontal_radiation: direct + diffuse,
        horizontal_infrared_radiation_intensity: if x["hir"] == "given" { Some(r.uni(150., 450.)) } else { None },
        opaque_sky_cover: match x["cover"].as_str().unwrap() {
            "none" => 0.,
            "full" => 10.,
            _ => r.uni(0., 10.),
        },
        pressure: 101300.,
        ..CurrentWeather::default()
    }
}
fn boundary(r: &mut Rng, k: &Value) -> Value {
    match k.as_str().unwrap() {
        "outdoor" => json!({"type": "Outdoor"}),
        "space" => json!({"type": "Space", "space": "room"}),
        "ambient" => json!({"type": "AmbientTemperature", "temperature": r.uni(-10., 40.)}),
        "ground" => json!({"type": "Ground"}),
        _ => json!({"type": "Adiabatic"}),
    }
}
fn kind(b: &Boundary) -> &'static str {
    match b {
        Boundary::Outdoor => "outdoor",
        Boundary::Ground => "ground",
        Boundary::Space { .. } => "space",
        Boundary::AmbientTemperature { .. } => "ambient",
        Boundary::Adiabatic => "adiabatic",
    }
}
fn blank() -> Value {
    json!({"substances": [{"type": "Normal", "name": "s", "thermal_conductivity": 1., "density": 1000., "specific_heat_capacity": 1000., "front_solar_absorbtance": 1., "back_solar_absorbtance": 1.},
        {"type": "Normal", "name": "bright", "thermal_conductivity": 1., "density": 1000., "specific_heat_capacity": 1000., "front_solar_absorbtance": 0.4, "back_solar_absorbtance": 0.4}],
        "materials": [{"name": "m", "substance": "s", "thickness": 0.1}, {"name": "bright", "substance": "bright", "thickness": 0.1}],
        "constructions": [{"name": "c", "materials": ["m"]}, {"name": "bright", "materials": ["bright"]}], "spaces": [{"name": "room", "volume": 40}], "surfaces": [], "fenestrations": []})
}
/// the state every side needs
fn push_all(r: &mut Rng, m: &Model, h: &mut SimulationStateHeader, nodes: &[bool], zero: &[bool]) {
    let mut j = 0;
    macro_rules! all {
        ($list:expr, $fs:ident, $bs:ident, $fi:ident, $bi:ident, $t:ident) => {
            for (i, s) in $list.iter().enumerate() {
                let mut v = || if zero[j] { 0. } else { r.uni(0., 500.) };
                // the optical calculation may have done this already
                if s.front_incident_solar_irradiance_index().is_none() {
                    s.set_front_incident_solar_irradiance_index(h.push(El::$fs(i), v()).unwrap()).unwrap();
                    s.set_back_incident_solar_irradiance_index(h.push(El::$bs(i), v()).unwrap()).unwrap();
                    s.set_front_ir_irradiance_index(h.push(El::$fi(i), v()).unwrap()).unwrap();
                    s.set_back_ir_irradiance_index(h.push(El::$bi(i), v()).unwrap()).unwrap();
                }
                if nodes[j] {
                    s.set_first_node_temperature_index(h.push(El::$t(i, 0), 21.).unwrap()).unwrap();
                    s.set_last_node_temperature_index(h.push(El::$t(i, 1), 21.).unwrap()).unwrap();
                }
                j += 1;
            }
        };
    }
    all!(m.surfaces, SurfaceFrontSolarIrradiance, SurfaceBackSolarIrradiance, SurfaceFrontIRIrradiance, SurfaceBackIRIrradiance, SurfaceNodeTemperature);
    all!(m.fenestrations, FenestrationFrontSolarIrradiance, FenestrationBackSolarIrradiance, FenestrationFrontIRIrradiance, FenestrationBackIRIrradiance, FenestrationNodeTemperature);
}
fn closed(t: FenestrationType) -> bool {
    t != FenestrationType::Opening
}
/// temperature of its node, infrared and solar irradiance of each side of all but the openings
fn sides(m: &Model, st: &SimulationState) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    let (mut t, mut ir, mut sun) = (vec![], vec![], vec![]);
    let temp = |b: &Boundary, node: Option<f64>| match b {
        Boundary::AmbientTemperature { temperature } => *temperature,
        _ => node.unwrap_or(22.),
    };
    macro_rules! all {
        ($list:expr) => {
            for s in $list {
                t.extend([temp(&s.front_boundary, s.first_node_temperature(st)), temp(&s.back_boundary, s.last_node_temperature(st))]);
                ir.extend([s.front_ir_irradiance(st).unwrap(), s.back_ir_irradiance(st).unwrap()]);
                sun.extend([s.front_incident_solar_irradiance(st).unwrap(), s.back_incident_solar_irradiance(st).unwrap()]);
            }
        };
    }
    all!(m.surfaces.iter());
    all!(m.fenestrations.iter().filter(|x| closed(x.category)));
    (t, ir, sun)
}
fn row(m: &Matrix, i: usize) -> Vec<f64> {
    let (_, n) = m.size();
    (0..n).map(|k| m.get(i, k).unwrap()).collect()
}
fn describe(m: &Model, o: &OpticalInfo) -> Value {
    let mut ret = vec![];
    let v = |x: &light::IRViewFactorSet| fs(&[x.sky, x.ground, x.air]);
    for (i, s) in m.surfaces.iter().enumerate() {
        ret.push(json!({"kind": kind(&s.front_boundary), "view": v(&o.front_surfaces_view_factors[i]), "row": fs(&row(&o.front_surfaces_dc, i))}));
        ret.push(json!({"kind": kind(&s.back_boundary), "view": v(&o.back_surfaces_view_factors[i]), "row": fs(&row(&o.back_surfaces_dc, i))}));
    }
    for (i, s) in m.fenestrations.iter().enumerate().filter(|x| closed(x.1.category)) {
        ret.push(json!({"kind": kind(&s.front_boundary), "view": v(&o.front_fenestrations_view_factors[i]), "row": fs(&row(&o.front_fenestrations_dc, i))}));
        ret.push(json!({"kind": kind(&s.back_boundary), "view": v(&o.back_fenestrations_view_factors[i]), "row": fs(&row(&o.back_fenestrations_dc, i))}));
    }
    Value::Array(ret)
}
/// marches the model over some weather
fn march(w: &mut W, r: &mut Rng, sc: &Value, m: &Model, sm: &SolarModel, st: &mut SimulationState, s: &Site, mf: usize, n0: f64) {
    let mut n = n0;
    for x in sc["steps"].as_array().unwrap() {
        let d = date_at(n % 365.);
        n += 0.25 / 24.;
        let mut cw = sky(r, x, d);
        // light needs a sun
        if x["sky"] != "night" && x["sky"] != "edge" && s.solar.sun_position_from_standard_time(d).is_none() {
            cw.direct_normal_radiation = 0.;
        }
        let night = cw.direct_normal_radiation + cw.diffuse_horizontal_radiation < 1e-5;
        let vec = if night {
            vec![]
        } else {
            match guard_res(|| PerezSky::gen_sky_vec(mf, &s.solar, d, cw, SkyUnits::Solar, 0.2, true, true)) {
                Ok(v) => (0..v.size().0).map(|k| v.get(k, 0).unwrap()).collect(),
                Err(_) => continue,
            }
        };
        for x in m.surfaces.iter() {
            if x.first_node_temperature_index().is_some() {
                x.set_first_node_temperature(st, r.uni(-20., 60.)).unwrap();
                x.set_last_node_temperature(st, r.uni(-20., 60.)).unwrap();
            }
        }
        for x in m.fenestrations.iter() {
            if x.first_node_temperature_index().is_some() {
                x.set_first_node_temperature(st, r.uni(-20., 60.)).unwrap();
                x.set_last_node_temperature(st, r.uni(-20., 60.)).unwrap();
            }
        }
        let res = match guard_res(|| sm.march(d, &Now(cw), m, st, &mut ())) {
            Ok(_) => "ok",
            Err((k, _)) => k,
        };
        let (t, ir, sun) = sides(m, st);
        w.ev(json!({"op": "march", "res": res, "dry": f(cw.dry_bulb_temperature), "dew": f(cw.dew_point_temperature), "cover": f(cw.opaque_sky_cover), "hir": cw.horizontal_infrared_radiation_intensity.map_or(json!("none"), f),
            "direct": f(cw.direct_normal_radiation), "diffuse": f(cw.diffuse_horizontal_radiation), "vec": fs(&vec), "temp": fs(&t), "ir": fs(&ir), "sun": fs(&sun)}));
    }
}
fn given(w: &mut W, r: &mut Rng, sc: &Value, dir: &Path) {
    let mut js = blank();
    let mf = sc["mf"].as_u64().unwrap() as usize;
    let (mut nodes, mut zero) = (vec![], vec![]);
    for (k, key) in [("walls", "surfaces"), ("windows", "fenestrations")] {
        for (i, x) in sc[k].as_array().unwrap().iter().enumerate() {
            let mut y = json!({"name": format!("{k}{i}"), "construction": "c", "vertices": [0, 0, i, 3, 0, i, 3, 2, i, 0, 2, i], "front_boundary": boundary(r, &x["f"]), "back_boundary": boundary(r, &x["b"])});
            if k == "windows" {
                y["category"] = x["cat"].clone();
            }
            js[key].as_array_mut().unwrap().push(y);
            nodes.push(x["node"] == true);
            zero.push(x["first"] == "0");
        }
    }
    let (m, mut h) = Model::from_json(&js.to_string()).expect("model");
    // what the sides see
    let bins = ReinhartSky::n_bins(mf);
    let mut o = OpticalInfo::default();
    let mut rows = |r: &mut Rng, bs: Vec<&Boundary>| {
        let mut ret = vec![];
        for b in &bs {
            let mut left = 3.;
            for _ in 0..bins {
                let v = if !matches!(b, Boundary::Outdoor | Boundary::Space { .. }) || r.chance(0.6) { 0. } else { r.uni(0., 0.1 * left) };
                left -= v;
                ret.push(v);
            }
        }
        if bs.is_empty() { Matrix::empty() } else { Matrix::from_data(bs.len(), bins, ret) }
    };
    let views = |r: &mut Rng, n: usize| {
        (0..n)
            .map(|_| {
                let (a, b) = (r.unit(), r.unit());
                let (a, b) = (a.min(b), a.max(b));
                light::IRViewFactorSet { sky: a, ground: b - a, air: 1. - b }
            })
            .collect::<Vec<_>>()
    };
    o.front_surfaces_view_factors = views(r, m.surfaces.len());
    o.back_surfaces_view_factors = views(r, m.surfaces.len());
    o.front_fenestrations_view_factors = views(r, m.fenestrations.len());
    o.back_fenestrations_view_factors = views(r, m.fenestrations.len());
    o.front_surfaces_dc = rows(r, m.surfaces.iter().map(|s| &s.front_boundary).collect());
    o.back_surfaces_dc = rows(r, m.surfaces.iter().map(|s| &s.back_boundary).collect());
    o.front_fenestrations_dc = rows(r, m.fenestrations.iter().map(|s| &s.front_boundary).collect());
    o.back_fenestrations_dc = rows(r, m.fenestrations.iter().map(|s| &s.back_boundary).collect());
    let path = dir.join("optical.json");
    std::fs::write(&path, serde_json::to_string(&o).unwrap()).unwrap();
    let mut opt = SolarOptions::new();
    opt.set_optical_data_path(path.to_str().unwrap());
    let s = site(r);
    push_all(r, &m, &mut h, &nodes, &zero);
    let sm = guard_res(|| SolarModel::new(&s.meta, opt, &m, &mut h, 4));
    let mut st = h.take_values().unwrap();
    let (_, ir, sun) = sides(&m, &st);
    let mut e = json!({"op": "setup", "sides": describe(&m, &o), "ir": fs(&ir), "sun": fs(&sun)});
    w.begin("given");
    match sm {
        Ok(sm) => {
            e["res"] = json!("ok");
            w.ev(e);
            let n0 = (sc["month"].as_f64().unwrap() * 30. + r.uni(0., 30.)) % 365.;
            march(w, r, sc, &m, &sm, &mut st, &s, mf, n0);
        }
        Err((k, x)) => {
            e["res"] = json!(k);
            e["msg"] = json!(x);
            w.ev(e);
        }
    }
}
fn frame(n: Vector3D) -> (Vector3D, Vector3D) {
    let e1 = n.get_perpendicular().unwrap().get_normalized();
    (e1, n.cross(e1).get_normalized())
}
/// a small wall or window that looks at something
fn look(w: &mut W, r: &mut Rng, sc: &Value, dir: &Path) {
    let what = sc["kind"].as_str().unwrap();
    let tilt = sc["tilt"].as_f64().unwrap().to_radians();
    let az = r.uni(0., 6.28);
    let n = Vector3D::new(tilt.sin() * az.cos(), tilt.sin() * az.sin(), tilt.cos()).get_normalized();
    let (e1, e2) = frame(n);
    let at = Vector3D::new(r.uni(-5., 5.), r.uni(-5., 5.), r.uni(0., 5.));
    let quad = |c: Vector3D, u: Vector3D, v: Vector3D| {
        let mut vs: Vec<f64> = vec![];
        for (a, b) in [(-1., -1.), (1., -1.), (1., 1.), (-1., 1.)] {
            let p = c + u * a + v * b;
            vs.extend([p.x, p.y, p.z]);
        }
        json!(vs)
    };
    let mut js = blank();
    let dist = r.uni(0.7, 3.);
    let (wd, hg) = if what == "wide" { (dist * r.uni(10., 25.), dist * r.uni(10., 25.)) } else { (dist * r.uni(0.5, 4.), dist * r.uni(0.5, 4.)) };
    let mut things = vec![];
    let cons = if what == "bright" { "bright" } else { "c" };
    match what {
        "alone" => {}
        "box" => {
            let z = 2.;
            for k in 0..3 {
                let (a, b, c) = [(n, e1, e2), (e1, e2, n), (e2, n, e1)][k];
                things.push(quad(at + a * z, b * z, c * z));
                things.push(quad(at - a * z, b * z, c * z));
            }
        }
        _ => {
            // level with the horizon, as seen by a vertical one
            let (u, v) = if n.z.abs() < 1e-9 { (Vector3D::new(0., 0., 1.).cross(n), Vector3D::new(0., 0., 1.)) } else { (e1, e2) };
            things.push(quad(at + n * dist, u * (wd / 2.), v * (hg / 2.)));
        }
    }
    let size = 0.02;
    let me = json!({"name": "me", "construction": "c", "vertices": quad(at, e1 * size, e2 * size), "front_boundary": {"type": "Outdoor"}, "back_boundary": boundary(r, &sc["back"])});
    let key = if sc["as"] == "wall" { "surfaces" } else { "fenestrations" };
    // others before it, so that it is not always the first
    for k in 0..sc["skip"].as_u64().unwrap() {
        let far = at - n * (200. + k as f64);
        js[key].as_array_mut().unwrap().push(json!({"name": format!("far{k}"), "construction": "c", "vertices": quad(far, e1 * size, e2 * size), "front_boundary": {"type": "Ground"}, "back_boundary": {"type": "Ground"}}));
    }
    let index = js[key].as_array().unwrap().len();
    js[key].as_array_mut().unwrap().push(me);
    for (i, t) in things.into_iter().enumerate() {
        js["surfaces"].as_array_mut().unwrap().push(json!({"name": format!("thing{i}"), "construction": cons, "vertices": t, "front_boundary": {"type": "Ground"}, "back_boundary": {"type": "Ground"}}));
    }
    if js["surfaces"].as_array().unwrap().is_empty() {
        let far = at - n * 300.;
        js["surfaces"].as_array_mut().unwrap().push(json!({"name": "far", "construction": "c", "vertices": quad(far, e1 * size, e2 * size), "front_boundary": {"type": "Ground"}, "back_boundary": {"type": "Ground"}}));
    }
    let (m, mut h) = Model::from_json(&js.to_string()).expect("model");
    let mf = sc["mf"].as_u64().unwrap() as usize;
    let (points, amb) = (6 + r.below(5), 3000);
    let path = dir.join("calculated.json");
    let _ = std::fs::remove_file(&path);
    let mut opt = SolarOptions::new();
    opt.set_optical_data_path(path.to_str().unwrap()).set_n_solar_irradiance_points(points).set_solar_ambient_divitions(amb).set_solar_sky_discretization(mf);
    let s = site(r);
    w.begin(format!("look {what}"));
    let sm = guard_res(|| SolarModel::new(&s.meta, opt, &m, &mut h, 4));
    let o: Option<OpticalInfo> = std::fs::read_to_string(&path).ok().and_then(|x| serde_json::from_str(&x).ok());
    w.ev(json!({"op": "file", "written": o.is_some()}));
    let o = match o {
        Some(o) => o,
        None => return,
    };
    let (sm, res) = match sm {
        Ok(x) => (Some(x), "ok"),
        Err((k, _)) => (None, k),
    };
    let sky = ReinhartSky::new(mf);
    for front in [true, false] {
        let (v, dc) = match (sc["as"] == "wall", front) {
            (true, true) => (&o.front_surfaces_view_factors, &o.front_surfaces_dc),
            (true, false) => (&o.back_surfaces_view_factors, &o.back_surfaces_dc),
            (false, true) => (&o.front_fenestrations_view_factors, &o.front_fenestrations_dc),
            (false, false) => (&o.back_fenestrations_view_factors, &o.back_fenestrations_dc),
        };
        let nn = if front { n } else { n * -1. };
        let dots: Vec<f64> = (1..sky.n_bins).map(|b| sky.bin_dir(b) * nn).collect();
        let omega: Vec<f64> = (1..sky.n_bins).map(|b| sky.bin_solid_angle(b)).collect();
        let sees = match what {
            "box" => "box",
            "alone" => "free",
            _ if !front => "free",
            _ => "facing",
        };
        w.ev(json!({"op": "look", "res": res, "what": sees, "nz": f(nn.z), "w": f(wd), "h": f(hg), "d": f(dist), "view": fs(&[v[index].sky, v[index].ground, v[index].air]), "dc": fs(&row(dc, index)), "dots": fs(&dots), "omega": fs(&omega),
            "rays": f(10000. * points as f64), "samples": f((amb * points) as f64), "rho": if what == "bright" { "0.6" } else { "0" }, "radius": if mf == 1 { "0.35" } else { "0.2" }, "sun": front || sc["back"] != "ground"}));
    }
    // and it is what marches
    let k = m.surfaces.len() + m.fenestrations.len();
    push_all(r, &m, &mut h, &vec![false; k], &vec![true; k]);
    let mut st = h.take_values().unwrap();
    let (_, ir, sun) = sides(&m, &st);
    w.ev(json!({"op": "setup", "res": res, "sides": describe(&m, &o), "ir": fs(&ir), "sun": fs(&sun)}));
    if let Some(sm) = sm {
        let n0 = r.uni(0., 364.);
        march(w, r, sc, &m, &sm, &mut st, &s, mf, n0);
    }
}
fn load(w: &mut W, r: &mut Rng, sc: &Value, dir: &Path) {
    let what = sc["what"].as_str().unwrap();
    let mut js = blank();
    js["surfaces"] = json!([{"name": "a", "construction": "c", "vertices": [0, 0, 0, 3, 0, 0, 3, 2, 0, 0, 2, 0], "front_boundary": {"type": "Outdoor"}, "back_boundary": {"type": "Outdoor"}}]);
    let (m, mut h) = Model::from_json(&js.to_string()).expect("model");
    let bins = match what {
        "empty" => 0,
        "odd" => 147 + r.below(300),
        _ => ReinhartSky::n_bins(sc["mf"].as_u64().unwrap() as usize),
    };
    let mut o = OpticalInfo::default();
    o.front_surfaces_view_factors = vec![Default::default()];
    o.back_surfaces_view_factors = vec![Default::default()];
    if bins > 0 {
        o.front_surfaces_dc = Matrix::new(0., 1, bins);
        o.back_surfaces_dc = Matrix::new(0., 1, bins);
    }
    let path = dir.join("some.json");
    let _ = std::fs::remove_file(&path);
    let mut opt = SolarOptions::new();
    opt.set_optical_data_path(path.to_str().unwrap());
    match what {
        "garbage" => std::fs::write(&path, "{ this is not what you expected }").unwrap(),
        "folder" => {
            opt.set_optical_data_path(dir.to_str().unwrap());
        }
        _ => std::fs::write(&path, serde_json::to_string(&o).unwrap()).unwrap(),
    }
    let s = site(r);
    w.begin("load");
    let res = match guard_res(|| SolarModel::new(&s.meta, opt, &m, &mut h, 4)) {
        Ok(_) => "ok",
        Err((k, _)) => k,
    };
    w.ev(json!({"op": "load", "what": what, "res": res}));
}
pub fn light(a: &Args) {
    let mut w = W::new(a);
    let dir: PathBuf = a.work.join(format!("light-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(25_000 + i as u64);
        match sc["mode"].as_str().unwrap() {
            "march" => given(&mut w, &mut r, sc, &dir),
            "look" => look(&mut w, &mut r, sc, &dir),
            _ => load(&mut w, &mut r, sc, &dir),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    w.finish();
}
