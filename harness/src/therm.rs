//! Recorders of the thermal model: cavities (C14), marching of walls and zones (C10, C12)
use crate::common::*;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use heat::cavity::Cavity;
use heat::discretization::UValue;
use heat::gas::{Gas, AIR, ARGON, KRYPTON, XENON};
use heat::heat_model::ThermalModel;
use heat::surface::ThermalSurfaceData;
use model::{Boundary, Model, SimulationState, SimulationStateElement as S, SurfaceTrait};
use std::sync::Mutex;
use weather::{CurrentWeather, WeatherTrait};

pub const GASES: [&str; 4] = ["Air", "Argon", "Krypton", "Xenon"];
pub fn gas(n: &str) -> Gas {
    match n {
        "Air" => AIR,
        "Argon" => ARGON,
        "Krypton" => KRYPTON,
        "Xenon" => XENON,
        _ => panic!("{n}"),
    }
}
pub fn gas_name(g: &Gas) -> &'static str {
    GASES.iter().find(|n| (gas(n).mass() - g.mass()).abs() < 1e-6).copied().unwrap_or("unknown")
}
pub fn cavity_json(c: &Cavity) -> Value {
    json!({"gas": gas_name(&c.gas), "th": f(c.thickness), "h": f(c.height), "angle": f(c.angle), "eout": f(c.eout), "ein": f(c.ein)})
}

fn u_event(w: &mut W, c: &Cavity, tf: f64, tb: f64) {
    let r = guard(|| (c.u_value(tf, tb), c.gas.cavity_convection(c.height, c.thickness, c.angle, tf, tb)));
    let mut e = json!({"op": "u", "c": cavity_json(c), "tf": f(tf), "tb": f(tb)});
    match r {
        Ok((u, conv)) => {
            e["res"] = json!("ok");
            e["u"] = f(u);
            e["conv"] = f(conv);
        }
        Err(_) => e["res"] = json!("panic"),
    }
    w.one(e)
}

pub fn cavity(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(141);
    for g in GASES {
        let x = gas(g);
        for _ in 0..a.n(300, 3000) {
            let t = r.uni(223., 343.);
            w.one(json!({"op": "gas", "gas": g, "t": f(t), "k": f(x.thermal_conductivity(t)), "mu": f(x.dynamic_viscosity(t)),
                "cp": f(x.heat_capacity(t)), "rho": f(x.density(t)), "mass": f(x.mass())}));
        }
    }
    for s in a.read_scenarios() {
        let g = |k: &str| s[k].as_f64().unwrap();
        let c = Cavity {
            gas: gas(s["gas"].as_str().unwrap()),
            thickness: g("mm") / 1000.,
            height: g("height"),
            angle: g("deg").to_radians(),
            eout: s["e"][0].as_f64().unwrap() / 100.,
            ein: s["e"][1].as_f64().unwrap() / 100.,
        };
        u_event(&mut w, &c, g("tf"), g("tf") + g("dT"));
    }
    for _ in 0..a.n(8000, 150_000) {
        let c = Cavity {
            gas: gas(*r.pick(&GASES)),
            thickness: if r.chance(0.8) { r.uni(0.003, 0.03) } else { r.uni(0.03, 0.3) },
            height: if r.chance(0.5) { 1. } else { r.uni(0.3, 3.) },
            angle: if r.chance(0.3) { std::f64::consts::FRAC_PI_2 } else { r.uni(0., std::f64::consts::PI) },
            eout: r.uni(0.03, 0.95),
            ein: r.uni(0.03, 0.95),
        };
        let tf = r.uni(-30., 60.);
        let tb = if r.chance(0.1) { tf } else if r.chance(0.3) { tf + r.uni(-1., 1.) } else { r.uni(-30., 60.) };
        u_event(&mut w, &c, tf, tb);
    }
    w.finish()
}

// ---------------------------------------------------------------- thermal model

/// A weather that depends on the time, and remembers when it was asked.
pub struct Probe {
    base: CurrentWeather,
    log: Mutex<Vec<CurrentWeather>>,
}
impl Probe {
    fn at(&self, d: Date) -> CurrentWeather {
        let x = d.hour + 3. * d.day as f64 + d.month as f64;
        CurrentWeather {
            date: d,
            dry_bulb_temperature: self.base.dry_bulb_temperature + 5. * (x * 2.).sin(),
            wind_speed: self.base.wind_speed * (1. + 0.5 * x.cos()),
            wind_direction: self.base.wind_direction + 0.3 * (3. * x).sin(),
            ..self.base
        }
    }
}
impl WeatherTrait for Probe {
    fn get_weather_data(&self, d: Date) -> CurrentWeather {
        let w = self.at(d);
        self.log.lock().unwrap().push(w);
        w
    }
}

fn rect(r: &mut Rng, az: f64, tilt: f64, o: [f64; 3], a: f64, b: f64) -> Vec<f64> {
    let (s, c) = az.sin_cos();
    let (st, ct) = tilt.sin_cos();
    let n = [s * st, c * st, ct];
    let u = [-c, s, 0.];
    let v = [n[1] * u[2] - n[2] * u[1], n[2] * u[0] - n[0] * u[2], n[0] * u[1] - n[1] * u[0]];
    // anticlockwise seen from where the normal points
    let mut ps = vec![[0., 0.], [a, 0.], [a, b], [0., b]];
    let k = r.below(4);
    ps.rotate_left(k);
    ps.iter().flat_map(|p| (0..3).map(|i| o[i] + p[0] * u[i] + p[1] * v[i]).collect::<Vec<f64>>()).collect()
}

pub fn round(x: f64, k: i32) -> f64 {
    let m = 10f64.powi(k);
    (x * m).round() / m
}

pub struct World {
    pub model: Value,
    pub spec: Value, // what the trace says about the scenario
}

pub fn substances(r: &mut Rng) -> Vec<Value> {
    // name, k, rho, cp, transparent
    let mut v = vec![
        json!({"name": "brick", "thermal_conductivity": 0.816, "density": 1700., "specific_heat_capacity": 800.}),
        json!({"name": "concrete", "thermal_conductivity": 1.63, "density": 2400., "specific_heat_capacity": 900.}),
        json!({"name": "wool", "thermal_conductivity": 0.0252, "density": 17.5, "specific_heat_capacity": 2400.}),
        json!({"name": "wood", "thermal_conductivity": 0.12, "density": 500., "specific_heat_capacity": 1600.}),
        json!({"name": "plaster", "thermal_conductivity": 0.3, "density": 1100., "specific_heat_capacity": 900.}),
        json!({"name": "glass", "thermal_conductivity": 1., "density": 2500., "specific_heat_capacity": 750., "solar_transmittance": 0.7}),
        json!({"name": "lowe", "thermal_conductivity": 0.9, "density": 2500., "specific_heat_capacity": 750., "solar_transmittance": 0.45}),
    ];
    for s in v.iter_mut() {
        s["type"] = json!("Normal");
        for k in ["front_thermal_absorbtance", "back_thermal_absorbtance"] {
            if r.chance(0.8) {
                s[k] = json!(round(r.uni(0.05, 0.95), 2));
            }
        }
        let max = if s["solar_transmittance"].is_null() { 0.95 } else { 1. - s["solar_transmittance"].as_f64().unwrap() - 0.05 };
        for k in ["front_solar_absorbtance", "back_solar_absorbtance"] {
            if r.chance(0.8) || max < 0.8 {
                s[k] = json!(round(r.uni(0.02, max), 2));
            }
        }
    }
    v
}
/// layers as (substance, thickness)
pub fn layers(r: &mut Rng, hint: &Value) -> Vec<(&'static str, f64)> {
    let solid = |r: &mut Rng| -> (&'static str, f64) {
        match r.below(5) {
            0 => ("brick", round(r.uni(0.08, 0.3), 3)),
            1 => ("concrete", round(r.uni(0.05, 0.25), 3)),
            2 => ("wool", round(r.uni(0.02, 0.12), 3)),
            3 => ("wood", round(r.uni(0.01, 0.05), 3)),
            _ => ("plaster", round(r.uni(0.008, 0.03), 3)),
        }
    };
    let glass = |r: &mut Rng| (*r.pick(&["glass", "lowe"]), *r.pick(&[0.003, 0.006, 0.01]));
    let kind = hint.as_u64().map_or_else(|| r.below(8), |x| x as usize);
    match kind {
        0 => vec![("brick", 0.2)],
        1 => vec![("wool", 0.1)],
        2 => vec![("brick", 0.15), ("wool", 0.05)],
        3 => vec![glass(r)],
        4 => vec![glass(r), (*r.pick(&["air", "argon", "krypton", "xenon"]), round(r.uni(0.006, 0.02), 3)), glass(r)],
        5 => vec![("brick", 0.1), ("air", round(r.uni(0.02, 0.08), 3)), ("brick", 0.1)],
        _ => (0..1 + r.below(4)).map(|_| solid(r)).collect(),
    }
}

fn boundary(r: &mut Rng, names: &[String], front: bool, hint: &Value) -> Value {
    match hint.as_str() {
        Some("Ambient") => return json!({"type": "AmbientTemperature", "temperature": round(r.uni(-5., 35.), 1)}),
        Some("Space") => return json!({"type": "Space", "space": r.pick(names)}),
        Some(k) => return json!({"type": k}),
        None => {}
    }
    let p = r.unit();
    if p < 0.35 && !names.is_empty() {
        json!({"type": "Space", "space": r.pick(names)})
    } else if p < 0.7 {
        json!({"type": "Outdoor"})
    } else if p < 0.85 || front {
        json!({"type": "AmbientTemperature", "temperature": round(r.uni(-5., 35.), 1)})
    } else {
        json!({"type": "Adiabatic"})
    }
}

fn tilt(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 | 1 => std::f64::consts::FRAC_PI_2,
        2 => 0.,
        3 => std::f64::consts::PI,
        _ => r.uni(0.05, 3.09),
    }
}

fn surf_json(r: &mut Rng, name: String, names: &[String], cons: &str, hint: &Value) -> (Value, Value) {
    let (az, ti) = (if r.chance(0.5) { (r.below(8) as f64) * 0.7853981633974483 } else { r.uni(0., 6.28) }, tilt(r));
    let ti = hint["tilt"].as_f64().map_or(ti, |d| d.to_radians());
    let (wd, ht) = (r.uni(0.5, 6.), r.uni(0.5, 4.));
    let o = [r.uni(-10., 10.), r.uni(-10., 10.), if r.chance(0.15) { -6. } else { r.uni(0., 15.) }];
    let v = rect(r, az, ti, o, wd, ht);
    // the JSON reader may be an ulp off: tell it what it will read
    let text = json!(v).to_string();
    let v: Vec<f64> = serde_json::from_str(&text).unwrap();
    let mut j = json!({"name": name, "construction": cons, "vertices": v, "front_boundary": boundary(r, names, true, &hint["front"]), "back_boundary": boundary(r, names, false, &hint["back"])});
    let mut s = json!({"az": f(az), "tilt": f(ti), "w": f(wd), "h": f(ht),
        "zc": f((v[2] + v[5] + v[8] + v[11]) / 4.), "fh": "none", "bh": "none"});
    for (k, n) in [("fh", "precalculated_front_convection_coef"), ("bh", "precalculated_back_convection_coef")] {
        if hint[k].as_bool().unwrap_or_else(|| r.chance(0.12)) {
            let x = round(r.uni(0.5, 20.), 1);
            j[n] = json!(x);
            s[k] = f(x);
        }
    }
    (j, s)
}

fn b_json(b: &Boundary, m: &Model) -> Value {
    match b {
        Boundary::Space { space } => json!({"kind": "Space", "space": m.spaces.iter().position(|s| s.name() == space).map_or(-1, |x| x as i64)}),
        Boundary::Outdoor => json!({"kind": "Outdoor"}),
        Boundary::Ground => json!({"kind": "Ground"}),
        Boundary::Adiabatic => json!({"kind": "Adiabatic"}),
        Boundary::AmbientTemperature { temperature } => json!({"kind": "Ambient", "t": f(*temperature)}),
    }
}
fn boundary_spec(j: &Value, names: &[String]) -> Value {
    match j["type"].as_str().unwrap() {
        "Space" => json!({"kind": "Space", "space": names.iter().position(|n| *n == j["space"]).unwrap()}),
        "AmbientTemperature" => json!({"kind": "Ambient", "t": f(j["temperature"].as_f64().unwrap())}),
        k => json!({"kind": k}),
    }
}
pub fn segs_json(d: &heat::discretization::Discretization) -> Value {
    Value::Array(
        d.segments
            .iter()
            .map(|(m, u)| match u {
                UValue::Solid(u) => json!({"m": f(*m), "kind": "solid", "u": f(*u)}),
                UValue::Cavity(c) => json!({"m": f(*m), "kind": "cavity", "cav": cavity_json(c)}),
                UValue::Back => json!({"m": f(*m), "kind": "back"}),
                UValue::None => json!({"m": f(*m), "kind": "none"}),
            })
            .collect(),
    )
}
pub fn column(m: &matrix::Matrix) -> Value {
    let (n, _) = m.size();
    fs(&(0..n).map(|i| m.get(i, 0).unwrap()).collect::<Vec<f64>>())
}

fn tsurf_json<T: SurfaceTrait + Send + Sync>(s: &ThermalSurfaceData<T>, m: &Model, idx: Value) -> Value {
    json!({"segs": segs_json(&s.discretization), "fa": column(&s.front_alphas), "ba": column(&s.back_alphas),
        "front": b_json(&s.front_boundary, m), "back": b_json(&s.back_boundary, m), "fe": f(s.front_emissivity), "be": f(s.back_emissivity),
        "fh": s.front_hs.map_or(json!("none"), f), "bh": s.back_hs.map_or(json!("none"), f), "area": f(s.area), "perim": f(s.perimeter),
        "cos": f(s.cos_tilt), "nx": f(s.normal.x), "ny": f(s.normal.y), "wmod": f(s.wind_speed_modifier), "idx": idx})
}

fn find(h: &[S], e: S) -> i64 {
    h.iter().position(|x| *x == e).map_or(-1, |x| x as i64)
}

struct Built {
    m: Model,
    phys: ThermalModel,
    state: SimulationState,
    ev: Value,
}

/// Builds a model; returns the event that describes it
fn build(r: &mut Rng, w: &mut W, nspaces: usize, nsurf: usize, nfen: usize, hint: &Value) -> Option<Built> {
    let names: Vec<String> = (0..nspaces).map(|i| format!("Space {i}")).collect();
    let subs = substances(r);
    let mut js = json!({"substances": subs.clone(), "materials": [], "constructions": [], "spaces": [], "surfaces": [], "fenestrations": [], "hvacs": [], "luminaires": []});
    for (n, g) in [("air", "Air"), ("argon", "Argon"), ("krypton", "Krypton"), ("xenon", "Xenon")] {
        js["substances"].as_array_mut().unwrap().push(json!({"type": "Gas", "name": n, "gas": g}));
    }
    let mut vols = vec![];
    for n in &names {
        let v = round(r.uni(10., 400.), 1);
        let given = hint["volume"].as_bool().unwrap_or_else(|| !r.chance(0.015));
        let mut s = json!({"name": n});
        if given {
            s["volume"] = json!(v);
        }
        vols.push(if given { f(v) } else { json!("none") });
        js["spaces"].as_array_mut().unwrap().push(s);
    }
    let mut spec_s = vec![];
    for i in 0..nsurf + nfen {
        let ls = layers(r, &hint["surf"]["build"]);
        let mut mats = vec![];
        for (k, (sub, th)) in ls.iter().enumerate() {
            let name = format!("m{i}.{k}");
            js["materials"].as_array_mut().unwrap().push(json!({"name": name, "substance": sub, "thickness": th}));
            mats.push(name);
        }
        js["constructions"].as_array_mut().unwrap().push(json!({"name": format!("c{i}"), "materials": mats}));
        let (j, mut s) = surf_json(r, format!("s{i}"), &names, &format!("c{i}"), &hint["surf"]);
        s["front"] = boundary_spec(&j["front_boundary"], &names);
        s["back"] = boundary_spec(&j["back_boundary"], &names);
        let outer = |n: &str| subs.iter().find(|x| x["name"] == n).unwrap().clone();
        let em = |x: &Value| x.as_f64().map_or(json!("none"), f);
        s["fe"] = em(&outer(ls[0].0)["front_thermal_absorbtance"]);
        s["be"] = em(&outer(ls.last().unwrap().0)["back_thermal_absorbtance"]);
        spec_s.push(s);
        js[if i < nsurf { "surfaces" } else { "fenestrations" }].as_array_mut().unwrap().push(j);
    }
    // an opening is no thermal surface
    if nfen > 0 && r.chance(0.2) {
        let (mut j, _) = surf_json(r, "opening".into(), &names, "c0", &json!({}));
        j["category"] = json!("Opening");
        let at = r.below(nfen + 1);
        js["fenestrations"].as_array_mut().unwrap().insert(at, j);
    }
    let mut devs = vec![];
    if nspaces > 0 {
        let mut target = |r: &mut Rng, k: &str| -> Vec<i64> {   // -1: none given, -2: unknown
            match hint[k].as_array() {
                Some(v) => v.iter().map(|x| x.as_i64().unwrap()).collect(),
                None => (0..r.below(4)).map(|_| if r.chance(0.02) { -1 - r.below(2) as i64 } else { r.below(nspaces) as i64 }).collect(),
            }
        };
        let (hv, lum) = (target(r, "hvacs"), target(r, "lums"));
        let add = |o: &mut Value, t: i64| match t {
            -1 => {}
            -2 => o["target_space"] = json!("nowhere"),
            t => o["target_space"] = json!(names[t as usize]),
        };
        for (i, t) in hv.into_iter().enumerate() {
            let mut o = json!({"type": *r.pick(&["ElectricHeater", "IdealHeaterCooler"]), "name": format!("h{i}")});
            add(&mut o, t);
            js["hvacs"].as_array_mut().unwrap().push(o);
            devs.push(json!({"target": t, "hvac": true, "k": i}));
        }
        for (i, t) in lum.into_iter().enumerate() {
            let mut o = json!({"name": format!("l{i}"), "max_power": 100.});
            add(&mut o, t);
            js["luminaires"].as_array_mut().unwrap().push(o);
            devs.push(json!({"target": t, "hvac": false, "k": i}));
        }
    }
    let terrain = *r.pick(&["none", "Country", "Suburbs", "City", "Ocean", "Urban"]);
    if terrain != "none" {
        js["site_details"] = json!({"terrain": terrain});
    }
    w.note(format!("thermal model {js}"));
    let n = *r.pick(&[1usize, 2, 4, 6, 12, 60]);
    let built = guard_res(|| Model::from_json(&js.to_string()));
    let (m, mut h) = match built {
        Ok(x) => x,
        // the vertices are what geometry accepts; anything else would be reported by C06
        Err(e) => panic!("model refused: {e:?} {js}"),
    };
    let phys = guard_res(|| ThermalModel::new(&MetaOptions::default(), (), &m, &mut h, n));
    let mut ev = json!({"op": "create", "n": n, "terrain": terrain, "vols": vols, "spec": spec_s, "devs": devs});
    let phys = match phys {
        Ok(p) => p,
        Err((k, _)) => {
            ev["res"] = json!(k);
            w.ev(ev);
            return None;
        }
    };
    // air exchange states, owned by other models
    let mut air = vec![];
    for (i, s) in m.spaces.iter().enumerate() {
        let mut q = json!({"inf": -1, "tinf": -1, "ven": -1, "tven": -1});
        if hint["inf"].as_bool().unwrap_or_else(|| r.chance(0.6)) {
            let k = h.push(S::SpaceInfiltrationVolume(i), 0.).unwrap();
            s.set_infiltration_volume_index(k).unwrap();
            let t = h.push(S::SpaceInfiltrationTemperature(i), 0.).unwrap();
            s.set_infiltration_temperature_index(t).unwrap();
            q["inf"] = json!(k);
            q["tinf"] = json!(t);
        }
        if hint["ven"].as_bool().unwrap_or_else(|| r.chance(0.3)) {
            let k = h.push(S::SpaceVentilationVolume(i), 0.).unwrap();
            s.set_ventilation_volume_index(k).unwrap();
            let t = h.push(S::SpaceVentilationTemperature(i), 0.).unwrap();
            s.set_ventilation_temperature_index(t).unwrap();
            q["ven"] = json!(k);
            q["tven"] = json!(t);
        }
        air.push(q);
    }
    let el = h.elements.clone();
    for d in ev["devs"].as_array_mut().unwrap() {
        let k = d["k"].as_u64().unwrap() as usize;
        d["idx"] = json!(find(&el, if d["hvac"] == true { S::HeatingCoolingPowerConsumption(k) } else { S::LuminairePowerConsumption(k) }));
    }
    ev["spaces"] = json!((0..nspaces).map(|i| { let mut q = air[i].clone(); q["t"] = json!(find(&el, S::SpaceDryBulbTemperature(i))); q }).collect::<Vec<_>>());
    let mut ts: Vec<Value> = phys
        .surfaces
        .iter()
        .enumerate()
        .map(|(i, s)| {
            tsurf_json(s, &m, json!({"node": find(&el, S::SurfaceNodeTemperature(i, 0)), "nodes": el.iter().filter(|e| matches!(e, S::SurfaceNodeTemperature(k, _) if *k == i)).count(),
                "hf": find(&el, S::SurfaceFrontConvectionCoefficient(i)), "hb": find(&el, S::SurfaceBackConvectionCoefficient(i)),
                "qf": find(&el, S::SurfaceFrontConvectiveHeatFlow(i)), "qb": find(&el, S::SurfaceBackConvectiveHeatFlow(i)),
                "sf": find(&el, S::SurfaceFrontSolarIrradiance(i)), "sb": find(&el, S::SurfaceBackSolarIrradiance(i)),
                "irf": find(&el, S::SurfaceFrontIRIrradiance(i)), "irb": find(&el, S::SurfaceBackIRIrradiance(i))}))
        })
        .collect();
    for s in phys.fenestrations.iter() {
        let i = m.fenestrations.iter().position(|x| x.name == *s.parent.name()).unwrap();
        ts.push(tsurf_json(s, &m, json!({"node": find(&el, S::FenestrationNodeTemperature(i, 0)), "nodes": el.iter().filter(|e| matches!(e, S::FenestrationNodeTemperature(k, _) if *k == i)).count(),
                "hf": find(&el, S::FenestrationFrontConvectionCoefficient(i)), "hb": find(&el, S::FenestrationBackConvectionCoefficient(i)),
                "qf": find(&el, S::FenestrationFrontConvectiveHeatFlow(i)), "qb": find(&el, S::FenestrationBackConvectiveHeatFlow(i)),
                "sf": find(&el, S::FenestrationFrontSolarIrradiance(i)), "sb": find(&el, S::FenestrationBackSolarIrradiance(i)),
                "irf": find(&el, S::FenestrationFrontIRIrradiance(i)), "irb": find(&el, S::FenestrationBackIRIrradiance(i))})));
    }
    ev["surfs"] = json!(ts);
    ev["subs"] = json!(phys.surfaces.iter().map(|s| s.discretization.tstep_subdivision).chain(phys.fenestrations.iter().map(|s| s.discretization.tstep_subdivision)).collect::<Vec<_>>());
    ev["k"] = json!(phys.dt_subdivisions);
    ev["dt"] = f(phys.dt);
    ev["res"] = json!("ok");
    let state = h.take_values().unwrap();
    ev["state"] = fs(&state);
    Some(Built { m, phys, state, ev })
}

fn thermal_behaviour(w: &mut W, r: &mut Rng, nspaces: usize, nsurf: usize, nfen: usize, steps: usize, label: &str, hint: &Value) {
    w.begin(label);
    let Some(mut b) = build(r, w, nspaces, nsurf, nfen, hint) else { return };
    w.ev(b.ev.clone());
    let k = b.phys.dt_subdivisions;
    let full = k <= 6 && r.chance(0.4);
    b.phys.dt_subdivisions = 1;
    let surfs = b.ev["surfs"].as_array().unwrap().clone();
    let ix = |v: &Value, k: &str| v[k].as_i64().unwrap();
    // initial temperatures
    for s in &surfs {
        let (a, n) = (ix(&s["idx"], "node"), ix(&s["idx"], "nodes"));
        let (x, y) = (r.uni(0., 35.), r.uni(0., 35.));
        let uniform = r.chance(0.3);
        for k in 0..n {
            b.state[(a + k) as usize] = if uniform { x } else { x + (y - x) * k as f64 / (n - 1) as f64 };
        }
    }
    let mut mem = match guard_res(|| b.phys.allocate_memory(&b.state)) {
        Ok(m) => m,
        Err(_) => {
            w.ev(json!({"op": "memory", "res": "err"}));
            return;
        }
    };
    let mut date = Date { month: 1 + r.below(12) as u8, day: 1 + r.below(28) as u8, hour: r.uni(0., 23.99) };
    let mut base = CurrentWeather { dry_bulb_temperature: r.uni(-10., 35.), wind_speed: r.uni(0., 10.), wind_direction: r.uni(0., 6.28), ..CurrentWeather::default() };
    for step in 0..steps {
        // what the other models and the controller leave in the state
        if step == 0 || r.chance(0.4) {
            for s in &surfs {
                let i = &s["idx"];
                for k in ["irf", "irb"] {
                    b.state[ix(i, k) as usize] = r.uni(200., 520.);
                }
                for k in ["sf", "sb"] {
                    b.state[ix(i, k) as usize] = match r.below(12) {
                        0..=4 => 0.,
                        5 => -r.uni(0., 300.),
                        6 => f64::NAN,
                        _ => r.uni(0., 1000.),
                    };
                }
            }
            for s in b.ev["spaces"].as_array().unwrap() {
                for (v, t) in [("inf", "tinf"), ("ven", "tven")] {
                    if ix(s, v) >= 0 {
                        b.state[ix(s, v) as usize] = if r.chance(0.2) { 0. } else { r.uni(0., 0.5) };
                        b.state[ix(s, t) as usize] = r.uni(-10., 35.);
                    }
                }
                if r.chance(0.2) {
                    b.state[ix(s, "t") as usize] = r.uni(5., 35.);
                }
            }
            for d in b.ev["devs"].as_array().unwrap() {
                b.state[ix(d, "idx") as usize] = match r.below(4) {
                    0 => 0.,
                    1 if d["hvac"] == true => -r.uni(0., 3000.),
                    _ => r.uni(0., 3000.),
                };
            }
            w.ev(json!({"op": "set", "state": fs(&b.state)}));
        }
        if r.chance(0.3) {
            base.dry_bulb_temperature = r.uni(-15., 38.);
            base.wind_speed = if r.chance(0.2) { 0. } else { r.uni(0., 15.) };
            base.wind_direction = r.uni(0., 6.28);
        }
        // sub-step by sub-step; then, from the same state, all in one call
        let (s0, m0, d0) = (b.state.clone(), mem.clone(), date);
        for _ in 0..if full { k } else { 1 } {
            let probe = Probe { base, log: Mutex::new(vec![]) };
            if !march(w, "march", &b.phys, &b.m, date, &probe, &mut b.state, &mut mem) {
                return;
            }
            date.add_seconds(b.phys.dt);
        }
        if full {
            let probe = Probe { base, log: Mutex::new(vec![]) };
            b.phys.dt_subdivisions = k;
            b.state = s0;
            mem = m0;
            if !march(w, "full", &b.phys, &b.m, d0, &probe, &mut b.state, &mut mem) {
                return;
            }
            b.phys.dt_subdivisions = 1;
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn march(w: &mut W, op: &str, phys: &ThermalModel, m: &Model, date: Date, probe: &Probe, state: &mut SimulationState, mem: &mut heat::heat_model::ThermalModelMemory) -> bool {
    let res = guard_res(|| phys.march(date, probe, m, state, mem));
    let log: Vec<Value> = probe.log.lock().unwrap().iter().map(|x| json!({"m": x.date.month, "d": x.date.day, "h": f(x.date.hour),
        "t": f(x.dry_bulb_temperature), "ws": f(x.wind_speed), "wd": f(x.wind_direction)})).collect();
    let ok = res.is_ok();
    w.ev(json!({"op": op, "date": {"m": date.month, "d": date.day, "h": f(date.hour)}, "w": log, "state": fs(state), "res": res.map_or_else(|e| e.0, |_| "ok")}));
    ok
}

/// many spaces, few walls: the air
pub fn zones(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(101);
    for s in a.read_scenarios() {
        let g = |k: &str| s[k].as_u64().unwrap() as usize;
        thermal_behaviour(&mut w, &mut r, g("spaces"), g("surfaces"), g("fenestrations"), 4, &format!("zones {s}"), &s);
    }
    for i in 0..a.n(350, 4000) {
        let n = 1 + r.below(4);
        let (s, q) = if r.chance(0.3) { (0, 0) } else { (r.below(3), r.below(2)) };
        thermal_behaviour(&mut w, &mut r, n, s, q, 8, &format!("zones {i}"), &json!({}));
    }
    w.finish()
}

/// few spaces, more walls
pub fn walls(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(121);
    for s in a.read_scenarios() {
        let g = |k: &str| s[k].as_u64().unwrap() as usize;
        thermal_behaviour(&mut w, &mut r, g("spaces"), g("surfaces"), g("fenestrations"), 4, &format!("walls {s}"), &s);
    }
    for i in 0..a.n(300, 4000) {
        let n = r.below(3);
        let (s, q) = (1 + r.below(3), r.below(3));
        thermal_behaviour(&mut w, &mut r, n, s, q, 8, &format!("walls {i}"), &json!({}));
    }
    w.finish()
}
