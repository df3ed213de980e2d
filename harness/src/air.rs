//! Recorder for infiltration (C08) and the default occupant's HVAC control (C09)
use crate::common::*;
use calendar::Date;
use air::air_model::AirFlowModel;
use communication::{MetaOptions, SimulationModel};
use model::{Model, SimulationState, SimulationStateElement as S, SimulationStateHeader, HVAC};
use simple::control_trait::SimpleControl;
use simple::{MultiphysicsModel, OccupantBehaviour};
use weather::{CurrentWeather, WeatherTrait};

pub struct Fixed(pub CurrentWeather);
impl WeatherTrait for Fixed {
    fn get_weather_data(&self, _d: Date) -> CurrentWeather {
        self.0
    }
}
pub fn cw(t: f64, ws: f64) -> CurrentWeather {
    CurrentWeather { date: Date { month: 1, day: 1, hour: 1. }, dry_bulb_temperature: t, wind_speed: ws, ..CurrentWeather::default() }
}

fn none() -> Value {
    json!("none")
}
pub fn num(v: &Value) -> Option<f64> {
    match v.as_str() {
        Some("none") | None => None,
        Some(s) => Some(s.parse().unwrap()),
    }
}
fn some_or_none(r: &mut Rng, p: f64, a: f64, b: f64) -> Value {
    if r.chance(p) {
        f(r.uni(a, b))
    } else {
        none()
    }
}
fn building(r: &mut Rng) -> Value {
    let state = if r.chance(0.06) { "none" } else if r.chance(0.06) { "missing" } else { "ok" };
    json!({"state": state, "stack": some_or_none(r, 0.3, 1e-4, 6e-4), "wind": some_or_none(r, 0.3, 1e-5, 6e-4),
        "storeys": if r.chance(0.1) { -1 } else { r.range(1, 5) },
        "shelter": *r.pick(&["NoObstructions", "IsolatedRural", "Urban", "LargeLotUrban", "SmallLotUrban", "Urban", "none"])})
}
pub fn infiltration(r: &mut Rng, ty: &str) -> Value {
    match ty {
        "none" => json!({"type": "none"}),
        "Leakage" => json!({"type": ty, "area": f(r.uni(0.001, 2.))}),
        "Design" => json!({"type": ty, "a": f(r.uni(0., 1.)), "b": f(r.uni(0., 0.1)), "c": f(r.uni(0., 0.3)), "d": f(r.uni(0., 0.1)), "phi": f(r.uni(0.001, 2.))}),
        _ => json!({"type": ty, "flow": f(r.uni(0.001, 2.))}),
    }
}

pub fn building_json(b: &Value, i: usize) -> Value {
    let mut q = json!({"name": format!("Building {i}")});
    for (k, n) in [("stack", "stack_coefficient"), ("wind", "wind_coefficient")] {
        if let Some(v) = num(&b[k]) {
            q[n] = json!(v);
        }
    }
    if b["storeys"].as_i64().unwrap() >= 0 {
        q["n_storeys"] = b["storeys"].clone();
    }
    if b["shelter"] != "none" {
        q["shelter_class"] = b["shelter"].clone();
    }
    q
}
pub fn infiltration_json(inf: &Value) -> Option<Value> {
    let g = |k: &str| num(&inf[k]).unwrap();
    Some(match inf["type"].as_str().unwrap() {
        "none" => return None,
        "Leakage" => json!({"type": "EffectiveAirLeakageArea", "area": g("area")}),
        "Design" => json!({"type": "DesignFlowRate", "a": g("a"), "b": g("b"), "c": g("c"), "d": g("d"), "phi": g("phi")}),
        t => json!({"type": t, "flow": g("flow")}),
    })
}

fn airflow_model(spaces: &mut Vec<Value>, terrain: &str, r: &mut Rng) -> (Model, SimulationStateHeader) {
    let mut js = vec![];
    let mut jb = vec![];
    for (i, s) in spaces.iter().enumerate() {
        let mut o = json!({"name": format!("Space {i}")});
        let b = &s["b"];
        if b["state"] != "none" {
            o["building"] = json!(format!("Building {i}"));
        }
        if b["state"] == "ok" {
            let q = building_json(b, i);
            jb.push(q);
        }
        let inf = &s["inf"];
        if let Some(v) = infiltration_json(inf) {
            o["infiltration"] = v;
        }
        js.push(o);
    }
    // the order of the buildings has nothing to do with the order of the spaces
    r.shuffle(&mut jb);
    let mut m = json!({"spaces": js, "buildings": jb, "hvacs": [{"type": "ElectricHeater", "name": "eh"}]});
    match terrain {
        "none" => {}
        "unset" => m["site_details"] = json!({"altitude": 10.}),
        t => m["site_details"] = json!({"terrain": t}),
    }
    Model::from_json(&m.to_string()).unwrap()
}

fn air_behaviour(w: &mut W, r: &mut Rng, mut spaces: Vec<Value>, terrain: &str, steps: usize) {
    w.begin(format!("airflow {terrain} {}", json!(spaces)));
    let (m, mut h) = airflow_model(&mut spaces, terrain, r);
    for (i, s) in m.spaces.iter().enumerate() {
        let k = h.push(S::SpaceDryBulbTemperature(i), r.uni(5., 30.)).unwrap();
        s.set_dry_bulb_temperature_index(k).unwrap();
        if r.chance(0.2) {
            h.push(S::SpaceVentilationVolume(i), 1.).unwrap();
        }
    }
    let before = h.len();
    let built = guard_res(|| AirFlowModel::new(&MetaOptions::default(), (), &m, &mut h, 1));
    let mut ev = json!({"op": "create", "terrain": if terrain == "unset" { "none" } else { terrain }, "before": before});
    for (i, s) in spaces.iter_mut().enumerate() {
        s["temp"] = json!(m.spaces[i].dry_bulb_temperature_index().unwrap());
        s["vol"] = json!(m.spaces[i].infiltration_volume_index().map_or(-1, |x| x as i64));
        s["tinf"] = json!(m.spaces[i].infiltration_temperature_index().map_or(-1, |x| x as i64));
    }
    ev["spaces"] = json!(spaces);
    ev["elems"] = json!(h.elements.iter().map(|e| match e {
        S::SpaceInfiltrationVolume(k) => json!(["SpaceInfiltrationVolume", k]),
        S::SpaceInfiltrationTemperature(k) => json!(["SpaceInfiltrationTemperature", k]),
        _ => json!(["other", 0]),
    }).collect::<Vec<_>>());
    let mut state: SimulationState = h.take_values().unwrap();
    ev["state"] = fs(&state);
    let air = match built {
        Ok(x) => {
            ev["res"] = json!("ok");
            w.ev(ev);
            x
        }
        Err((k, _)) => {
            ev["res"] = json!(k);
            w.ev(ev);
            return;
        }
    };
    let mut t = r.uni(-10., 35.);
    let mut ws = r.uni(0., 12.);
    let mut mem = ();
    for _ in 0..steps {
        if r.chance(0.5) {
            for s in &m.spaces {
                if r.chance(0.7) {
                    let v = if r.chance(0.1) { t } else { r.uni(-5., 45.) };
                    s.set_dry_bulb_temperature(&mut state, v).unwrap();
                }
            }
            w.ev(json!({"op": "set", "state": fs(&state)}));
        }
        if r.chance(0.7) {
            t = if r.chance(0.1) { 0. } else { r.uni(-30., 45.) };
        }
        if r.chance(0.7) {
            ws = if r.chance(0.15) { 0. } else { r.uni(0., 25.) };
        }
        let res = guard_res(|| air.march(Date { month: 1 + r.below(12) as u8, day: 1, hour: 12. }, &Fixed(cw(t, ws)), &m, &mut state, &mut mem));
        w.ev(json!({"op": "march", "w": {"t": f(t), "ws": f(ws)}, "state": fs(&state), "res": res.map_or_else(|e| e.0, |_| "ok")}));
    }
}

const TYPES: [&str; 6] = ["none", "Constant", "Blast", "Doe2", "Design", "Leakage"];
pub fn airflow(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(81);
    for s in a.read_scenarios() {
        let ty = s["type"].as_str().unwrap();
        let sp = json!({"inf": infiltration(&mut r, ty), "b": s["b"]});
        air_behaviour(&mut w, &mut r, vec![sp], s["terrain"].as_str().unwrap(), 4);
    }
    for _ in 0..a.n(600, 6000) {
        let n = 1 + r.below(5);
        let spaces = (0..n)
            .map(|_| {
                let ty = *r.pick(&TYPES);
                let mut b = building(&mut r);
                // mostly valid
                if r.chance(0.85) && b["state"] != "ok" {
                    b["state"] = json!("ok");
                }
                if r.chance(0.85) {
                    if b["storeys"] == -1 {
                        b["storeys"] = json!(1);
                    }
                    if b["shelter"] == "none" {
                        b["shelter"] = json!("IsolatedRural");
                    }
                }
                json!({"inf": infiltration(&mut r, ty), "b": b})
            })
            .collect();
        let terrain = *r.pick(&["none", "unset", "Country", "Suburbs", "City", "Ocean", "Urban"]);
        let steps = 3 + r.below(12);
        air_behaviour(&mut w, &mut r, spaces, terrain, steps);
    }
    w.finish()
}

fn trivial_physics() -> MultiphysicsModel {
    let (m, mut h) = Model::from_json(&json!({"spaces": []}).to_string()).unwrap();
    MultiphysicsModel::new(&MetaOptions::default(), (), &m, &mut h, 1).unwrap()
}

fn hvac_behaviour(w: &mut W, r: &mut Rng, phys: &MultiphysicsModel, names: &[&str], mut devs: Vec<Value>, temps: Vec<Vec<f64>>) {
    w.begin(format!("hvac {}", json!(devs)));
    let js: Vec<Value> = devs
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let mut o = json!({"type": d["kind"], "name": format!("device {i}")});
            if d["target"] != "none" {
                o["target_space"] = d["target"].clone();
            }
            for (k, n) in [("hset", "heating_setpoint"), ("hpow", "max_heating_power"), ("cset", "cooling_setpoint"), ("cpow", "max_cooling_power")] {
                if let Some(v) = num(&d[k]) {
                    o[n] = json!(v);
                }
            }
            o
        })
        .collect();
    let m = json!({"spaces": names.iter().map(|n| json!({"name": n})).collect::<Vec<_>>(), "hvacs": js,
        "luminaires": [{"name": "lamp"}]});
    let (m, mut h) = Model::from_json(&m.to_string()).unwrap();
    let mut tidx = json!({});
    for (i, s) in m.spaces.iter().enumerate() {
        let k = h.push(S::SpaceDryBulbTemperature(i), 20.).unwrap();
        s.set_dry_bulb_temperature_index(k).unwrap();
        tidx[s.name()] = json!(k);
    }
    for (d, hv) in devs.iter_mut().zip(m.hvacs.iter()) {
        d["idx"] = json!(match hv {
            HVAC::ElectricHeater(x) => x.heating_cooling_consumption_index(),
            HVAC::IdealHeaterCooler(x) => x.heating_cooling_consumption_index(),
        }
        .unwrap());
    }
    let mut state = h.take_values().unwrap();
    let occ = OccupantBehaviour::new(&m).unwrap();
    w.ev(json!({"op": "create", "devs": devs, "tidx": tidx, "state": fs(&state)}));
    for t in temps {
        for (s, t) in m.spaces.iter().zip(t) {
            s.set_dry_bulb_temperature(&mut state, t).unwrap();
        }
        // someone else (a script, a previous occupant) may have left any power there
        if r.chance(0.3) {
            for d in &devs {
                let k = d["idx"].as_u64().unwrap() as usize;
                state[k] = *r.pick(&[0., 350., -350., 1000.]);
            }
        }
        w.ev(json!({"op": "set", "state": fs(&state)}));
        let res = guard_res(|| occ.control(&m, phys, &mut state));
        w.ev(json!({"op": "control", "state": fs(&state), "res": res.map_or_else(|e| e.0, |_| "ok")}));
    }
}

pub fn hvac(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(91);
    let phys = trivial_physics();
    for s in a.read_scenarios() {
        let ts = s["temps"].as_array().unwrap().iter().map(|t| vec![num(t).unwrap(), 21.]).collect();
        let devs = s["devs"].as_array().unwrap().clone();
        hvac_behaviour(&mut w, &mut r, &phys, &["s1", "s2"], devs, ts);
    }
    let all = ["kitchen", "Bedroom 1", "attic", "s"];
    for _ in 0..a.n(400, 5000) {
        let mut names = all.to_vec();
        r.shuffle(&mut names);
        names.truncate(1 + r.below(4));
        let n = 1 + r.below(5);
        let devs: Vec<Value> = (0..n)
            .map(|_| {
                let target = if r.chance(0.08) { "none" } else if r.chance(0.02) { "garage" } else { *r.pick(&names) };
                let hs = r.uni(15., 22.);
                if r.chance(0.4) {
                    json!({"kind": "ElectricHeater", "target": target, "hset": if r.chance(0.9) { f(hs) } else { none() },
                        "hpow": some_or_none(&mut r, 0.9, 100., 3000.), "cset": "none", "cpow": "none"})
                } else {
                    let cs = if r.chance(0.1) { hs } else if r.chance(0.1) { hs - 2. } else { hs + r.uni(0.5, 8.) };
                    json!({"kind": "IdealHeaterCooler", "target": target, "hset": if r.chance(0.8) { f(hs) } else { none() },
                        "hpow": some_or_none(&mut r, 0.9, 100., 3000.), "cset": if r.chance(0.8) { f(cs) } else { none() },
                        "cpow": some_or_none(&mut r, 0.9, 100., 3000.)})
                }
            })
            .collect();
        // short decimals: the JSON reader may be an ulp off on longer ones
        let devs: Vec<Value> = devs
            .into_iter()
            .map(|mut d| {
                for k in ["hset", "hpow", "cset", "cpow"] {
                    if let Some(v) = num(&d[k]) {
                        d[k] = f((v * 100.).round() / 100.);
                    }
                }
                d
            })
            .collect();
        let sets: Vec<f64> = devs.iter().flat_map(|d| [num(&d["hset"]), num(&d["cset"])]).flatten().collect();
        let temps = (0..4 + r.below(12))
            .map(|_| {
                names
                    .iter()
                    .map(|_| {
                        if r.chance(0.25) && !sets.is_empty() {
                            let s = *r.pick(&sets);
                            s + *r.pick(&[0., 1e-9, -1e-9, 0.1, -0.1])
                        } else {
                            r.uni(10., 32.)
                        }
                    })
                    .collect()
            })
            .collect();
        hvac_behaviour(&mut w, &mut r, &phys, &names, devs, temps);
    }
    w.finish()
}
