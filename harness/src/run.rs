//! Whole simulations (C11): run_simulation::run and run_rhai, with a controller and an output that record
use crate::air::{building_json, infiltration, infiltration_json};
use crate::common::*;
use crate::wea::rand_cw;
use calendar::Date;
use model::{Model, SimulationState, SimulationStateElement as S};
use simple::control_trait::SimpleControl;
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::{MultiphysicsModel, VoidControl};
use std::borrow::Borrow;
use std::sync::{Arc, Mutex};
use weather::{CurrentWeather, Location, Weather};

type Log = Arc<Mutex<Vec<Value>>>;

/// accepts at most `max` bytes at a time; every line becomes an event
struct Sink {
    log: Log,
    line: Arc<Mutex<Vec<u8>>>,
    max: usize,
    lines: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.max);
        let mut line = self.line.lock().unwrap();
        for x in &b[..k] {
            if *x == b'\n' {
                let s = String::from_utf8_lossy(&line).to_string();
                line.clear();
                let cells: Vec<&str> = s.split(',').collect();
                self.log.lock().unwrap().push(if self.lines == 0 {
                    json!({"op": "header", "cells": cells})
                } else {
                    let nums: Vec<u64> = cells[0].split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(99)).collect();
                    let date = if nums.len() == 4 { nums } else { vec![0, 0, 0, 0] };
                    json!({"op": "row", "text": cells[0], "date": date, "cells": cells[1..]})
                });
                self.lines += 1;
            } else {
                line.push(*x);
            }
        }
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Recorder {
    log: Log,
    fail: i64,
    seed: u64,
    kinds: Vec<char>,
    k: Mutex<i64>,
}
impl SimpleControl for Recorder {
    fn control<M: Borrow<Model>>(&self, _m: M, _p: &MultiphysicsModel, state: &mut SimulationState) -> Result<(), String> {
        let mut k = self.k.lock().unwrap();
        let mut r = Rng::new(self.seed.wrapping_add(*k as u64));
        let before = fs(state);
        if r.chance(0.7) && state.len() > 0 {
            for _ in 0..1 + r.below(2) {
                let i = r.below(state.len());
                state[i] = match self.kinds[i] {
                    'T' => r.uni(0., 40.),
                    'V' => r.uni(0., 1.),
                    _ => r.uni(-1000., 3000.),
                };
            }
        }
        self.log.lock().unwrap().push(json!({"op": "control", "before": before, "after": fs(state)}));
        let fail = *k == self.fail;
        *k += 1;
        if fail {
            Err("controller gave up".into())
        } else {
            Ok(())
        }
    }
}

fn elem(e: &S, m: &Model) -> Value {
    match e {
        S::SpaceDryBulbTemperature(i) => json!(["SpaceDryBulbTemperature", m.spaces[*i].name()]),
        S::SpaceInfiltrationVolume(i) => json!(["SpaceInfiltrationVolume", m.spaces[*i].name()]),
        S::SpaceInfiltrationTemperature(i) => json!(["SpaceInfiltrationTemperature", m.spaces[*i].name()]),
        S::HeatingCoolingPowerConsumption(i) => json!(["HeatingCoolingPowerConsumption", m.hvacs[*i].name()]),
        S::LuminairePowerConsumption(i) => json!(["LuminairePowerConsumption", m.luminaires[*i].name()]),
        o => json!([format!("{o:?}"), ""]),
    }
}

/// how a script names an element of the state
fn script_name(e: &Value, r: &mut Rng, order: &[String]) -> (String, String) {
    let name = e[1].as_str().unwrap();
    let (f, p) = match e[0].as_str().unwrap() {
        "SpaceDryBulbTemperature" => ("space", "dry_bulb_temperature"),
        "SpaceInfiltrationVolume" => ("space", "infiltration_volume"),
        "SpaceInfiltrationTemperature" => ("space", "infiltration_temperature"),
        "HeatingCoolingPowerConsumption" => ("hvac", "power_consumption"),
        _ => ("luminaire", "power_consumption"),
    };
    let by_index = r.chance(0.4);
    let k = order.iter().position(|x| x == name).unwrap_or(0);
    (if by_index { format!("{f}({k})") } else { format!("{f}(\"{name}\")") }, p.to_string())
}

const DEVS: [&str; 2] = ["hvac", "luminaire"];

fn simulation(w: &mut W, r: &mut Rng, a: &Args, s: &Value) {
    w.begin(format!("run {s}"));
    let dir = a.work.to_str().unwrap();
    let g = |k: &str| s[k].as_str().unwrap();
    let n = s["n"].as_u64().unwrap() as usize;
    let nsp = s["spaces"].as_u64().unwrap() as usize;
    // --- the house
    let names: Vec<String> = (0..nsp).map(|i| format!("Room {}", ["B", "A", "C"][i % 3])).collect();
    let mut js = json!({"spaces": [], "buildings": [], "hvacs": [], "luminaires": [], "outputs": []});
    let mut spaces = vec![];
    for (i, nm) in names.iter().enumerate() {
        let ty = if g("bad") == "building" && i == 0 { "Leakage" } else { *r.pick(&["none", "Constant", "Blast", "Doe2", "Design", "Leakage"]) };
        let inf = infiltration(r, ty);
        let mut b = json!({"state": "none", "stack": "none", "wind": "none", "storeys": -1, "shelter": "none"});
        if ty == "Leakage" {
            b = if g("bad") == "building" && i == 0 {
                json!({"state": *r.pick(&["none", "missing"]), "stack": "none", "wind": "none", "storeys": 1, "shelter": "Urban"})
            } else {
                json!({"state": "ok", "stack": "none", "wind": "none", "storeys": 1 + r.below(3), "shelter": *r.pick(&["Urban", "IsolatedRural", "NoObstructions"])})
            };
        }
        let mut o = json!({"name": nm});
        if b["state"] != "none" {
            o["building"] = json!(format!("Building {i}"));
        }
        if b["state"] == "ok" {
            js["buildings"].as_array_mut().unwrap().push(building_json(&b, i));
        }
        if let Some(v) = infiltration_json(&inf) {
            o["infiltration"] = v;
        }
        let vol = (r.uni(10., 300.) * 10.).round() / 10.;
        let novol = g("bad") == "volume" && i == 0;
        if !novol {
            o["volume"] = json!(vol);
        }
        js["spaces"].as_array_mut().unwrap().push(o);
        spaces.push(json!({"vol": if novol { json!("none") } else { f(vol) }, "inf": inf, "b": b}));
    }
    let mut devs = vec![];
    let (mut hv, mut lu) = (vec![], vec![]);
    if nsp > 0 {
        for _ in 0..1 + r.below(3) {
            let kind = *r.pick(&DEVS);
            let t = r.below(nsp);
            if kind == "hvac" {
                let nm = format!("h{}", hv.len());
                js["hvacs"].as_array_mut().unwrap().push(json!({"type": *r.pick(&["ElectricHeater", "IdealHeaterCooler"]), "name": nm, "target_space": names[t]}));
                devs.push(json!({"target": t + 1, "name": nm}));
                hv.push(nm);
            } else {
                let nm = format!("l{}", lu.len());
                js["luminaires"].as_array_mut().unwrap().push(json!({"name": nm, "max_power": 100., "target_space": names[t]}));
                devs.push(json!({"target": t + 1, "name": nm}));
                lu.push(nm);
            }
        }
    }
    let terrain = *r.pick(&["none", "Country", "City", "Ocean"]);
    if terrain != "none" {
        js["site_details"] = json!({"terrain": terrain});
    }
    // --- requested outputs
    let mut avail: Vec<Value> = vec![];
    for nm in &names {
        for k in ["SpaceDryBulbTemperature", "SpaceInfiltrationVolume", "SpaceInfiltrationTemperature"] {
            avail.push(json!([k, nm]));
        }
    }
    avail.extend(hv.iter().map(|x| json!(["HeatingCoolingPowerConsumption", x])));
    avail.extend(lu.iter().map(|x| json!(["LuminairePowerConsumption", x])));
    r.shuffle(&mut avail);
    let ghost = |r: &mut Rng| json!([*r.pick(&["SpaceDryBulbTemperature", "SpaceVentilationVolume", "SurfaceFrontSolarIrradiance", "HeatingCoolingPowerConsumption"]), "nobody"]);
    let half = (avail.len() + 1) / 2;
    let outs: Vec<Value> = match g("outs") {
        "none" => vec![],
        "all" => avail.clone(),
        "some" => avail[..half].to_vec(),
        "missing" => vec![ghost(r), ghost(r)],
        "partly" => {
            let mut v = avail[..half].to_vec();
            for _ in 0..1 + r.below(2) {
                let at = r.below(v.len() + 1);
                v.insert(at, ghost(r));
            }
            v
        }
        _ => {
            let mut v = avail[..half].to_vec();
            v.extend_from_slice(&avail[..half]);
            v
        }
    };
    for o in &outs {
        let mut q = json!({});
        q[o[0].as_str().unwrap()] = o[1].clone();
        js["outputs"].as_array_mut().unwrap().push(q);
    }
    // --- the weather
    let (m0, d0) = *r.pick(&[(1u8, 1u8), (2, 28), (6, 30), (8, 15), (12, 30)]);
    let start_h = r.below(20) as f64 + if g("weather") == "epw" { 1. } else { *r.pick(&[0., 0.5, 0.25]) };
    let mut d = if g("weather") == "newyear" { Date { month: 12, day: 31, hour: 22.5 } } else { Date { month: m0, day: d0, hour: start_h } };
    let mut data: Vec<CurrentWeather> = vec![];
    let many = n <= 2 && r.chance(0.15);
    let cnt = if many { 12 } else { 3 + r.below(2) };
    for k in 0..cnt {
        let mut c = rand_cw(r, d);
        if g("weather") == "epw" {
            c.dry_bulb_temperature = (c.dry_bulb_temperature * 10.).round() / 10.;
            c.wind_speed = (c.wind_speed * 10.).round() / 10.;
            if d.hour >= 23.5 {
                break; // hour 24 of an EPW file: see C04
            }
        }
        data.push(c);
        let _ = k;
        if many {
            d.add_hours(5.5);
        } else {
            d.add_hours(if g("weather") == "epw" { 1. } else { *r.pick(&[0.5, 1., 1.25]) });
        }
        if g("weather") == "epw" {
            d.hour = d.hour.round();
        }
    }
    let (mut file, mut good) = (None, true);
    match g("weather") {
        "epw" => {
            let mut s = "LOCATION,Somewhere,-,NZL,IWEC,934340,-41.30,174.78,12.0,4.0\nGROUND TEMPERATURES,0\nDATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31\n".to_string();
            for c in &data {
                s += &format!("1990,{},{},{},60,?9,{:?},1.0,50,100000,0,0,300,0,0,0,0,0,0,0,180,{:?},5,5,20,7777,9,999999999,0,0,0,88,0,0,0\n",
                    c.date.month, c.date.day, c.date.hour as u32, c.dry_bulb_temperature, c.wind_speed);
            }
            let p = format!("{dir}/run.epw");
            std::fs::write(&p, s).unwrap();
            file = Some(p);
        }
        "sw" | "newyear" => {
            let p = format!("{dir}/run.sw");
            let text = serde_json::to_string(&Weather { data: data.clone(), location: Location::default() }).unwrap();
            let back: Weather = serde_json::from_str(&text).unwrap();
            data = back.data;
            std::fs::write(&p, text).unwrap();
            file = Some(p);
        }
        "none" => good = false,
        "unsupported" => {
            let p = format!("{dir}/run.csv");
            std::fs::write(&p, "1,2,3").unwrap();
            file = Some(p);
            good = false;
        }
        "nofile" => {
            file = Some(format!("{dir}/nowhere.sw"));
            good = false;
        }
        "nofileepw" => {
            file = Some(format!("{dir}/nowhere.epw"));
            good = false;
        }
        _ => {
            let p = format!("{dir}/run.sw");
            std::fs::write(&p, *r.pick(&["{\"data\": [", "", "{\"data\": 3}"])).unwrap();
            file = Some(p);
            good = false;
        }
    }
    let recs: Vec<Value> = data.iter().map(|c| json!({"m": c.date.month, "d": c.date.day, "h": f(c.date.hour), "t": f(c.dry_bulb_temperature), "ws": f(c.wind_speed)})).collect();
    // --- build
    let (m, mut h) = match guard_res(|| Model::from_json(&js.to_string())) {
        Ok(x) => x,
        Err(e) => panic!("model refused: {e:?} {js}"),
    };
    let taken = s["taken"].as_bool().unwrap();
    if taken {
        h.take_values().unwrap();
    }
    // positions in the state, as the header says after the simulation was prepared on a copy
    let (m2, mut h2) = Model::from_json(&js.to_string()).unwrap();
    let _ = guard_res(|| <MultiphysicsModel as communication::SimulationModel>::new(&communication::MetaOptions::default(), (), &m2, &mut h2, 1));
    let elems: Vec<Value> = h2.elements.iter().map(|e| elem(e, &m2)).collect();
    let pos = |k: &str, nm: &str| elems.iter().position(|e| e[0] == k && e[1] == nm).map_or(0, |x| x + 1);
    for (i, q) in spaces.iter_mut().enumerate() {
        q["t"] = json!(pos("SpaceDryBulbTemperature", &names[i]));
        q["v"] = json!(pos("SpaceInfiltrationVolume", &names[i]));
        q["vt"] = json!(pos("SpaceInfiltrationTemperature", &names[i]));
    }
    for d in devs.iter_mut() {
        let nm = d["name"].as_str().unwrap().to_string();
        d["idx"] = json!(pos("HeatingCoolingPowerConsumption", &nm).max(pos("LuminairePowerConsumption", &nm)));
    }
    let kinds: Vec<char> = elems.iter().map(|e| { let k = e[0].as_str().unwrap(); if k.ends_with("Temperature") { 'T' } else if k.ends_with("Volume") { 'V' } else { 'P' } }).collect();
    // --- the controller
    let kind = g("ctl");
    let mut script = vec![];
    let mut text = String::new();
    let control_file = format!("{dir}/run.rhai");
    let research = r.bool();
    match kind {
        "rhai" | "rhaifail" => {
            let mut k = 0;
            let cnt = 1 + r.below(3);
            while k < cnt + (kind == "rhaifail") as usize {
                let fails = k == cnt;
                k += 1;
                if elems.is_empty() || g("bad") != "no" {
                    if fails {
                        text += "space(\"nowhere\");\n";
                        script.push(json!({"get": 0, "cmp": "<", "val": "0", "set": 0, "from": 0, "gain": "0", "off": "0"}));
                    } else {
                        text += "let x = 1;\n";
                    }
                    continue;
                }
                let pick = |r: &mut Rng, temp: bool| -> usize {
                    loop {
                        let k = r.below(elems.len());
                        if !temp || elems[k][0].as_str().unwrap().ends_with("Temperature") {
                            return k;
                        }
                    }
                };
                let (get, set, from) = (pick(r, true), pick(r, false), pick(r, true));
                let (get, from) = (if r.chance(0.6) { get + 1 } else { 0 }, if r.chance(0.4) && kinds[set] != 'V' { from + 1 } else { 0 });
                let val = 15.123 + r.uni(-3., 12.);
                let cmp = *r.pick(&["<", ">"]);
                // a script that only ever pushes values around stays bounded
                let gain = r.uni(-0.9, 0.9);
                let int = r.chance(0.3);
                let off = match kinds[set] {
                    'P' => r.uni(-500., 2000.),
                    'T' => r.uni(0., 40.),
                    _ => r.uni(0., 2.),
                };
                let off = if int { off.floor() } else { off };
                let order = |e: &Value| -> Vec<String> {
                    match e[0].as_str().unwrap() {
                        "HeatingCoolingPowerConsumption" => hv.clone(),
                        "LuminairePowerConsumption" => lu.clone(),
                        _ => names.clone(),
                    }
                };
                let mut body = if fails {
                    r.pick(&["throw \"stop\";", "space(\"nowhere\");", "let y = space(0).loudness;", "hvac(77);", "let z = space(0); z.brightness = 3.0;"]).to_string()
                } else {
                    let (o, p) = script_name(&elems[set], r, &order(&elems[set]));
                    let off_t = if int && from == 0 { format!("{}", off as i64) } else { format!("{off:?}") };
                    let value = if from == 0 {
                        off_t
                    } else {
                        let (o2, p2) = script_name(&elems[from - 1], r, &order(&elems[from - 1]));
                        format!("{gain:?} * {o2}.{p2} + {off:?}")
                    };
                    format!("let o = {o}; o.{p} = {value};")
                };
                if get > 0 {
                    let (o, p) = script_name(&elems[get - 1], r, &order(&elems[get - 1]));
                    body = format!("if {o}.{p} {cmp} {val:?} {{ {body} }}");
                }
                text += &body;
                text += "\n";
                script.push(json!({"get": get, "cmp": cmp, "val": f(val), "set": if fails { 0 } else { set + 1 }, "from": from, "gain": f(gain), "off": f(off)}));
            }
            std::fs::write(&control_file, &text).unwrap();
        }
        "norhai" => {
            let _ = std::fs::remove_file(&control_file);
        }
        "syntax" => std::fs::write(&control_file, "let x = ;").unwrap(),
        _ => {}
    }
    let fail = match kind {
        "fail0" => 0,
        "fail2" => 2,
        _ => -1,
    };
    let ctl = match kind {
        "record" | "fail0" | "fail2" => "record",
        "norhai" | "syntax" => "bad",
        "rhaifail" => "rhai",
        k => k,
    };
    let max = *r.pick(&[1usize, 3, 10, usize::MAX, usize::MAX]);
    w.note(format!("run {s} {js} {recs:?} {text}"));
    w.ev(json!({"op": "start", "n": n, "weather": if good { "ok" } else { "bad" }, "recs": recs, "taken": taken, "text": text,
        "house": {"spaces": spaces, "devs": devs, "terrain": if terrain == "none" { "Suburbs" } else { terrain }}, "elems": elems, "outs": outs,
        "ctl": {"kind": ctl, "fail": fail, "script": script}}));
    let log: Log = Arc::new(Mutex::new(vec![]));
    let line = Arc::new(Mutex::new(vec![]));
    let out = Sink { log: log.clone(), line: line.clone(), max, lines: 0 };
    let opt = SimOptions { n, weather_file: file, research_mode: research, ..SimOptions::default() };
    let seed = r.next();
    let res = match kind {
        "void" => guard_res(|| run(&m, &mut h, &opt, out, VoidControl {})),
        "rhai" | "rhaifail" | "norhai" | "syntax" => guard_res(|| run_rhai(m, &mut h, &opt, &control_file, out)),
        _ => guard_res(|| run(&m, &mut h, &opt, out, Recorder { log: log.clone(), fail, seed, kinds, k: Mutex::new(0) })),
    };
    for e in log.lock().unwrap_or_else(|e| e.into_inner()).drain(..) {
        w.ev(e);
    }
    let rest = String::from_utf8_lossy(&line.lock().unwrap_or_else(|e| e.into_inner())).to_string();
    w.ev(json!({"op": "end", "rest": rest, "res": res.map_or_else(|e| e.0, |_| "ok")}));
}

pub fn runs(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(111);
    for rep in 0..a.n(3, 20) {
        for s in a.read_scenarios() {
            let _ = rep;
            simulation(&mut w, &mut r, a, &s);
        }
    }
    w.finish()
}
