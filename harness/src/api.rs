//! What control scripts and the Rust accessors read and change (C16)
use crate::common::*;
use model::{Model, SimulationState, SimulationStateElement as S, SimulationStateHeader, HVAC};
use simple::RhaiControlScript;
use std::sync::Arc;

enum Op {
    Get,
    Set(f64),
    Give(usize),
}
#[derive(Default)]
struct Out {
    value: Option<f64>,
    index: Option<usize>,
    ok: bool,
}
const PROPS: [(&str, &[&str]); 5] = [
    ("space", &["dry_bulb_temperature", "brightness", "loudness", "infiltration_volume", "infiltration_temperature", "ventilation_volume", "ventilation_temperature"]),
    ("surface", &["front_temperature", "back_temperature", "front_convection_coefficient", "back_convection_coefficient", "front_convective_heat_flow", "back_convective_heat_flow", "front_incident_solar_irradiance", "back_incident_solar_irradiance", "front_ir_irradiance", "back_ir_irradiance"]),
    ("fenestration", &["front_temperature", "back_temperature", "open_fraction", "front_convection_coefficient", "back_convection_coefficient", "front_convective_heat_flow", "back_convective_heat_flow", "front_incident_solar_irradiance", "back_incident_solar_irradiance", "front_ir_irradiance", "back_ir_irradiance"]),
    ("luminaire", &["power_consumption"]),
    ("hvac", &["power_consumption"]),
];

fn access(m: &Model, kind: &str, i: usize, prop: &str, op: Op, st: &mut SimulationState) -> Out {
    macro_rules! row {
        ($o:expr, $get:ident, $set:ident, $index:ident, $give:ident) => {
            match op {
                Op::Get => Out { value: $o.$get(st), index: $o.$index(), ok: true },
                Op::Set(v) => Out { ok: $o.$set(st, v).is_ok(), ..Out::default() },
                Op::Give(k) => Out { ok: $o.$give(k).is_ok(), ..Out::default() },
            }
        };
    }
    match (kind, prop) {
        ("space", "dry_bulb_temperature") => row!(m.spaces[i], dry_bulb_temperature, set_dry_bulb_temperature, dry_bulb_temperature_index, set_dry_bulb_temperature_index),
        ("space", "brightness") => row!(m.spaces[i], brightness, set_brightness, brightness_index, set_brightness_index),
        ("space", "loudness") => row!(m.spaces[i], loudness, set_loudness, loudness_index, set_loudness_index),
        ("space", "infiltration_volume") => row!(m.spaces[i], infiltration_volume, set_infiltration_volume, infiltration_volume_index, set_infiltration_volume_index),
        ("space", "infiltration_temperature") => row!(m.spaces[i], infiltration_temperature, set_infiltration_temperature, infiltration_temperature_index, set_infiltration_temperature_index),
        ("space", "ventilation_volume") => row!(m.spaces[i], ventilation_volume, set_ventilation_volume, ventilation_volume_index, set_ventilation_volume_index),
        ("space", "ventilation_temperature") => row!(m.spaces[i], ventilation_temperature, set_ventilation_temperature, ventilation_temperature_index, set_ventilation_temperature_index),
        ("surface", "front_temperature") => row!(m.surfaces[i], first_node_temperature, set_first_node_temperature, first_node_temperature_index, set_first_node_temperature_index),
        ("surface", "back_temperature") => row!(m.surfaces[i], last_node_temperature, set_last_node_temperature, last_node_temperature_index, set_last_node_temperature_index),
        ("surface", "front_convection_coefficient") => row!(m.surfaces[i], front_convection_coefficient, set_front_convection_coefficient, front_convection_coefficient_index, set_front_convection_coefficient_index),
        ("surface", "back_convection_coefficient") => row!(m.surfaces[i], back_convection_coefficient, set_back_convection_coefficient, back_convection_coefficient_index, set_back_convection_coefficient_index),
        ("surface", "front_convective_heat_flow") => row!(m.surfaces[i], front_convective_heat_flow, set_front_convective_heat_flow, front_convective_heat_flow_index, set_front_convective_heat_flow_index),
        ("surface", "back_convective_heat_flow") => row!(m.surfaces[i], back_convective_heat_flow, set_back_convective_heat_flow, back_convective_heat_flow_index, set_back_convective_heat_flow_index),
        ("surface", "front_incident_solar_irradiance") => row!(m.surfaces[i], front_incident_solar_irradiance, set_front_incident_solar_irradiance, front_incident_solar_irradiance_index, set_front_incident_solar_irradiance_index),
        ("surface", "back_incident_solar_irradiance") => row!(m.surfaces[i], back_incident_solar_irradiance, set_back_incident_solar_irradiance, back_incident_solar_irradiance_index, set_back_incident_solar_irradiance_index),
        ("surface", "front_ir_irradiance") => row!(m.surfaces[i], front_ir_irradiance, set_front_ir_irradiance, front_ir_irradiance_index, set_front_ir_irradiance_index),
        ("surface", "back_ir_irradiance") => row!(m.surfaces[i], back_ir_irradiance, set_back_ir_irradiance, back_ir_irradiance_index, set_back_ir_irradiance_index),
        ("fenestration", "front_temperature") => row!(m.fenestrations[i], first_node_temperature, set_first_node_temperature, first_node_temperature_index, set_first_node_temperature_index),
        ("fenestration", "back_temperature") => row!(m.fenestrations[i], last_node_temperature, set_last_node_temperature, last_node_temperature_index, set_last_node_temperature_index),
        ("fenestration", "open_fraction") => row!(m.fenestrations[i], open_fraction, set_open_fraction, open_fraction_index, set_open_fraction_index),
        ("fenestration", "front_convection_coefficient") => row!(m.fenestrations[i], front_convection_coefficient, set_front_convection_coefficient, front_convection_coefficient_index, set_front_convection_coefficient_index),
        ("fenestration", "back_convection_coefficient") => row!(m.fenestrations[i], back_convection_coefficient, set_back_convection_coefficient, back_convection_coefficient_index, set_back_convection_coefficient_index),
        ("fenestration", "front_convective_heat_flow") => row!(m.fenestrations[i], front_convective_heat_flow, set_front_convective_heat_flow, front_convective_heat_flow_index, set_front_convective_heat_flow_index),
        ("fenestration", "back_convective_heat_flow") => row!(m.fenestrations[i], back_convective_heat_flow, set_back_convective_heat_flow, back_convective_heat_flow_index, set_back_convective_heat_flow_index),
        ("fenestration", "front_incident_solar_irradiance") => row!(m.fenestrations[i], front_incident_solar_irradiance, set_front_incident_solar_irradiance, front_incident_solar_irradiance_index, set_front_incident_solar_irradiance_index),
        ("fenestration", "back_incident_solar_irradiance") => row!(m.fenestrations[i], back_incident_solar_irradiance, set_back_incident_solar_irradiance, back_incident_solar_irradiance_index, set_back_incident_solar_irradiance_index),
        ("fenestration", "front_ir_irradiance") => row!(m.fenestrations[i], front_ir_irradiance, set_front_ir_irradiance, front_ir_irradiance_index, set_front_ir_irradiance_index),
        ("fenestration", "back_ir_irradiance") => row!(m.fenestrations[i], back_ir_irradiance, set_back_ir_irradiance, back_ir_irradiance_index, set_back_ir_irradiance_index),
        ("luminaire", "power_consumption") => row!(m.luminaires[i], power_consumption, set_power_consumption, power_consumption_index, set_power_consumption_index),
        ("hvac", _) => match &m.hvacs[i] {
            HVAC::ElectricHeater(o) => row!(o, heating_cooling_consumption, set_heating_cooling_consumption, heating_cooling_consumption_index, set_heating_cooling_consumption_index),
            HVAC::IdealHeaterCooler(o) => row!(o, heating_cooling_consumption, set_heating_cooling_consumption, heating_cooling_consumption_index, set_heating_cooling_consumption_index),
        },
        x => panic!("no property {x:?}"),
    }
}

/// an object of the model: kind, position among its kind, name
type Obj = (&'static str, usize, String);

fn small_model(r: &mut Rng) -> (Model, SimulationStateHeader, Vec<Obj>) {
    let mut objs: Vec<Obj> = vec![];
    let count = |r: &mut Rng| if r.chance(0.12) { 0 } else { 1 + r.below(3) };
    // names are shared between kinds, so that the kind matters
    let pool = ["Alpha", "Beta", "room 1", "X", "alpha"];
    let mut names = |r: &mut Rng, n: usize| {
        let mut p: Vec<&str> = pool.to_vec();
        r.shuffle(&mut p);
        p[..n].iter().map(|x| x.to_string()).collect::<Vec<_>>()
    };
    let mut js = json!({"substances": [{"type": "Normal", "name": "c", "thermal_conductivity": 1., "density": 1000., "specific_heat_capacity": 800.}],
        "materials": [{"name": "c", "substance": "c", "thickness": 0.1}], "constructions": [{"name": "c", "materials": ["c"]}],
        "spaces": [], "surfaces": [], "fenestrations": [], "hvacs": [], "luminaires": []});
    let quad = |x: f64| json!([x, 0., 0., x + 1., 0., 0., x + 1., 0., 1., x, 0., 1.]);
    for (kind, vec) in [("space", "spaces"), ("surface", "surfaces"), ("fenestration", "fenestrations"), ("luminaire", "luminaires"), ("hvac", "hvacs")] {
        let n = count(r);
        for (i, nm) in names(r, n).into_iter().enumerate() {
            let mut o = json!({"name": nm});
            match kind {
                "surface" | "fenestration" => {
                    o["construction"] = json!("c");
                    o["vertices"] = quad(3. * i as f64 + if kind == "surface" { 0. } else { 100. });
                    o["front_boundary"] = json!({"type": "Outdoor"});
                    o["back_boundary"] = json!({"type": "Outdoor"});
                    if kind == "fenestration" && r.chance(0.7) {
                        o["operation"] = json!({"type": "Continuous"});
                    }
                }
                "hvac" => {
                    o["type"] = json!(*r.pick(&["ElectricHeater", "IdealHeaterCooler"]));
                }
                _ => {}
            }
            js[vec].as_array_mut().unwrap().push(o);
            objs.push((kind, i, nm));
        }
    }
    let (m, h) = Model::from_json(&js.to_string()).unwrap();
    // as the model has them
    let name = |o: &Obj| match o.0 {
        "space" => m.spaces[o.1].name().clone(),
        "surface" => m.surfaces[o.1].name().clone(),
        "fenestration" => m.fenestrations[o.1].name().clone(),
        "luminaire" => m.luminaires[o.1].name().clone(),
        _ => m.hvacs[o.1].name().clone(),
    };
    let objs = objs.iter().map(|o| (o.0, o.1, name(o))).collect();
    (m, h, objs)
}

fn describe(m: &Model, objs: &[Obj], st: &mut SimulationState) -> Value {
    json!(objs
        .iter()
        .map(|(kind, i, name)| {
            let mut slots = Map::new();
            for p in PROPS.iter().find(|x| x.0 == *kind).unwrap().1 {
                slots.insert(p.to_string(), json!(access(m, kind, *i, p, Op::Get, st).index.map_or(0, |k| k + 1)));
            }
            json!({"kind": kind, "name": name, "slots": slots})
        })
        .collect::<Vec<_>>())
}

fn make(w: &mut W, r: &mut Rng, share: f64) -> (Model, Vec<Obj>, SimulationState) {
    let (m, mut h, objs) = small_model(r);
    let mut all: Vec<(usize, &str)> = vec![];
    for (k, o) in objs.iter().enumerate() {
        for p in PROPS.iter().find(|x| x.0 == o.0).unwrap().1 {
            all.push((k, p));
        }
    }
    r.shuffle(&mut all);
    let mut dummy: SimulationState = vec![0.; 400].into();
    let mut want = vec![];
    for (k, p) in all {
        let o = &objs[k];
        if access(&m, o.0, o.1, p, Op::Get, &mut dummy).index.is_none() && r.chance(share) {
            let at = h.push(S::SpaceDryBulbTemperature(0), r.uni(-50., 50.)).unwrap();
            want.push((k, p, at));
        }
    }
    for _ in 0..3 {
        h.push(S::SpaceDryBulbTemperature(0), 0.).unwrap();
    }
    let mut st = h.take_values().unwrap();
    for k in 0..st.len() {
        st[k] = (r.uni(-50., 50.) * 8.).round() / 8.;
    }
    for (k, p, at) in want {
        let o = &objs[k];
        assert!(access(&m, o.0, o.1, p, Op::Give(at), &mut dummy).ok);
    }
    w.ev(json!({"op": "create", "objs": describe(&m, &objs, &mut st), "state": fs(&st)}));
    (m, objs, st)
}

/// every accessor of every object, before and after it is given a place
fn rust_side(w: &mut W, r: &mut Rng) {
    w.begin("accessors");
    let (m, objs, mut st) = make(w, r, 0.4);
    let mut free = vec![st.len() - 1, st.len() - 2, st.len() - 3];
    let mut todo: Vec<(usize, &str)> = vec![];
    for (k, o) in objs.iter().enumerate() {
        for p in PROPS.iter().find(|x| x.0 == o.0).unwrap().1 {
            for _ in 0..3 {
                todo.push((k, p));
            }
        }
    }
    r.shuffle(&mut todo);
    for (k, p) in todo {
        let o = &objs[k];
        match r.below(5) {
            0 | 1 => {
                let x = access(&m, o.0, o.1, p, Op::Get, &mut st);
                w.ev(json!({"op": "get", "obj": k + 1, "prop": p, "res": x.value.map_or(json!("none"), f), "index": x.index.map_or(0, |k| k + 1)}));
            }
            2 | 3 => {
                let v = r.uni(-10., 10.);
                let x = guard(|| access(&m, o.0, o.1, p, Op::Set(v), &mut st).ok);
                w.ev(json!({"op": "set", "obj": k + 1, "prop": p, "val": f(v), "ok": x.unwrap_or(false), "state": fs(&st)}));
            }
            _ => {
                let has = access(&m, o.0, o.1, p, Op::Get, &mut st).index.is_some();
                let place = if has { r.below(st.len()) } else if let Some(x) = free.pop() { x } else { continue };
                let x = access(&m, o.0, o.1, p, Op::Give(place), &mut st);
                w.ev(json!({"op": "give", "obj": k + 1, "prop": p, "place": place + 1, "ok": x.ok}));
            }
        }
    }
}

fn nothing() -> Value {
    json!({"kind": "nothing", "by": "name", "name": "", "idx": 0, "prop": ""})
}
struct World<'a> {
    m: &'a Model,
    objs: &'a [Obj],
}
impl World<'_> {
    fn slot(&self, o: &Obj, p: &str) -> Option<usize> {
        access(self.m, o.0, o.1, p, Op::Get, &mut vec![0.; 400].into()).index
    }
    /// a reference with the given fault ("no": none), of the given kind ("": any)
    fn reference(&self, r: &mut Rng, kind: &str, by: &str, fault: &str) -> Value {
        let mut cands: Vec<(&Obj, &str)> = vec![];
        for o in self.objs.iter().filter(|o| kind.is_empty() || o.0 == kind) {
            for p in PROPS.iter().find(|x| x.0 == o.0).unwrap().1 {
                if self.slot(o, p).is_some() == (fault != "unassigned") {
                    cands.push((o, p));
                }
            }
        }
        let k = if kind.is_empty() { *r.pick(&["space", "surface", "fenestration", "luminaire", "hvac"]) } else { kind };
        let n = self.objs.iter().filter(|o| o.0 == k).count() as i64;
        let props = PROPS.iter().find(|x| x.0 == k).unwrap().1;
        let ghost = || json!({"kind": k, "by": by, "name": "Nobody", "idx": n, "prop": props[0]});
        let of = |o: &Obj, p: &str| json!({"kind": o.0, "by": by, "name": o.2, "idx": o.1, "prop": p});
        match fault {
            "missing" | "beyond" => {
                let mut g = ghost();
                g["idx"] = json!(n + r.below(3) as i64);
                // a name of another kind, or other letters
                if r.chance(0.6) {
                    let others: Vec<&String> = self.objs.iter().filter(|o| o.0 != k).map(|o| &o.2).filter(|x| !self.objs.iter().any(|q| q.0 == k && q.2 == **x)).collect();
                    if !others.is_empty() {
                        g["name"] = json!(r.pick(&others));
                    }
                }
                g["prop"] = json!(r.pick(props));
                g
            }
            "negative" => {
                let mut g = ghost();
                g["idx"] = json!(-1 - r.below(3) as i64);
                g
            }
            "unknown" => {
                let os: Vec<&Obj> = self.objs.iter().filter(|o| o.0 == k).collect();
                if os.is_empty() {
                    return ghost();
                }
                let o = *r.pick(&os);
                let alien: Vec<&&str> = PROPS.iter().flat_map(|x| x.1.iter()).filter(|p| !props.contains(p)).collect();
                of(o, if r.chance(0.3) { "colour" } else { r.pick(&alien) })
            }
            _ => {
                if cands.is_empty() {
                    return ghost();
                }
                let (o, p) = *r.pick(&cands);
                of(o, p)
            }
        }
    }
}
/// what Rhai can assign to: a variable that holds the object, and its property
fn place(x: &Value, k: usize) -> (String, String) {
    let c = code(x);
    let at = c.rfind('.').unwrap();
    (format!("let o{k} = {};\n  ", &c[..at]), format!("o{k}{}", &c[at..]))
}
fn code(x: &Value) -> String {
    let k = x["kind"].as_str().unwrap();
    let p = x["prop"].as_str().unwrap();
    if x["by"] == "name" {
        format!("{k}({}).{p}", x["name"])
    } else {
        format!("{k}({}).{p}", x["idx"])
    }
}
fn lit(r: &mut Rng) -> String {
    format!("{:?}", (r.uni(-20., 20.) * 4.).round() / 4.)
}

/// a statement and its code
fn statement(w: &World, r: &mut Rng, s: &Value, k: usize) -> (Value, String) {
    let g = |k: &str| s[k].as_str().unwrap();
    let target = w.reference(r, g("kind"), g("by"), g("fault"));
    let by = |r: &mut Rng| *r.pick(&["name", "index"]);
    let b = by(r);
    let from = match g("from") {
        "none" => nothing(),
        "ok" => w.reference(r, "", b, "no"),
        _ => {
            let fault = *r.pick(&[if b == "name" { "missing" } else { "beyond" }, "unassigned", "unknown"]);
            w.reference(r, "", b, fault)
        }
    };
    let b = by(r);
    let cond = match g("cond") {
        "none" => nothing(),
        "bad" => {
            let fault = *r.pick(&[if b == "name" { "missing" } else { "negative" }, "unassigned", "unknown"]);
            w.reference(r, "", b, fault)
        }
        _ => w.reference(r, "", b, "no"),
    };
    let cmp = *r.pick(&["<", ">"]);
    // values are between -50 and 50 (at first)
    let val = if r.chance(0.4) { lit(r) } else if (g("cond") == "true") == (cmp == "<") { "100000.5".into() } else { "-100000.5".into() };
    let (gain, mut off) = (lit(r), lit(r));
    let op = g("op");
    if op == "int" {
        off = format!("{}", r.range(-30, 30));
    }
    let value = if from["kind"] == "nothing" { off.clone() } else if op == "int" { format!("{gain} * {} + {off}", code(&from)) } else { format!("{off} + {} * {gain}", code(&from)) };
    let (fetch, target_code) = place(&target, k);
    let body = match op {
        "+=" => format!("{fetch}{target_code} += {value};"),
        "junk" => format!("{fetch}{target_code} = {};", r.pick(&["\"warm\"", "true", "[1.0]", "()"])),
        "let" => format!("let v{k} = {value};\n  {fetch}{target_code} = v{k};"),
        _ => format!("{fetch}{target_code} = {value};"),
    };
    let text = if cond["kind"] == "nothing" { body } else { format!("if {} {cmp} {val} {{\n  {body}\n}}", code(&cond)) };
    (json!({"cond": cond, "cmp": cmp, "val": val, "target": target, "op": match op { "+=" => "+=", "junk" => "junk", _ => "=" }, "from": from, "gain": gain, "off": off}), text)
}

pub fn api(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(1616);
    for _ in 0..a.n(150, 1500) {
        rust_side(&mut w, &mut r);
    }
    let scn = a.read_scenarios();
    for _ in 0..a.n(1, 8) {
        for s in &scn {
            w.begin(format!("script {s}"));
            let (m, objs, mut st) = make(&mut w, &mut r, 0.6);
            let good = |r: &mut Rng| json!({"kind": *r.pick(&["space", "surface", "fenestration", "luminaire", "hvac"]), "by": *r.pick(&["name", "index"]), "fault": "no",
                "op": *r.pick(&["=", "+=", "int", "let"]), "from": *r.pick(&["none", "ok"]), "cond": *r.pick(&["none", "none", "true", "false"])});
            let mut shapes = vec![];
            if r.chance(0.5) {
                shapes.push(good(&mut r));
            }
            shapes.push(s.clone());
            for _ in 0..r.below(3) {
                shapes.push(good(&mut r));
            }
            let world = World { m: &m, objs: &objs };
            let (mut stmts, mut text) = (vec![], vec![]);
            for (k, x) in shapes.iter().enumerate() {
                let (v, t) = statement(&world, &mut r, x, k);
                stmts.push(v);
                text.push(t);
            }
            let text = text.join("\n");
            let arc = Arc::new(m);
            let research = r.chance(0.5);
            let n = st.len();
            let made = if r.chance(0.1) {
                let p = a.work.join("script.rhai");
                std::fs::write(&p, &text).unwrap();
                guard_res(|| RhaiControlScript::from_file(&arc, st.clone(), &p.to_str().unwrap().to_string(), research))
            } else {
                guard_res(|| RhaiControlScript::new(&arc, st.clone(), &text, research))
            };
            let (ctl, shared) = match made {
                Ok(x) => x,
                Err((_, e)) => {
                    w.ev(json!({"op": "script", "stmts": stmts, "text": text, "ok": "refused", "why": e, "state": []}));
                    continue;
                }
            };
            // the same script again and again, also after others changed the state
            for k in 0..1 + r.below(3) {
                if k > 0 {
                    let mut q = shared.lock().unwrap();
                    for j in 0..n {
                        if r.chance(0.3) {
                            q[j] = (r.uni(-50., 50.) * 8.).round() / 8.;
                        }
                    }
                    let v = fs(&q);
                    drop(q);
                    w.ev(json!({"op": "others", "state": v}));
                }
                let res = guard_res(|| ctl.control());
                // a panic inside leaves the mutex poisoned
                let v = match shared.lock() {
                    Ok(q) => fs(&q),
                    Err(q) => fs(&q.into_inner()),
                };
                let res = match res {
                    Ok(_) => json!(true),
                    Err(("err", _)) => json!(false),
                    Err(_) => json!("panic"),
                };
                w.ev(json!({"op": "script", "stmts": stmts, "text": text, "ok": res, "state": v}));
            }
            st[0] = 0.;
        }
    }
    for _ in 0..a.n(60, 300) {
        w.begin("syntax");
        let (m, _, st) = make(&mut w, &mut r, 0.5);
        let arc = Arc::new(m);
        let text = *r.pick(&["if {", "space(\"A\"", "let = 3;", "x +", "space(\"A\").dry_bulb_temperature = ;", "fn f( {}"]);
        let res = guard_res(|| RhaiControlScript::new(&arc, st, text, false));
        w.ev(json!({"op": "syntax", "text": text, "ok": res.is_ok()}));
    }
    w.finish();
}
