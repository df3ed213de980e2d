//! Recorder for the `model` crate: state header (C05) and model assembly (C06)
use crate::common::*;
use geometry::{Point3D, Vector3D};
use model::hvac::{ElectricHeater, IdealHeaterCooler};
use model::substance::{Gas, Normal};
use model::{
    Boundary, Building, Construction, Fenestration, Luminaire, Material, Model, Object, ObjectSpecs, SimulationState,
    SimulationStateElement as S, SimulationStateHeader, Space, Substance, Surface, SurfaceTrait, HVAC,
};
use std::sync::Arc;

fn variants() -> Vec<S> {
    vec![
        S::Clothing,
        S::FenestrationOpenFraction(1),
        S::HeatingCoolingPowerConsumption(2),
        S::LuminairePowerConsumption(3),
        S::SurfaceFrontConvectionCoefficient(0),
        S::SurfaceBackConvectionCoefficient(1),
        S::SurfaceFrontConvectiveHeatFlow(2),
        S::SurfaceBackConvectiveHeatFlow(3),
        S::SurfaceFrontSolarIrradiance(4),
        S::SurfaceBackSolarIrradiance(5),
        S::SurfaceFrontIRIrradiance(6),
        S::SurfaceBackIRIrradiance(7),
        S::FenestrationFrontConvectionCoefficient(0),
        S::FenestrationBackConvectionCoefficient(1),
        S::FenestrationFrontConvectiveHeatFlow(2),
        S::FenestrationBackConvectiveHeatFlow(3),
        S::FenestrationFrontSolarIrradiance(4),
        S::FenestrationBackSolarIrradiance(5),
        S::FenestrationFrontIRIrradiance(6),
        S::FenestrationBackIRIrradiance(7),
        S::SpaceDryBulbTemperature(0),
        S::SpaceInfiltrationVolume(1),
        S::SpaceInfiltrationTemperature(2),
        S::SpaceVentilationVolume(3),
        S::SpaceVentilationTemperature(4),
        S::SpaceAirExchangeVolume(0, 1),
        S::SurfaceNodeTemperature(1, 2),
        S::FenestrationNodeTemperature(3, 4),
    ]
}
fn class(e: &S) -> &'static str {
    match (e.is_personal(), e.is_operational(), e.is_physical()) {
        (true, false, false) => "P",
        (false, true, false) => "O",
        (false, false, true) => "H",
        _ => "?",
    }
}
/// the classes as the documentation lists them (used only to choose which elements to push)
fn intended(e: &S) -> &'static str {
    match e {
        S::Clothing => "P",
        S::FenestrationOpenFraction(_) | S::HeatingCoolingPowerConsumption(_) | S::LuminairePowerConsumption(_) => "O",
        _ => "H",
    }
}

fn seen(h: &SimulationStateHeader, mut v: Value) -> Value {
    v["len"] = json!(h.len());
    v["empty"] = json!(h.is_empty());
    v["n_ind"] = json!(h.n_individual());
    v["n_op"] = json!(h.n_operational());
    v["elems"] = json!(h.elements.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>());
    v["taken"] = json!(h.default_values.is_none());
    v["vals"] = match &h.default_values {
        Some(x) => fs(x),
        None => json!([]),
    };
    v
}

pub fn header(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(51);
    let all = variants();
    let mut scns: Vec<Vec<String>> = a
        .read_scenarios()
        .iter()
        .map(|s| s.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .collect();
    // long random histories with every variant
    for _ in 0..a.n(400, 6000) {
        let n = 3 + r.below(40);
        let mut rank = 0;
        let mut v = vec![];
        for _ in 0..n {
            if r.chance(0.12) && rank < 2 {
                rank += 1;
            }
            let c = if r.chance(0.08) { *r.pick(&["P", "O", "H"]) } else { ["P", "O", "H"][rank] };
            v.push(c.to_string());
            if r.chance(0.01) {
                v.push("T".into());
            }
        }
        scns.push(v);
    }
    for s in scns {
        w.begin(format!("{s:?}"));
        let mut h = SimulationStateHeader::new();
        w.ev(json!({"op": "new"}));
        let mut taken = false;
        for c in &s {
            if c == "T" {
                let g = h.take_values();
                let v = match g {
                    Some(x) => json!({"op": "take", "res": "values", "got": fs(&x)}),
                    None => json!({"op": "take", "res": "none"}),
                };
                taken = true;
                w.ev(seen(&h, v));
            } else {
                let pool: Vec<&S> = all.iter().filter(|e| intended(e) == c).collect();
                let e = **r.pick(&pool);
                let name = format!("{e:?}");
                let kind = name.split('(').next().unwrap().to_string();
                let v = r.uni(-10., 10.);
                let mut ev = json!({"op": "push", "class": class(&e), "kind": kind, "name": name, "v": f(v)});
                match guard_res(|| h.push(e, v)) {
                    Ok(k) => {
                        ev["res"] = json!("ok");
                        ev["idx"] = json!(k)
                    }
                    Err((k, _)) => ev["res"] = json!(k),
                }
                w.ev(seen(&h, ev));
            }
        }
        if h.is_empty() {
            continue;
        }
        let _ = taken;
        for c in ["P", "O", "H"] {
            let n = h.len();
            let o: SimulationState = (0..n).map(|k| k as f64 + 0.5).collect();
            let d: SimulationState = (0..n).map(|k| -(k as f64) - 1.0).collect();
            let (o0, mut out) = (o.clone(), d.clone());
            let mut h2 = h.clone();
            let res = guard(|| match c {
                "P" => h2.copy_individual_state(&o, &mut out),
                "O" => h2.copy_operational_state(&o, &mut out),
                _ => h2.copy_physical_state(&o, &mut out),
            });
            w.ev(json!({"op": "copy", "class": c, "res": if res.is_ok() {"ok"} else {"panic"}, "origin": fs(&o0), "dest": fs(&d),
                "out": fs(&out), "origin_after": fs(&o)}));
        }
    }
    w.finish();
}

// ---------------------------------------------------------------- assembly
fn bj(b: &Boundary) -> Value {
    match b {
        Boundary::Space { space } => json!({"t": "Space", "s": space}),
        Boundary::Outdoor => json!({"t": "Outdoor", "s": ""}),
        Boundary::Ground => json!({"t": "Ground", "s": ""}),
        Boundary::Adiabatic => json!({"t": "Adiabatic", "s": ""}),
        Boundary::AmbientTemperature { .. } => json!({"t": "AmbientTemperature", "s": ""}),
    }
}
fn bval(v: &Value) -> Value {
    match v["t"].as_str().unwrap() {
        "Space" => json!({"type": "Space", "space": v["s"]}),
        t => json!({"type": t}),
    }
}
pub fn rect(x: f64, y: f64, wx: f64, wy: f64, z: f64, up: bool) -> Vec<f64> {
    let mut p = vec![(x, y), (x + wx, y), (x + wx, y + wy), (x, y + wy)];
    if !up {
        p.reverse();
    }
    p.iter().flat_map(|(a, b)| vec![*a, *b, z]).collect()
}
fn elem(e: &S) -> Value {
    let s = format!("{e:?}");
    let mut it = s.split(|c| c == '(' || c == ')');
    let k = it.next().unwrap().to_string();
    json!([k, it.next().unwrap_or("-1").parse::<i64>().unwrap_or(-1)])
}
fn state_json(h: &Option<SimulationStateHeader>) -> Value {
    match h {
        None => json!([["taken", -1]]),
        Some(h) => {
            if h.default_values.as_ref().map(|v| v.len()) != Some(h.len()) {
                return json!([["inconsistent", -1]]);
            }
            Value::Array(h.elements.iter().map(elem).collect())
        }
    }
}
fn ix(x: Option<usize>) -> Value {
    x.map(|k| json!(k)).unwrap_or(json!(-1))
}
fn hv_ix(h: &HVAC) -> Option<usize> {
    match h {
        HVAC::ElectricHeater(h) => h.heating_cooling_consumption_index(),
        HVAC::IdealHeaterCooler(h) => h.heating_cooling_consumption_index(),
    }
}
fn snap(m: &Model) -> Value {
    let h = m.clone().take_state();
    json!({
        "spaces": m.spaces.iter().map(|x| x.name().clone()).collect::<Vec<_>>(),
        "constructions": m.constructions.iter().map(|x| x.name().clone()).collect::<Vec<_>>(),
        "substances": m.substances.iter().map(|x| x.name().clone()).collect::<Vec<_>>(),
        "materials": m.materials.iter().map(|x| x.name().clone()).collect::<Vec<_>>(),
        "buildings": m.buildings.iter().map(|x| x.name().clone()).collect::<Vec<_>>(),
        "objects": m.objects.iter().map(|x| x.name().clone()).collect::<Vec<_>>(),
        "surfaces": m.surfaces.iter().map(|s| json!({"n": s.name(), "construction": s.construction, "front": bj(&s.front_boundary),
            "back": bj(&s.back_boundary), "area": f(s.area()), "holes": s.vertices.n_inner_loops()})).collect::<Vec<_>>(),
        "fenestrations": m.fenestrations.iter().map(|s| json!({"n": s.name(), "construction": s.construction,
            "front": bj(&s.front_boundary), "back": bj(&s.back_boundary), "idx": ix(s.open_fraction_index())})).collect::<Vec<_>>(),
        "hvacs": m.hvacs.iter().map(|h| json!({"n": h.name(), "idx": ix(hv_ix(h))})).collect::<Vec<_>>(),
        "luminaires": m.luminaires.iter().map(|h| json!({"n": h.name(), "idx": ix(h.power_consumption_index())})).collect::<Vec<_>>(),
        "state": state_json(&h),
    })
}

fn add(m: &mut Model, zs: &mut Vec<(String, f64)>, kind: &str, o: &Value, r: &mut Rng) -> Result<(), (&'static str, String)> {
    let n = o["n"].as_str().unwrap();
    match kind {
        "spaces" => guard(|| {
            m.add_space(Space::new(n));
        })
        .map_err(|e| ("panic", e)),
        "constructions" => guard(|| {
            m.add_construction(Construction::new(n));
        })
        .map_err(|e| ("panic", e)),
        "substances" => {
            let s: Substance = if r.bool() { Normal::new(n).wrap() } else { Gas::new(n).wrap() };
            guard(|| {
                m.add_substance(s);
            })
            .map_err(|e| ("panic", e))
        }
        "materials" => guard(|| {
            m.add_material(Material::new(n, "b1", 0.1));
        })
        .map_err(|e| ("panic", e)),
        "buildings" => guard(|| {
            m.add_building(Building::new(n));
        })
        .map_err(|e| ("panic", e)),
        "surfaces" => {
            let z = m.surfaces.len() as f64 * 3.0;
            let s: Surface = serde_json::from_value(json!({
                "name": n, "construction": o["construction"], "vertices": rect(0., 0., 4., 4., z, o["up"].as_bool().unwrap()),
                "front_boundary": bval(&o["front"]), "back_boundary": bval(&o["back"]), "category": o["cat"]
            }))
            .expect("surface");
            let res = guard_res(|| m.add_surface(s).map(|_| ()));
            if res.is_ok() {
                zs.push((n.to_string(), z));
            }
            res
        }
        "fenestrations" => {
            let parent = o["parent"].as_str().unwrap();
            let z = zs.iter().find(|x| x.0 == parent).map(|x| x.1).unwrap_or(100.);
            let (x, y) = match o["slot"].as_i64().unwrap() {
                1 => (0.5, 0.5),
                2 => (2.5, 0.5),
                3 => (0.5, 2.5),
                4 => (2.5, 2.5),
                _ => (3.5, 1.75),
            };
            let mut v = json!({
                "name": n, "construction": o["construction"], "vertices": rect(x, y, 1., 1., z, o["up"].as_bool().unwrap()),
                "front_boundary": bval(&o["front"]), "back_boundary": bval(&o["back"]), "category": o["cat"]
            });
            if !parent.is_empty() {
                v["parent_surface"] = json!(parent);
            }
            let s: Fenestration = serde_json::from_value(v).expect("fenestration");
            guard_res(|| m.add_fenestration(s).map(|_| ()))
        }
        "hvacs" => {
            let h: HVAC = if !o["fresh"].as_bool().unwrap() {
                m.hvacs[r.below(m.hvacs.len())].clone()
            } else if r.bool() {
                ElectricHeater::new(n).wrap()
            } else {
                IdealHeaterCooler::new(n).wrap()
            };
            guard_res(|| m.add_hvac(h).map(|_| ()))
        }
        "luminaires" => {
            let l = if !o["fresh"].as_bool().unwrap() {
                (*m.luminaires[r.below(m.luminaires.len())]).clone()
            } else {
                Luminaire::new(n)
            };
            guard_res(|| m.add_luminaire(l).map(|_| ()))
        }
        "objects" => {
            let mut x = Object::new(n, Point3D::default(), Point3D::default(), Vector3D::z(), Vector3D::y(), ObjectSpecs::default());
            let sp = o["space"].as_str().unwrap();
            if !sp.is_empty() {
                x.set_space(sp.to_string());
            }
            guard_res(|| m.add_object(x))
        }
        k => panic!("kind {k}"),
    }
}

fn pos<T>(v: &[Arc<T>], x: Result<Arc<T>, String>) -> usize {
    match x {
        Ok(x) => v.iter().position(|y| Arc::ptr_eq(&x, y)).map(|k| k + 1).unwrap_or(999),
        Err(_) => 0,
    }
}
fn same_hvac(a: &HVAC, b: &HVAC) -> bool {
    match (a, b) {
        (HVAC::ElectricHeater(a), HVAC::ElectricHeater(b)) => Arc::ptr_eq(a, b),
        (HVAC::IdealHeaterCooler(a), HVAC::IdealHeaterCooler(b)) => Arc::ptr_eq(a, b),
        _ => false,
    }
}
fn same_sub(a: &Substance, b: &Substance) -> bool {
    match (a, b) {
        (Substance::Normal(a), Substance::Normal(b)) => Arc::ptr_eq(a, b),
        (Substance::Gas(a), Substance::Gas(b)) => Arc::ptr_eq(a, b),
        _ => false,
    }
}

pub fn assembly(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(61);
    for s in a.read_scenarios() {
        w.begin(s.to_string());
        w.ev(json!({"op": "start"}));
        let mut m = Model::default();
        let mut zs = vec![];
        for op in s.as_array().unwrap() {
            let kind = op[0].as_str().unwrap();
            if kind == "take" {
                let g = m.take_state();
                let mut ev = json!({"op": "take", "res": if g.is_some() {"state"} else {"none"}});
                if g.is_some() {
                    ev["got"] = state_json(&g);
                }
                ev["snap"] = snap(&m);
                w.ev(ev);
                continue;
            }
            let res = add(&mut m, &mut zs, kind, &op[1], &mut r);
            let (res, msg) = match res {
                Ok(()) => ("ok", String::new()),
                Err((k, e)) => (k, e),
            };
            w.ev(json!({"op": "add", "kind": kind, "o": op[1], "res": res, "msg": msg, "snap": snap(&m)}));
        }
        for n in ["s1", "s3", "c1", "c2", "b1", "t1", "g1", "w1", "w2", "f1", "f2", "d1", "d2", "zz"] {
            for kind in ["spaces", "constructions", "substances", "materials", "buildings", "surfaces", "fenestrations", "hvacs", "luminaires"] {
                // names of another kind must not be found either, but one of those per name is enough
                let own = match &n[..1] {
                    "s" => "spaces",
                    "c" => "constructions",
                    "b" => "substances",
                    "t" => "materials",
                    "g" => "buildings",
                    "w" => "surfaces",
                    "f" => "fenestrations",
                    "d" => *r.pick(&["hvacs", "luminaires"]),
                    _ => kind,
                };
                if own != kind {
                    continue;
                }
                let found = guard(|| match kind {
                    "spaces" => pos(&m.spaces, m.get_space(n)),
                    "constructions" => pos(&m.constructions, m.get_construction(n)),
                    "materials" => pos(&m.materials, m.get_material(n)),
                    "buildings" => pos(&m.buildings, m.get_building(n)),
                    "surfaces" => pos(&m.surfaces, m.get_surface(n)),
                    "fenestrations" => pos(&m.fenestrations, m.get_fenestration(n)),
                    "luminaires" => pos(&m.luminaires, m.get_luminaire(n)),
                    "hvacs" => match m.get_hvac(n) {
                        Ok(h) => m.hvacs.iter().position(|x| same_hvac(x, &h)).map(|k| k + 1).unwrap_or(999),
                        Err(_) => 0,
                    },
                    _ => match m.get_substance(n) {
                        Ok(h) => m.substances.iter().position(|x| same_sub(x, &h)).map(|k| k + 1).unwrap_or(999),
                        Err(_) => 0,
                    },
                });
                w.ev(match found {
                    Ok(k) => json!({"op": "get", "kind": kind, "n": n, "res": "ok", "found": k}),
                    Err(e) => json!({"op": "get", "kind": kind, "n": n, "res": "panic", "msg": e}),
                });
            }
        }
        match guard(|| m.get_space_sizes()) {
            Ok((t, v)) => w.ev(json!({"op": "sizes", "res": "ok", "total": f(t),
                "spaces": v.iter().map(|(k, a)| json!({"n": k, "area": f(*a)})).collect::<Vec<_>>()})),
            Err(e) => w.ev(json!({"op": "sizes", "res": "panic", "msg": e})),
        }
    }
    w.finish();
}
