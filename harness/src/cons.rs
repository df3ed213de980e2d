//! Recorders of how a construction becomes a thermal network (C13) and absorbs the sun (C15)
use crate::common::*;
use crate::therm::*;
use communication::{MetaOptions, SimulationModel};
use heat::discretization::{Discretization, UValue};
use heat::glazing::Glazing;
use heat::heat_model::ThermalModel;
use model::Model;

/// one layer: what the trace says, and the substance and material that make it
#[derive(Clone, Default)]
pub struct Layer {
    pub gas: &'static str,
    pub k: f64,
    pub rho: f64,
    pub cp: f64,
    pub th: f64,
    pub opt: [Option<f64>; 5], // fe, be, tau, af, ab
}
impl Layer {
    fn json(&self) -> Value {
        let o = |x: Option<f64>| x.map_or(json!("none"), f);
        json!({"g": self.gas, "k": f(self.k), "rho": f(self.rho), "cp": f(self.cp), "th": f(self.th), "fe": o(self.opt[0]), "be": o(self.opt[1]),
            "tau": o(self.opt[2]), "af": o(self.opt[3]), "ab": o(self.opt[4])})
    }
}

/// the model with one wall of this construction
pub fn model_with(ls: &[Layer], tilt: f64, extra: impl Fn(&mut Value)) -> Value {
    let (s, c) = tilt.sin_cos();
    // the normal is (0, -s, c)
    let vs = vec![0., 0., 0., 3., 0., 0., 3., 2. * c, 2. * s, 0., 2. * c, 2. * s];
    let mut js = json!({"substances": [], "materials": [], "constructions": [{"name": "c", "materials": []}],
        "spaces": [{"name": "room", "volume": 40}],
        "surfaces": [{"name": "wall", "construction": "c", "vertices": vs, "front_boundary": {"type": "Space", "space": "room"}, "back_boundary": {"type": "Outdoor"}}]});
    for (i, l) in ls.iter().enumerate() {
        let sub = if l.gas.is_empty() {
            let mut o = json!({"type": "Normal", "name": format!("s{i}"), "thermal_conductivity": l.k, "density": l.rho, "specific_heat_capacity": l.cp});
            for (v, n) in l.opt.iter().zip(["front_thermal_absorbtance", "back_thermal_absorbtance", "solar_transmittance", "front_solar_absorbtance", "back_solar_absorbtance"]) {
                if let Some(v) = v {
                    o[n] = json!(v);
                }
            }
            o
        } else {
            json!({"type": "Gas", "name": format!("s{i}"), "gas": l.gas})
        };
        js["substances"].as_array_mut().unwrap().push(sub);
        js["materials"].as_array_mut().unwrap().push(json!({"name": format!("m{i}"), "substance": format!("s{i}"), "thickness": l.th}));
        js["constructions"][0]["materials"].as_array_mut().unwrap().push(json!(format!("m{i}")));
    }
    extra(&mut js);
    js
}

fn describe(e: &mut Value, d: &Discretization) {
    e["res"] = json!("ok");
    e["sub"] = json!(d.tstep_subdivision);
    e["el"] = json!(d.n_elements);
    e["segs"] = segs_json(d);
    let (m, n) = d.get_chunks();
    e["mass"] = json!(m.iter().map(|x| [x.0, x.1]).collect::<Vec<_>>());
    e["nomass"] = json!(n.iter().map(|x| [x.0, x.1]).collect::<Vec<_>>());
    e["r"] = if d.segments.iter().any(|x| matches!(x.1, UValue::Cavity(_))) { json!("none") } else { guard(|| d.r_value()).map_or(json!("panic"), f) };
}

fn draw(r: &mut Rng, kind: &str) -> Layer {
    let mut l = match kind {
        "thick" => Layer { k: r.uni(0.3, 2.), rho: r.uni(900., 2600.), cp: r.uni(600., 1500.), th: r.uni(0.06, 0.5), ..Default::default() },
        "thin" => Layer { k: r.uni(0.1, 1.5), rho: r.uni(400., 2600.), cp: r.uni(500., 2500.), th: r.uni(0.003, 0.06), ..Default::default() },
        "light" => Layer { k: r.uni(0.02, 0.1), rho: r.uni(10., 200.), cp: r.uni(800., 2500.), th: r.uni(0.01, 0.2), ..Default::default() },
        "metal" => Layer { k: r.uni(15., 400.), rho: r.uni(2500., 9000.), cp: r.uni(380., 950.), th: if r.chance(0.7) { r.uni(0.0005, 0.01) } else { r.uni(0.05, 0.4) }, ..Default::default() },
        "gas" => Layer { gas: *r.pick(&GASES), th: r.uni(0.004, 0.1), ..Default::default() },
        _ => panic!("{kind}"),
    };
    for x in [&mut l.k, &mut l.rho, &mut l.cp] {
        *x = round(*x, 4);
    }
    l.th = round(l.th, 4);
    if l.gas.is_empty() {
        for i in 0..2 {
            if r.chance(0.7) {
                l.opt[i] = Some(round(r.uni(0.03, 0.97), 2));
            }
        }
    }
    l
}

fn disc_event(w: &mut W, r: &mut Rng, ls: &[Layer], n: usize) {
    let tilt = if r.chance(0.5) { std::f64::consts::FRAC_PI_2 } else { r.uni(0.02, 3.1) };
    let js = model_with(ls, tilt, |_| {});
    let lj: Vec<Value> = ls.iter().map(|l| l.json()).collect();
    w.begin(format!("construction {js}"));
    let (m, mut h) = Model::from_json(&js.to_string()).expect("model");
    // through the thermal model
    let mut e = json!({"op": "built", "ls": lj, "dt": f(3600. / n as f64), "maxdx": "0.05", "mindt": "60", "h": "1", "angle": f(tilt)});
    match guard_res(|| ThermalModel::new(&MetaOptions::default(), (), &m, &mut h, n)) {
        Ok(p) => describe(&mut e, &p.surfaces[0].discretization),
        Err((k, _)) => e["res"] = json!(k),
    }
    w.ev(e);
    // on its own, with other limits
    let (dt, maxdx, mindt, hh, ang) = (
        *r.pick(&[60f64, 100., 300., 600., 900., 1800., 3600.]),
        round(*r.pick(&[0.01, 0.02, 0.04, 0.05, 0.07, 0.3]) * r.uni(0.8, 1.2), 4),
        *r.pick(&[1f64, 20., 60., 61., 299., 700.]),
        round(r.uni(0.2, 3.), 2),
        round(r.uni(0., 3.1), 3),
    );
    let c = m.get_construction("c").unwrap();
    let mut e = json!({"op": "disc", "ls": lj, "dt": f(dt), "maxdx": f(maxdx), "mindt": f(mindt), "h": f(hh), "angle": f(ang)});
    match guard_res(|| Discretization::new(&c, &m, dt, maxdx, mindt, hh, ang)) {
        Ok(d) => describe(&mut e, &d),
        Err((k, _)) => e["res"] = json!(k),
    }
    w.ev(e);
}

/// does the temperature of a wall between two rooms stay between theirs?
fn runaway(w: &mut W, id: &str, ls: &[Layer]) {
    let js = model_with(ls, 1.5707963267948966, |j| {
        j["surfaces"][0]["back_boundary"] = json!({"type": "AmbientTemperature", "temperature": 10.});
    });
    w.begin(format!("runaway {js}"));
    let (m, mut h) = Model::from_json(&js.to_string()).expect("model");
    let phys = ThermalModel::new(&MetaOptions::default(), (), &m, &mut h, 4).expect("thermal model");
    let el = h.elements.clone();
    let nodes: Vec<usize> = el.iter().enumerate().filter(|(_, e)| matches!(e, model::SimulationStateElement::SurfaceNodeTemperature(..))).map(|x| x.0).collect();
    let mut state = h.take_values().unwrap();
    for (i, e) in el.iter().enumerate() {
        if matches!(e, model::SimulationStateElement::SurfaceFrontIRIrradiance(..) | model::SimulationStateElement::SurfaceBackIRIrradiance(..)) {
            state[i] = 400.;
        }
    }
    let mut mem = phys.allocate_memory(&state).unwrap();
    let weather = weather::SyntheticWeather { dry_bulb_temperature: Box::new(schedule::ScheduleConstant::new(10.)), ..Default::default() };
    let mut date = calendar::Date { month: 3, day: 1, hour: 0. };
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    let mut res = "ok";
    for _ in 0..12 {
        if let Err((k, _)) = guard_res(|| phys.march(date, &weather, &m, &mut state, &mut mem)) {
            res = k;
            break;
        }
        for k in &nodes {
            lo = lo.min(state[*k]);
            hi = hi.max(state[*k]);
            if state[*k].is_nan() {
                res = "nan";
            }
        }
        date.add_seconds(900.);
    }
    w.ev(json!({"op": "calm", "id": id, "res": res, "lo": f(lo), "hi": f(hi)}))
}

pub fn disc(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(131);
    for s in a.read_scenarios() {
        let ls: Vec<Layer> = s["kinds"].as_array().unwrap().iter().map(|k| draw(&mut r, k.as_str().unwrap())).collect();
        disc_event(&mut w, &mut r, &ls, s["n"].as_u64().unwrap() as usize);
    }
    for _ in 0..a.n(1500, 30_000) {
        let len = 1 + r.below(6);
        let ls: Vec<Layer> = (0..len)
            .map(|i| {
                let kinds: &[&str] = if i == 0 || i == len - 1 { &["thick", "thin", "light", "metal"] } else { &["thick", "thin", "light", "metal", "gas"] };
                let k = *r.pick(kinds);
                let mut l = draw(&mut r, k);
                if r.chance(0.2) {
                    l.th = *r.pick(&[0.05, 0.1, 0.15, 0.2, 0.3]);
                }
                l
            })
            .collect();
        let n = *r.pick(&[1usize, 2, 3, 4, 6, 10, 12, 20, 30, 60]);
        disc_event(&mut w, &mut r, &ls, n);
    }
    let solid = |k: f64, rho: f64, cp: f64, th: f64| Layer { k, rho, cp, th, ..Default::default() };
    let heavy = [("brick", solid(0.816, 1700., 800., 0.2)), ("concrete", solid(1.63, 2400., 900., 0.2)), ("wood", solid(0.12, 500., 1600., 0.05))];
    let light = [("steel", solid(45., 7850., 490., 0.005)), ("aluminium", solid(200., 2700., 900., 0.003)), ("glass", solid(1., 2500., 750., 0.004)),
        ("plaster", solid(0.3, 1100., 900., 0.012)), ("wool", solid(0.0252, 17.5, 2400., 0.08))];
    for (a, x) in &heavy {
        runaway(&mut w, a, &[x.clone()]);
        for (b, y) in &light {
            runaway(&mut w, &format!("{a}-{b}"), &[x.clone(), y.clone()]);
            runaway(&mut w, &format!("{b}-{a}"), &[y.clone(), x.clone()]);
        }
        for (b, y) in &heavy {
            runaway(&mut w, &format!("{a}-{b}"), &[x.clone(), y.clone()]);
        }
    }
    w.finish()
}

// ------------------------------------------------------------------ glazing

fn pane(g: &Glazing) -> Value {
    json!({"tau": f(g.tau()), "rf": f(g.rho_front()), "rb": f(g.rho_back())})
}

fn stack(w: &mut W, ps: &[[f64; 3]]) {
    let gs: Vec<Glazing> = ps.iter().map(|p| Glazing::new(p[0], p[1], p[2])).collect();
    let mut e = json!({"op": "stack", "panes": gs.iter().map(pane).collect::<Vec<_>>(), "own": gs.iter().map(|g| json!({"af": f(g.alpha_front()), "ab": f(g.alpha_back())})).collect::<Vec<_>>()});
    match guard(|| (Glazing::alphas(&gs), Glazing::combine_layers(&gs))) {
        Ok((al, c)) => {
            e["res"] = json!("ok");
            e["alphas"] = fs(&al);
            e["comb"] = pane(&c);
            e["pair"] = json!([]);
            if gs.len() == 2 {
                let (x, y) = gs[0].combined_alphas(&gs[1]);
                e["pair"] = fs(&[x, y]);
            }
        }
        Err(_) => e["res"] = json!("panic"),
    }
    w.one(e)
}

fn system(w: &mut W, r: &mut Rng, kinds: &[String], n: usize) {
    let mut ls: Vec<Layer> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let mut l = match k.as_str() {
            "clear" => draw(r, "thin"),
            "block" => Layer { k: 0.3, rho: 1200., cp: 1500., th: round(r.uni(0.06, 0.25), 3), ..Default::default() },
            "opaque" => {
                let kk = *r.pick(&["thick", "thin", "light"]);
                draw(r, kk)
            }
            _ => panic!(),
        };
        let tau = if k == "opaque" { 0. } else { round(r.uni(0.05, 0.85), 2) };
        if tau > 0. {
            l.opt[2] = Some(tau);
        } else if r.bool() {
            l.opt[2] = Some(0.);
        }
        for j in [3, 4] {
            if tau > 0.1 || r.chance(0.8) {
                l.opt[j] = Some(round(if r.chance(0.15) { 1. - tau } else { r.uni(0., 0.98 - tau) }, 2));
            }
        }
        if i > 0 && (k != "opaque" || kinds[i - 1] != "opaque" || r.bool()) {
            ls.push(draw(r, "gas"));
        }
        ls.push(l);
    }
    let js = model_with(&ls, 1.2, |_| {});
    w.begin(format!("glazing {js}"));
    let (m, mut h) = Model::from_json(&js.to_string()).expect("model");
    let mut e = json!({"op": "system", "ls": ls.iter().map(|l| l.json()).collect::<Vec<_>>()});
    let front = guard_res(|| Glazing::get_front_glazing_system(&m.constructions[0], &m));
    match (guard_res(|| ThermalModel::new(&MetaOptions::default(), (), &m, &mut h, n)), front) {
        (Ok(p), Ok(gs)) => {
            e["res"] = json!("ok");
            let s = &p.surfaces[0];
            e["el"] = json!(s.discretization.n_elements);
            e["front"] = json!(gs.iter().map(pane).collect::<Vec<_>>());
            e["fa"] = column(&s.front_alphas);
            e["ba"] = column(&s.back_alphas);
        }
        _ => e["res"] = json!("err"),
    }
    w.ev(e)
}

pub fn glazing(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(151);
    for s in a.read_scenarios() {
        if let Some(ks) = s["kinds"].as_array() {
            let ks: Vec<String> = ks.iter().map(|k| k.as_str().unwrap().to_string()).collect();
            system(&mut w, &mut r, &ks, s["n"].as_u64().unwrap() as usize);
        } else {
            let ps: Vec<[f64; 3]> = s["panes"].as_array().unwrap().iter().map(|p| [0, 1, 2].map(|i| p[i].as_f64().unwrap() / 100.)).collect();
            stack(&mut w, &ps);
        }
    }
    for _ in 0..a.n(3000, 60_000) {
        let ps: Vec<[f64; 3]> = (0..1 + r.below(6))
            .map(|_| {
                let tau = match r.below(10) {
                    0 => 0.,
                    1 => 1.,
                    _ => r.uni(0., 1.),
                };
                [tau, (1. - tau) * r.uni(0., 0.99), (1. - tau) * r.uni(0., 0.99)]
            })
            .collect();
        stack(&mut w, &ps);
    }
    for _ in 0..a.n(1500, 20_000) {
        let ks: Vec<String> = (0..1 + r.below(5)).map(|_| r.pick(&["clear", "clear", "block", "opaque"]).to_string()).collect();
        let n = *r.pick(&[1usize, 4, 20]);
        system(&mut w, &mut r, &ks, n);
    }
    w.finish()
}
