//! Recorder for the text of models, .spl and JSON (C26)
use crate::common::*;
use model::Model;

const CLASSES: [&str; 13] = ["Building", "Construction", "Fenestration", "HVAC", "Luminaire", "Material", "Object", "Output", "SiteDetails", "SolarOptions", "Space", "Substance", "Surface"];
const DECO: [&str; 12] = ["", " {", " }", " \"q\"", " it's", " // no", " /* no", " */", " \\", " é", " {}\"{", " '}"];

/// everything in a value, but the vertices, as path=value
fn flat(path: &str, v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Null => {}
        Value::Object(m) => {
            for (k, x) in m {
                if !(path.is_empty() && k == "vertices") {
                    flat(&format!("{path}/{k}"), x, out)
                }
            }
        }
        Value::Array(a) => {
            for (k, x) in a.iter().enumerate() {
                flat(&format!("{path}/{k}"), x, out)
            }
        }
        Value::Number(x) => out.push(format!("{path}={}", x.as_f64().unwrap())),
        Value::String(x) => out.push(format!("{path}={x}")),
        Value::Bool(x) => out.push(format!("{path}={x}")),
    }
}
fn flatten(v: &Value) -> Vec<String> {
    let mut o = vec![];
    flat("", v, &mut o);
    o.sort();
    o
}
fn numbers(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| format!("{}", x.as_f64().unwrap())).collect()).unwrap_or_default()
}

/// numbers which are read as they are written
fn num(r: &mut Rng, a: f64, b: f64) -> Value {
    let x = (r.uni(a, b) * 1000.).round() / 1000.;
    if r.chance(0.3) {
        json!(x.round() as i64)
    } else {
        json!(x)
    }
}
struct Doc {
    salt: usize,
    slots: usize,
    flip: bool,
}
struct Entry {
    class: String,
    value: Value,
    refs: Vec<Value>,
    parent: String,
    area: f64,
    bad: String,
}
impl Doc {
    fn name(&self, class: &str, k: u64) -> String {
        format!("{class} {k}{}", DECO[(self.salt + k as usize * 5 + class.len()) % DECO.len()])
    }
    fn boundary(&self, r: &mut Rng, e: &Value, refs: &mut Vec<Value>) -> Value {
        match r.below(6) {
            0 => json!({"type": "Outdoor"}),
            1 => json!({"type": "Ground"}),
            2 => json!({"type": "Adiabatic"}),
            3 => json!({"type": "AmbientTemperature", "temperature": num(r, -10., 30.)}),
            _ => {
                let n = self.name("Space", e["ref"].as_u64().unwrap());
                refs.push(json!({"class": "Space", "name": n}));
                json!({"type": "Space", "space": n})
            }
        }
    }
    fn entry(&mut self, r: &mut Rng, e: &Value) -> Entry {
        let class = e["class"].as_str().unwrap().to_string();
        let k = e["name"].as_u64().unwrap();
        let to = e["ref"].as_u64().unwrap();
        let mut m = Map::new();
        let mut refs = vec![];
        let mut parent = String::new();
        let mut area = 0.;
        macro_rules! put {
            ($k:expr, $v:expr) => {
                m.insert($k.to_string(), json!($v))
            };
        }
        macro_rules! may {
            ($k:expr, $v:expr) => {
                if r.chance(0.6) {
                    let v = $v;
                    m.insert($k.to_string(), json!(v));
                }
            };
        }
        if !["SiteDetails", "SolarOptions", "Output"].contains(&class.as_str()) {
            put!("name", self.name(&class, k));
        }
        match class.as_str() {
            "Building" => {
                may!("n_storeys", r.below(9));
                may!("shelter_class", *r.pick(&["NoObstructions", "IsolatedRural", "Urban", "LargeLotUrban", "SmallLotUrban"]));
                may!("stack_coefficient", num(r, 0., 1.));
                may!("wind_coefficient", num(r, 0., 1.));
            }
            "Construction" => {
                let n = r.below(4) as u64;
                let l: Vec<String> = (0..n).map(|j| self.name("Material", j)).collect();
                put!("materials", l);
            }
            "Material" => {
                put!("substance", self.name("Substance", to));
                put!("thickness", num(r, 0.001, 0.5));
            }
            "Substance" => {
                if r.chance(0.3) {
                    put!("type", "Gas");
                    may!("gas", *r.pick(&["Air", "Argon", "Krypton", "Xenon"]));
                } else {
                    put!("type", "Normal");
                    for f in ["thermal_conductivity", "specific_heat_capacity", "density"] {
                        may!(f, num(r, 0.1, 3000.));
                    }
                    for f in [
                        "front_solar_absorbtance",
                        "back_solar_absorbtance",
                        "solar_transmittance",
                        "front_visible_reflectance",
                        "back_visible_reflectance",
                        "visible_transmissivity",
                        "front_thermal_absorbtance",
                        "back_thermal_absorbtance",
                    ] {
                        may!(f, num(r, 0., 1.));
                    }
                }
            }
            "Space" => {
                may!("volume", num(r, 10., 200.));
                may!("building", self.name("Building", to));
                may!("storey", r.below(5));
                if r.chance(0.5) {
                    let i = match r.below(4) {
                        0 => json!({"type": "Constant", "flow": num(r, 0., 1.)}),
                        1 => json!({"type": "Blast", "flow": num(r, 0., 1.)}),
                        2 => json!({"type": "EffectiveAirLeakageArea", "area": num(r, 0., 1.)}),
                        _ => json!({"type": "DesignFlowRate", "a": num(r, 0., 1.), "b": num(r, 0., 1.), "c": num(r, 0., 1.), "d": num(r, 0., 1.), "phi": num(r, 0., 1.)}),
                    };
                    put!("infiltration", i);
                }
                let n = r.below(3);
                let p: Vec<&str> = (0..n).map(|_| *r.pick(&["Bathroom", "Bedroom", "DiningRoom", "Kitchen", "LivingRoom", "Office", "Storage", "Garage", "Hallway", "Laundry", "Other"])).collect();
                if n > 0 {
                    put!("purposes", p);
                }
            }
            "HVAC" => {
                let ideal = r.bool();
                put!("type", if ideal { "IdealHeaterCooler" } else { "ElectricHeater" });
                may!("target_space", self.name("Space", to));
                may!("max_heating_power", num(r, 100., 3000.));
                may!("heating_setpoint", num(r, 15., 25.));
                if ideal {
                    may!("max_cooling_power", num(r, 100., 3000.));
                    may!("cooling_setpoint", num(r, 20., 30.));
                }
            }
            "Luminaire" => {
                may!("max_power", num(r, 10., 300.));
                may!("target_space", self.name("Space", to));
            }
            "Surface" => {
                let c = self.name("Construction", to % 3);
                refs.push(json!({"class": "Construction", "name": c}));
                put!("construction", c);
                may!("category", *r.pick(&["ExteriorWall", "InteriorWall", "GroundFloor", "ExteriorFloor", "InteriorFloor", "Ceiling", "Roof", "Other"]));
                may!("front_boundary", self.boundary(r, e, &mut refs));
                may!("back_boundary", self.boundary(r, e, &mut refs));
                may!("precalculated_front_convection_coef", num(r, 1., 20.));
                may!("precalculated_back_convection_coef", num(r, 1., 20.));
                let y = k as f64 * 7.;
                put!("vertices", json!([0, y, 0, 60, y, 0, 60, y, 3.5, 0, y, 3.5]));
                area = 210.;
            }
            "Fenestration" => {
                let cat = *r.pick(&["Window", "Window", "Door", "Opening"]);
                let c = self.name("Construction", to % 3);
                if cat != "Opening" {
                    refs.push(json!({"class": "Construction", "name": c}));
                }
                put!("construction", c);
                if cat != "Window" || r.bool() {
                    put!("category", cat);
                }
                may!("precalculated_front_convection_coef", num(r, 1., 20.));
                may!("precalculated_back_convection_coef", num(r, 1., 20.));
                if r.chance(0.5) {
                    let o = match r.below(3) {
                        0 => json!({"type": "Fixed", "fraction": num(r, 0., 1.)}),
                        1 => json!({"type": "Continuous", "max": num(r, 0.5, 1.), "min": num(r, 0., 0.5)}),
                        _ => json!({"type": "Binary", "open": num(r, 0.5, 1.), "closed": num(r, 0., 0.5)}),
                    };
                    put!("operation", o);
                }
                let (x, y) = (1. + 2.5 * self.slots as f64, (to % 3) as f64 * 7.);
                self.slots += 1;
                let w = 0.5 + 0.125 * r.below(10) as f64;
                area = w * 1.5;
                if r.chance(0.6) {
                    parent = self.name("Surface", to % 3);
                    refs.push(json!({"class": "Surface", "name": parent}));
                    put!("parent_surface", parent);
                } else {
                    let mut free = vec![];
                    may!("front_boundary", self.boundary(r, e, &mut free));
                    may!("back_boundary", self.boundary(r, e, &mut free));
                }
                if self.flip && r.bool() {
                    put!("vertices", json!([x, y, 1, x, y, 2.5, x + w, y, 2.5, x + w, y, 1]));
                } else {
                    put!("vertices", json!([x, y, 1, x + w, y, 1, x + w, y, 2.5, x, y, 2.5]));
                }
            }
            "Object" => {
                put!("dimensions", json!({"x": num(r, 0.1, 2.), "y": num(r, 0.1, 2.), "z": num(r, 0.1, 2.)}));
                may!("location", json!({"x": num(r, -5., 5.), "y": num(r, -5., 5.), "z": num(r, -5., 5.)}));
                may!("up", json!({"x": 0, "y": 0, "z": 1}));
                may!("front", json!({"x": 0, "y": -1, "z": 0}));
                let s = match r.below(6) {
                    0 => json!({"type": "Sofa", "subtype": *r.pick(&["Other", "Rectangular", "SingleSeat", "LShaped"])}),
                    1 => json!({"type": "Storage", "subtype": *r.pick(&["Cabinet", "Shelf"])}),
                    2 => json!({"type": "Table", "subtype": *r.pick(&["Other", "Dining", "Coffee"]), "shape": *r.pick(&["Other", "Rectangular", "Circular", "LShaped"])}),
                    3 => json!({"type": "Chair", "subtype": *r.pick(&["Other", "Dining", "Office", "Stool"]), "arms": *r.pick(&["Existing", "Missing"]), "back": *r.pick(&["Existing", "Missing"]), "legs": *r.pick(&["Four", "Three", "Star", "Other"])}),
                    _ => json!({"type": *r.pick(&["Other", "Bathtub", "Bed", "Dishwasher", "Fireplace", "Oven", "Refrigerator", "Sink", "Stairs", "Stove", "Television", "Toilet", "WasherDryer"])}),
                };
                may!("specifications", s);
                if r.chance(0.5) {
                    let n = self.name("Space", to);
                    refs.push(json!({"class": "Space", "name": n}));
                    put!("space", n);
                }
            }
            "Output" => {
                let what = *r.pick(&["Space", "Surface", "Fenestration", "HVAC", "Luminaire"]);
                let key = match what {
                    "Space" => *r.pick(&["SpaceDryBulbTemperature", "SpaceInfiltrationVolume", "SpaceVentilationTemperature"]),
                    "Surface" => *r.pick(&["SurfaceFrontConvectionCoefficient", "SurfaceBackSolarIrradiance", "SurfaceFrontIRIrradiance"]),
                    "Fenestration" => *r.pick(&["FenestrationOpenFraction", "FenestrationFrontConvectiveHeatFlow"]),
                    "HVAC" => "HeatingCoolingPowerConsumption",
                    _ => "LuminairePowerConsumption",
                };
                put!(key, self.name(what, to));
            }
            "SiteDetails" => {
                may!("altitude", num(r, -100., 3000.));
                may!("latitude", num(r, -90., 90.));
                may!("longitude", num(r, -180., 180.));
                may!("standard_meridian", num(r, -180., 180.));
                may!("terrain", *r.pick(&["Country", "Suburbs", "City", "Ocean", "Urban"]));
            }
            "SolarOptions" => {
                may!("n_solar_irradiance_points", r.below(100));
                may!("solar_ambient_divitions", r.below(1000));
                may!("solar_sky_discretization", r.below(9));
                may!("optical_data_path", format!("./data{}", DECO[r.below(DECO.len())]));
            }
            c => panic!("class {c}"),
        }
        let bad = e["bad"].as_str().unwrap().to_string();
        match bad.as_str() {
            "no" => {}
            "field" => {
                if class == "Output" {
                    m.clear();
                }
                m.insert("colour".into(), json!("blue"));
            }
            "type" => {
                let k = m.keys().next().cloned().unwrap_or("latitude".into());
                m.insert(k, json!([["x"]]));
            }
            "vertices" => {
                m.insert("vertices".into(), r.pick(&[json!([0, 0, 0, 1, 0, 0, 1, 1]), json!([0, 0, 0, 1, "0", 0, 1, 1, 0]), json!([0, 0, 0, 1, 0, 0, 1, 1, 0, 5]), json!([0, 0, 0, 1, 0, 0]), json!("abc"), json!([]), json!([[0, 0, 0], [1, 0, 0], [1, 1, 0]])]).clone());
            }
            b => panic!("bad {b}"),
        }
        Entry { class, value: Value::Object(m), refs, parent, area, bad }
    }
}
/// JSON5 in a style: 0 compact JSON, 1 pretty JSON, 2.. JSON5
fn write(r: &mut Rng, v: &Value, style: u64, out: &mut String) {
    match v {
        Value::Object(m) => {
            out.push('{');
            let mut ks: Vec<&String> = m.keys().collect();
            r.shuffle(&mut ks);
            let n = ks.len();
            for (i, k) in ks.into_iter().enumerate() {
                inside(r, style, out);
                match (style, r.below(3)) {
                    (0, _) | (1, _) => out.push_str(&format!("\"{k}\"")),
                    (_, 0) => out.push_str(&format!("'{k}'")),
                    _ => out.push_str(k),
                }
                if r.bool() {
                    out.push(' ')
                }
                out.push(':');
                inside(r, style, out);
                write(r, &m[k], style, out);
                if i + 1 < n || (style > 1 && r.bool()) {
                    out.push(',');
                }
            }
            inside(r, style, out);
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                inside(r, style, out);
                write(r, x, style, out);
                if i + 1 < a.len() || (style > 1 && i > 0 && r.bool()) {
                    out.push(',');
                }
            }
            inside(r, style, out);
            out.push(']');
        }
        Value::String(s) => {
            let q = if style > 1 && r.bool() { '\'' } else { '"' };
            out.push(q);
            for c in s.chars() {
                if c == q || c == '\\' {
                    out.push('\\')
                }
                out.push(c);
            }
            out.push(q);
        }
        x => out.push_str(&x.to_string()),
    }
}
fn inside(r: &mut Rng, style: u64, out: &mut String) {
    match (style, r.below(if style > 1 { 12 } else { 4 })) {
        (0, _) => {}
        (_, 0) => out.push_str("\n    "),
        (_, 1) => out.push(' '),
        (_, 2) => out.push_str("\r\n\t"),
        (_, 4) => out.push_str("/* } */"),
        (_, 5) => out.push_str("// { it's\n"),
        (_, 6) => out.push_str("/*{\"*/"),
        (_, 7) => out.push_str("/** *\n **/"),
        _ => {}
    }
}
fn gap(r: &mut Rng, k: u64) -> String {
    match k {
        0 => "".into(),
        1 => " ".into(),
        2 => "\n\n".into(),
        3 => "\r\n\t".into(),
        4 => "\n// Space { name: 'no' }\n".into(),
        5 => "/* Building { \n */".into(),
        6 => "//\n//}\n\n".into(),
        7 => format!("/*{}*/ /***/", "*\n".repeat(r.below(4))),
        _ => " /* // */ ".into(),
    }
}
fn values(m: &Model, class: &str) -> Vec<Value> {
    let all = serde_json::to_value(m).unwrap();
    match class {
        "SiteDetails" => m.site_details.iter().map(|x| serde_json::to_value(x).unwrap()).collect(),
        "SolarOptions" => m.solar_options.iter().map(|x| serde_json::to_value(x).unwrap()).collect(),
        _ => all[key(class)].as_array().unwrap().clone(),
    }
}
fn key(class: &str) -> String {
    match class {
        "SiteDetails" => "site_details".into(),
        "SolarOptions" => "solar_options".into(),
        c => format!("{}s", c.to_lowercase()),
    }
}
/// all that is in a model
fn dump(m: &Model, states: usize) -> Value {
    let mut o = Map::new();
    for c in CLASSES {
        let l: Vec<Value> = values(m, c)
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let area = match c {
                    "Surface" => m.surfaces[i].vertices.area(),
                    "Fenestration" => m.fenestrations[i].vertices.area(),
                    _ => 0.,
                };
                json!({"fields": flatten(v), "vertices": numbers(&v["vertices"]), "area": f(area)})
            })
            .collect();
        o.insert(c.into(), json!(l));
    }
    o.insert("states".into(), json!(states));
    Value::Object(o)
}
fn line_of(e: &str) -> i64 {
    e.split("[in line ").nth(1).and_then(|x| x.split(']').next()).and_then(|x| x.parse().ok()).unwrap_or(0)
}
type Read = Result<(Model, usize), (&'static str, String)>;
fn read(f: impl FnOnce() -> Result<(Model, model::SimulationStateHeader), String>) -> Read {
    guard_res(f).map(|(m, h)| (m, h.len()))
}
fn outcome(x: &Read, ev: &mut Map<String, Value>) {
    match x {
        Ok((m, n)) => {
            ev.insert("res".into(), json!("ok"));
            ev.insert("got".into(), dump(m, *n));
        }
        Err((k, e)) => {
            ev.insert("res".into(), json!(*k));
            ev.insert("line".into(), json!(line_of(e)));
            ev.insert("msg".into(), json!(e));
        }
    }
}
fn chars(s: &str) -> Value {
    json!(s.chars().map(|c| c.to_string()).collect::<Vec<_>>())
}
fn again(w: &mut W, a: &Args, r: &mut Rng, m: &Model) {
    let dir = a.work.join("text");
    std::fs::create_dir_all(&dir).unwrap();
    let via = *r.pick(&["text", "text", "json", "textfile", "jsonfile"]);
    let p = dir.join("model").to_str().unwrap().to_string();
    let got = match via {
        "text" => read(|| Model::from_bytes(m.to_string().as_bytes())),
        "json" => read(|| Model::from_json(&serde_json::to_string(m).unwrap())),
        "textfile" => read(|| {
            m.print_to_file(&p)?;
            Model::from_file(&p)
        }),
        _ => read(|| {
            m.print_to_json_file(&p)?;
            Model::from_json_file(&p)
        }),
    };
    let mut ev = Map::new();
    ev.insert("op".into(), json!("again"));
    ev.insert("via".into(), json!(via));
    outcome(&got, &mut ev);
    w.ev(Value::Object(ev));
}
pub fn text(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(26);
    for (no, sc) in a.read_scenarios().iter().enumerate() {
        let mut d = Doc { salt: r.below(1000), slots: 0, flip: r.chance(0.3) };
        let es: Vec<(Entry, &Value)> = sc["entries"].as_array().unwrap().iter().map(|e| (d.entry(&mut r, e), e)).collect();
        w.begin(format!("document {no}: {sc}"));
        let known = |texts: &[String]| -> Value {
            es.iter()
                .zip(texts)
                .map(|((e, _), t)| {
                    let mut fields = flatten(&e.value);
                    fields.retain(|x| !x.starts_with("/parent_surface="));
                    json!({"class": e.class, "text": chars(t), "name": e.value["name"].as_str().unwrap_or(""), "fields": fields, "vertices": if e.bad == "vertices" { vec![] } else { numbers(&e.value["vertices"]) },
                           "refs": e.refs, "parent": e.parent, "area": f(e.area), "bad": e.bad != "no"})
                })
                .collect()
        };
        let mut ev = Map::new();
        let got;
        if sc["mode"] == "json" {
            let mut o = Map::new();
            for (e, _) in &es {
                let k = key(&e.class);
                if ["SiteDetails", "SolarOptions"].contains(&e.class.as_str()) {
                    o.insert(k, e.value.clone());
                } else {
                    o.entry(k).or_insert(json!([])).as_array_mut().unwrap().push(e.value.clone());
                }
            }
            let mut t = String::new();
            write(&mut r, &Value::Object(o), 1, &mut t);
            ev.insert("op".into(), json!("json"));
            ev.insert("known".into(), known(&vec![String::new(); es.len()]));
            got = read(|| Model::from_json(&t));
        } else {
            let mut t = String::new();
            let mut texts = vec![];
            for (e, x) in &es {
                t.push_str(&gap(&mut r, x["gap"].as_u64().unwrap()));
                t.push_str(&e.class);
                t.push_str(&gap(&mut r, x["between"].as_u64().unwrap()));
                let mut o = String::new();
                write(&mut r, &e.value, x["style"].as_u64().unwrap(), &mut o);
                t.push_str(&o);
                texts.push(o);
            }
            t.push_str(&gap(&mut r, sc["last"].as_u64().unwrap()));
            let cs: Vec<char> = t.chars().collect();
            let at = r.below(cs.len().max(1));
            let (left, right): (String, String) = (cs[..at.min(cs.len())].iter().collect(), cs[(at + 1).min(cs.len())..].iter().collect());
            match sc["harm"].as_str().unwrap() {
                "no" => {}
                "cut" => t = left,
                "drop" => t = left + right.as_str(),
                "add" => t = left + *r.pick(&["{", "}", "\"", "'", "/", "\\", "*", "x", ",", " ", "\n"]) + right.as_str(),
                "word" => t.push_str(*r.pick(&["\nSpace", " end", "Surface ", "x", "/", ";", "}", "{", "{}", "Space(a: 1)", "Space, {}"])),
                "class" => t.push_str(*r.pick(&["\nWindow {name: 'a'}", "\nspace {name: 'a'}", "Surfaces{}", "{name: 'a'}", "#x {}"])),
                "open" => t.push_str(*r.pick(&["\nSpace {name: 'a'", "\nSpace {name: 'a}", "Space {name: 'a' // }", "Space /* {name: 'a'}"])),
                "comment" => t.push_str(*r.pick(&["// the end", "/* the end */", "//", "/**/", "\n/* the end"])),
                h => panic!("harm {h}"),
            }
            ev.insert("op".into(), json!("read"));
            ev.insert("chars".into(), chars(&t));
            ev.insert("known".into(), known(&texts));
            w.note(format!("document {no}: {t}"));
            got = read(|| Model::from_bytes(t.as_bytes()));
        }
        outcome(&got, &mut ev);
        w.ev(Value::Object(ev));
        if let Ok((m, _)) = &got {
            for _ in 0..2 {
                again(&mut w, a, &mut r, m);
            }
        }
    }
    w.finish();
}
