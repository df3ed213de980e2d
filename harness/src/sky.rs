//! Recorder for the sun (C17) and the sky (C18, C19)
use crate::cal::{dj, DAYS};
use crate::common::*;
use calendar::Date;
use geometry::Vector3D;
use crate::wea::rand_cw;
use matrix::Matrix;
use weather::{CurrentWeather, PerezSky, ReinhartSky, SkyUnits, Solar, Time};

pub struct Place {
    pub lat: f64,
    pub lon: f64,
    pub mer: f64,
}
impl Place {
    pub fn solar(&self) -> Solar {
        Solar::new(self.lat, self.lon, self.mer)
    }
    pub fn json(&self) -> Value {
        json!({"latitude": f(self.lat), "longitude": f(self.lon), "meridian": f(self.mer)})
    }
}
pub fn date_at(n: f64) -> Date {
    let mut d = n;
    let mut m = 0;
    while d >= DAYS[m] as f64 {
        d -= DAYS[m] as f64;
        m += 1;
    }
    Date { month: m as u8 + 1, day: d.floor() as u8 + 1, hour: 24. * (d - d.floor()) }
}
fn num(t: Time) -> f64 {
    match t {
        Time::Solar(x) | Time::Standard(x) => x,
    }
}
fn position(w: &mut W, p: &Place, kind: &str, n: f64) {
    let s = p.solar();
    let d = date_at(n);
    let r = guard(|| match kind {
        "solar" => s.sun_position(Time::Solar(n)),
        "standard" => s.sun_position(Time::Standard(n)),
        "date" => s.sun_position_from_standard_time(d),
        _ => s.sun_position_from_solar_time(d),
    });
    let (res, at) = match r {
        Ok(Some(v)) => ("ok", fs(&[v.x, v.y, v.z])),
        Ok(None) => ("ok", json!([])),
        Err(_) => ("panic", json!([])),
    };
    w.one(json!({"op": "position", "p": p.json(), "t": {"kind": kind, "n": f(n), "date": dj(&d)}, "res": res, "at": at}));
}
fn times(w: &mut W, p: &Place, n: f64) {
    let s = p.solar();
    let (rise, set) = s.sunrise_sunset(n);
    w.one(json!({"op": "times", "p": p.json(), "n": f(n), "declination": f(s.declination(n)), "equation": f(s.equation_of_time(n)),
        "extra": f(s.normal_extraterrestrial_radiation(n)), "lead": f(s.solar_standard_time_difference(n)),
        "solar": f(s.unwrap_solar_time(Time::Standard(n))), "standard": f(s.unwrap_standard_time(Time::Solar(n))),
        "same": fs(&[s.unwrap_solar_time(Time::Solar(n)), s.unwrap_standard_time(Time::Standard(n))]),
        "angle": f(s.hour_angle(Time::Solar(n))), "angle2": f(s.hour_angle(Time::Standard(n))),
        "rise": f(num(rise)), "set": f(num(set))}));
}
pub fn sun(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(171);
    for s in a.read_scenarios() {
        let g = |k: &str| s[k].as_f64().unwrap();
        let off = g("offset").to_radians();
        let mer: f64 = r.uni(-165., 165.);
        let p = Place { lat: (g("lat") + r.uni(-1., 1.)).to_radians(), lon: mer.to_radians() - off, mer: mer.to_radians() };
        let day = (15. + 30.4 * (g("season") - 1.) + r.uni(-12., 12.)).floor().clamp(3., 363.);
        let sol = p.solar();
        let (rise, set) = sol.sunrise_sunset(day + 0.5);
        let (mut up, mut down) = (num(rise) - day, num(set) - day);
        if up.is_nan() {
            up = 0.25;
            down = 0.75;
        }
        let e = r.uni(0.003, 0.01);
        let h = match s["moment"].as_str().unwrap() {
            "midnight" => 0.,
            "night" => up * r.unit(),
            "before rise" => up - e,
            "after rise" => up + e,
            "morning" => r.uni(up, 0.5),
            "noon" => 0.5,
            "afternoon" => r.uni(0.5, down),
            "before set" => down - e,
            "after set" => down + e,
            _ => r.uni(down, 1.),
        };
        let kind = s["kind"].as_str().unwrap();
        let mut n = day + h;
        if kind == "standard" || kind == "date" {
            n = sol.unwrap_standard_time(Time::Solar(n));
        }
        position(&mut w, &p, kind, n);
        if r.chance(0.3) {
            times(&mut w, &p, n);
        }
    }
    for _ in 0..a.n(10_000, 150_000) {
        let mer: f64 = 15. * r.uni(-11., 11.).floor();
        let p = Place { lat: r.uni(-88., 88.).to_radians(), lon: (mer + r.uni(-20., 20.)).to_radians(), mer: mer.to_radians() };
        let n = r.uni(0.2, 364.8);
        position(&mut w, &p, *r.pick(&["solar", "standard", "date", "solardate"]), n);
    }
    for _ in 0..a.n(2000, 20_000) {
        let n = r.uni(1., 365.);
        let zenith = r.uni(0., 1.55);
        let elevation = r.uni(-100., 2500.);
        let s = Solar::new(0.3, 1., 1.);
        let dir = Vector3D::new(zenith.sin(), 0., zenith.cos());
        w.one(json!({"op": "clear", "n": f(n), "zenith": f(zenith), "elevation": f(elevation), "mass": f(weather::solar::air_mass(zenith)),
            "beam": f(s.beam_atmosphere_transmittance(dir, elevation)), "clear": f(s.clear_sky_global_horizontal_rad(Time::Solar(n), dir, elevation))}));
    }
    w.finish()
}

// ---------------------------------------------------------------- divisions of the sky

pub fn dome(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(181);
    let v3 = |v: Vector3D| fs(&[v.x, v.y, v.z]);
    let top = a.n(6, 12);
    let skies: Vec<ReinhartSky> = (1..=top).map(ReinhartSky::new).collect();
    for (k, s) in skies.iter().enumerate() {
        let m = k + 1;
        w.one(json!({"op": "division", "m": m, "bins": ReinhartSky::n_bins(m), "field": s.n_bins}));
        for bin in 0..s.n_bins {
            if m > 4 && !r.chance(0.2) {
                continue;
            }
            let d = s.bin_dir(bin);
            w.one(json!({"op": "patch", "m": m, "bin": bin, "dir": v3(d), "area": f(s.bin_solid_angle(bin)), "back": s.dir_to_bin(d)}));
        }
        for bin in [s.n_bins + 1, s.n_bins + 100] {
            w.one(json!({"op": "refused", "panic": guard(|| s.bin_dir(bin)).is_err()}));
            w.one(json!({"op": "refused", "panic": guard(|| s.bin_solid_angle(bin)).is_err()}));
        }
    }
    w.one(json!({"op": "refused", "panic": guard(|| ReinhartSky::new(0)).is_err()}));
    let pi = std::f64::consts::PI;
    let mut point = |w: &mut W, m: usize, alt: f64, azi: f64| {
        let d = Vector3D::new(alt.cos() * azi.sin(), alt.cos() * azi.cos(), alt.sin());
        w.one(json!({"op": "point", "m": m, "dir": v3(d), "bin": skies[m - 1].dir_to_bin(d)}));
    };
    for s in a.read_scenarios() {
        let g = |k: &str| s[k].as_f64().unwrap();
        let m = g("m") as usize;
        let h = pi / 2. / (7. * m as f64 + 0.5);
        let row = g("row");
        let n = [30., 30., 24., 24., 18., 12., 6., 1.][(row as usize) / m] * m as f64;
        let alt = h * (row + g("a") / 20.);
        if alt > pi / 2. {
            continue;
        }
        let c = r.below(n as usize) as f64;
        point(&mut w, m, alt, 2. * pi / n * (c + g("z") / 20.));
    }
    for _ in 0..a.n(20_000, 200_000) {
        let m = 1 + r.below(top);
        let alt = if r.chance(0.1) { r.uni(-pi / 2., 0.) } else { r.uni(0., pi / 2.) };
        point(&mut w, m, alt, r.uni(0., 2. * pi));
    }
    w.finish()
}

// ---------------------------------------------------------------- Perez

pub fn perez(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(191);
    let steps = [1.0, 1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2, 11.9, 30.];
    for round in 0..a.n(1, 12) {
        for s in a.read_scenarios() {
            let lat: f64 = r.uni(-55., 55.);
            let mer: f64 = r.uni(-165., 165.);
            let p = Place { lat: lat.to_radians(), lon: (mer + r.uni(-15., 15.)).to_radians(), mer: mer.to_radians() };
            let sol = p.solar();
            let (lo, hi) = match s["height"].as_str().unwrap() {
                "night" => (-1., -0.01),
                "low" => (0.02, 0.2),
                "middle" => (0.2, 0.6),
                "high" => (0.6, 0.98),
                _ => (0.98, 1.),
            };
            // an instant with the sun at that height
            let mut found = None;
            for _ in 0..2000 {
                let n = r.uni(1., 364.);
                let z = sol.sun_position(Time::Standard(n)).map(|v| v.z).unwrap_or(-0.5);
                if z >= lo && z <= hi {
                    found = Some(n);
                    break;
                }
            }
            let Some(n) = found else { continue };
            let date = date_at(n);
            let n = date.day_of_year();
            let Ok(sun) = guard(|| sol.sun_position_from_standard_time(date)) else { continue };
            let class = s["class"].as_u64().unwrap() as usize;
            let zen = sun.map(|v| v.z.acos()).unwrap_or(1.).clamp(3f64.to_radians(), 1.57);
            let k = 1.041 * zen.powi(3);
            let dif = if r.chance(0.05) { 0. } else { r.uni(5., 60. + 250. * zen.cos()) };
            let eps = r.uni(steps[class - 1], steps[class]);
            let mut dir = dif * (eps - 1.) * (1. + k);
            if r.chance(0.07) {
                dir = 0.
            }
            if dif == 0. && r.chance(0.7) {
                dir = 500.
            }
            let dew = r.uni(-10., 25.);
            let c = CurrentWeather { dew_point_temperature: dew, direct_normal_radiation: dir, diffuse_horizontal_radiation: dif, ..rand_cw(&mut r, date) };
            let c = CurrentWeather { dew_point_temperature: dew, direct_normal_radiation: dir, diffuse_horizontal_radiation: dif, ..c };
            let units = s["units"].as_str().unwrap();
            let u = || if units == "solar" { SkyUnits::Solar } else { SkyUnits::Visible };
            let m = if round > 0 && s["m"] == json!(2) && r.chance(0.1) { 3 } else { s["m"].as_u64().unwrap() as usize };
            let albedo = s["albedo"].as_f64().unwrap() / 100.;
            let (sky, direct) = (s["sky"].as_bool().unwrap(), s["direct"].as_bool().unwrap());
            if m > 1 && !r.chance(0.3) {
                continue;
            }
            let bins = ReinhartSky::n_bins(m);
            let res = guard_res(|| {
                if s["again"].as_bool().unwrap() {
                    let mut v = Matrix::new(3.5, bins, 1);
                    PerezSky::update_sky_vec(&mut v, m, &sol, date, c, u(), albedo, sky, direct).map(|_| v)
                } else {
                    PerezSky::gen_sky_vec(m, &sol, date, c, u(), albedo, sky, direct)
                }
            });
            let sunj = |v: Option<Vector3D>| v.map(|v| fs(&[v.x, v.y, v.z])).unwrap_or(json!([]));
            let wj = json!({"dew": f(dew), "dif": f(dif), "dir": f(dir)});
            let mut e = json!({"op": "vector", "p": p.json(), "n": f(n), "sun": sunj(sun), "w": wj, "units": units, "m": m, "albedo": f(albedo), "sky": sky, "direct": direct});
            match res {
                Ok(v) => {
                    e["res"] = json!("ok");
                    e["vec"] = Value::Array((0..bins).map(|k| f(v.get(k, 0).unwrap())).collect());
                }
                Err((k, _)) => e["res"] = json!(k),
            }
            w.one(e);
            if r.chance(0.1) {
                let len = if r.chance(0.3) { bins } else { ReinhartSky::n_bins(1 + r.below(4) as usize) - r.below(2) as usize };
                let mut v = Matrix::new(2.5, len, 1);
                let ok = guard_res(|| PerezSky::update_sky_vec(&mut v, m, &sol, date, c, u(), albedo, sky, direct)).is_ok();
                let same = (0..len).all(|k| v.get(k, 0).unwrap() == 2.5);
                w.one(json!({"op": "size", "m": m, "len": len, "ok": ok, "same": same}));
            }
            if let (Some(sv), true) = (sun, r.chance(0.5)) {
                if dif + dir < 1e-4 {
                    continue;
                }
                let fun = guard(|| PerezSky::get_sky_func_standard_time(u(), &sol, date, dew, dif, dir));
                let mut e = json!({"op": "function", "p": p.json(), "n": f(n), "sun": sunj(sun), "w": wj, "units": units});
                match fun {
                    Ok(fun) => {
                        let mut at = vec![];
                        for k in 0..8 {
                            let (alt, azi) = (r.uni(0., 1.57f64).sin().asin(), r.uni(0., 6.28));
                            let mut d = Vector3D::new(alt.cos() * azi.sin(), alt.cos() * azi.cos(), alt.sin());
                            if k < 2 {
                                d = Vector3D::new(sv.x + 0.05 * r.uni(-1., 1.), sv.y + 0.05 * r.uni(-1., 1.), (sv.z + 0.05 * r.uni(-1., 1.)).abs()).get_normalized();
                            }
                            let v = fun(d);
                            at.push(json!({"d": fs(&[d.x, d.y, d.z]), "v": f(v)}));
                        }
                        e["res"] = json!("ok");
                        e["at"] = Value::Array(at);
                    }
                    Err(_) => e["res"] = json!("panic"),
                }
                w.one(e);
            }
            if dif > 0. {
                let extra = r.uni(1300., 1420.);
                let mass = weather::solar::air_mass(zen);
                let cl = PerezSky::sky_clearness(dif, dir, zen);
                let br = PerezSky::sky_brightness(dif, mass, extra);
                let wa = PerezSky::precipitable_water_content(dew);
                let cat = PerezSky::clearness_category(cl);
                w.one(json!({"op": "parts", "w": wj, "z": f(zen), "extra": f(extra), "clearness": f(cl), "brightness": f(br), "water": f(wa), "category": cat,
                    "direct": f(PerezSky::direct_illuminance_ratio(wa, zen, br, cat)), "diffuse": f(PerezSky::diffuse_illuminance_ratio(wa, zen.cos(), br, cat)),
                    "params": fs(&PerezSky::calc_params(zen, cl, br))}));
            }
        }
    }
    w.finish()
}
