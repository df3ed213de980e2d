//! Recorder for radiation estimated from clouds (C24)
use crate::common::*;
use crate::sky::date_at;
use geometry::Vector3D;
use weather::{CurrentWeather, Location, Solar, Time, Weather};

fn extra(s: &Solar, d: calendar::Date) -> f64 {
    s.normal_extraterrestrial_radiation(s.unwrap_solar_time(Time::Standard(d.day_of_year())))
}
fn dew(r: &mut Rng, k: &Value) -> f64 {
    match k.as_str().unwrap() {
        "cold" => r.uni(-25., 1.),
        "mild" => r.uni(1.1, 10.9),
        "edge" => r.uni(9., 18.),
        "warm" => r.uni(11., 16.7),
        _ => r.uni(16.8, 28.),
    }
}
fn pressure(r: &mut Rng, k: &Value) -> f64 {
    if k == "sea" {
        101300.
    } else {
        r.uni(60000., 105000.)
    }
}
fn fill(w: &mut W, r: &mut Rng, sc: &Value) {
    let lat: f64 = match sc["place"].as_str().unwrap() {
        "tropic" => r.uni(-23., 23.),
        "north" => r.uni(25., 60.),
        "south" => r.uni(-60., -25.),
        "polar" => r.uni(66., 85.) * *r.pick(&[1., -1.]),
        _ => r.uni(-85., 85.),
    };
    let tz = r.range(-11, 11);
    let lon = tz as f64 * 15. + r.uni(-20., 20.);
    let mut we = Weather { location: Location { latitude: lat.to_radians(), longitude: lon.to_radians(), timezone: tz as i8, elevation: r.uni(0., 2000.), ..Location::default() }, ..Weather::default() };
    let s = we.location.get_solar();
    let mut n = (sc["month"].as_f64().unwrap() - 1.) * 30.4 + r.below(28) as f64;
    n = n.floor() + sc["hour"].as_f64().unwrap() / 24. + if r.chance(0.5) { r.uni(0., 1. / 24.) } else { 0. };
    let mut temp = r.uni(-10., 30.);
    for x in sc["recs"].as_array().unwrap() {
        let d = date_at(n % 365.);
        n += sc["step"].as_f64().unwrap() / 1440.;
        temp = match x["temp"].as_str().unwrap() {
            "same" => temp,
            "up" => temp + r.uni(0.5, 5.),
            "down" => temp - r.uni(0.5, 8.),
            _ => r.uni(-20., 40.),
        };
        let z = s.sun_position_from_standard_time(d).map_or(0., |v| v.z);
        we.data.push(CurrentWeather {
            date: d,
            dry_bulb_temperature: temp,
            dew_point_temperature: dew(r, &x["dew"]),
            global_horizontal_radiation: match x["given"].as_str().unwrap() {
                "zero" => 0.,
                "like" => r.uni(0.2, 0.8) * 1360. * z,
                "any" => r.uni(0., 1000.),
                "full" => 1300. * z,
                _ => 9999.,
            },
            direct_normal_radiation: r.uni(0., 1000.),
            diffuse_horizontal_radiation: r.uni(0., 500.),
            wind_speed: if x["wind"] == "calm" { 0. } else { r.uni(0., 20.) },
            wind_direction: r.uni(0., 6.28),
            horizontal_infrared_radiation_intensity: if r.chance(0.5) { None } else { Some(r.uni(200., 450.)) },
            opaque_sky_cover: match x["cloud"].as_str().unwrap() {
                "none" => 0.,
                "some" => r.unit(),
                _ => 1.,
            },
            relative_humidity: match x["hum"].as_str().unwrap() {
                "dry" => r.uni(0., 0.3),
                "any" => r.unit(),
                _ => 1.,
            },
            pressure: pressure(r, &x["pressure"]),
        });
    }
    let old = we.data.clone();
    let res = match guard_res(|| we.fill_solar_radiation_data()) {
        Ok(_) => "ok",
        Err((k, _)) => k,
    };
    for (i, c) in old.iter().enumerate() {
        let p = s.sun_position_from_standard_time(c.date);
        let mut others = vec![];
        for j in [i.wrapping_sub(1), i + 1] {
            if j < old.len() {
                others.push(fs(&[old[j].global_horizontal_radiation, extra(&s, old[j].date)]));
            }
        }
        let new = we.data.get(i).copied().unwrap_or_default();
        let mut same = new;
        same.global_horizontal_radiation = c.global_horizontal_radiation;
        same.direct_normal_radiation = c.direct_normal_radiation;
        same.diffuse_horizontal_radiation = c.diffuse_horizontal_radiation;
        w.one(json!({"op": "filled", "res": res, "kept": we.data.len() == old.len() && format!("{same:?}") == format!("{c:?}"), "up": p.is_some(), "z": f(p.map_or(0., |v| v.z)),
            "extra": f(extra(&s, c.date)), "cloud": f(c.opaque_sky_cover), "hum": f(c.relative_humidity), "wind": f(c.wind_speed), "dew": f(c.dew_point_temperature), "pressure": f(c.pressure),
            "warming": f(if i >= 3 { c.dry_bulb_temperature - old[i - 3].dry_bulb_temperature } else { 0. }), "others": others,
            "out": fs(&[new.direct_normal_radiation, new.diffuse_horizontal_radiation, new.global_horizontal_radiation])}));
    }
}
fn part(w: &mut W, r: &mut Rng, sc: &Value) {
    let s = Solar::new(r.uni(-1.2, 1.2), r.uni(-3., 3.), 0.);
    let n = r.uni(1., 364.);
    let d = date_at(n);
    let ex = extra(&s, d);
    let zen = sc["zen"].as_f64().unwrap() + if r.chance(0.7) { r.uni(0., 0.9) } else { 0. };
    let (sn, z) = zen.to_radians().sin_cos();
    let a = r.uni(0., 6.28);
    let sun = if zen == 0. { Vector3D::new(0., 0., 1.) } else { Vector3D::new(sn * a.cos(), sn * a.sin(), z) };
    let kt = sc["kt"].as_f64().unwrap() / 100. + if r.chance(0.7) { r.uni(0., 0.009) } else { 0. };
    let normal = kt * ex;
    let p = pressure(r, &sc["pressure"]);
    let t = Time::Standard(d.day_of_year());
    let (res, out) = match guard(|| s.disc_direct_solar(t, sun, normal, p)) {
        Ok(x) => ("ok", x),
        Err(_) => ("panic", 0.),
    };
    w.one(json!({"op": "disc", "res": res, "z": f(sun.z), "normal": f(normal), "extra": f(ex), "pressure": f(p), "kt": f(s.hourly_clearness_index(t, normal)), "out": f(out)}));
    let k = kt.clamp(0., 2.);
    w.one(json!({"op": "fraction", "kt": f(k), "out": f(guard(|| s.diffuse_fraction(k)).unwrap_or(-1.))}));
    // with its neighbours
    let mut c = CurrentWeather { date: d, dew_point_temperature: dew(r, &sc["dew"]), pressure: p, global_horizontal_radiation: normal * sun.z, ..CurrentWeather::default() };
    if kt < 0. {
        c.global_horizontal_radiation = 0.;
    }
    let mut others = vec![];
    let mut near = vec![];
    for k in ["before", "after"] {
        let g = match sc[k].as_str().unwrap() {
            "none" => {
                near.push(None);
                continue;
            }
            "same" => 1.,
            "near" => r.uni(0.93, 1.07),
            "apart" => r.uni(0.7, 1.3),
            _ => r.uni(0., 2.),
        } * c.global_horizontal_radiation;
        let at = date_at((d.day_of_year() + if k == "before" { -1. / 24. } else { 1. / 24. } + 365.) % 365.);
        others.push(fs(&[g, extra(&s, at)]));
        near.push(Some(CurrentWeather { date: at, global_horizontal_radiation: g, ..CurrentWeather::default() }));
    }
    let (res, out) = match guard(|| s.perez_direct_normal_radiation(sun, c, near[1], near[0])) {
        Ok(x) => ("ok", x),
        Err(_) => ("panic", 0.),
    };
    if c.global_horizontal_radiation > 0. {
        w.one(json!({"op": "direct", "res": res, "z": f(sun.z), "extra": f(ex), "global": f(c.global_horizontal_radiation), "others": others, "pressure": f(p), "dew": f(c.dew_point_temperature), "out": f(out)}));
    }
}
pub fn clouds(a: &Args) {
    let mut w = W::new(a);
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(13000 + i as u64);
        w.begin(format!("clouds {i}"));
        if sc["mode"] == "fill" {
            fill(&mut w, &mut r, sc)
        } else {
            part(&mut w, &mut r, sc)
        }
    }
    w.finish()
}
