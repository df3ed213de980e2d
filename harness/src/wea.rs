//! Recorder for the `weather` crate: look-ups (C03) and EPW files (C04)
use crate::cal::{date, dj, rand_date, rand_hour, DAYS};
use crate::common::*;
use calendar::Date;
use schedule::{EmptySchedule, Schedule, ScheduleConstant};
use weather::{CurrentWeather, EPWWeather, Location, SyntheticWeather, Weather, WeatherTrait};

pub fn wv(c: &CurrentWeather) -> Vec<f64> {
    vec![
        c.dry_bulb_temperature,
        c.dew_point_temperature,
        c.global_horizontal_radiation,
        c.direct_normal_radiation,
        c.diffuse_horizontal_radiation,
        c.wind_speed,
        c.wind_direction,
        c.opaque_sky_cover,
        c.relative_humidity,
        c.pressure,
    ]
}
pub fn wj(c: &CurrentWeather) -> Value {
    let mut v = dj(&c.date);
    v["v"] = fs(&wv(c));
    v["ir"] = match c.horizontal_infrared_radiation_intensity {
        Some(x) => f(x),
        None => json!("none"),
    };
    v
}
pub fn rand_cw(r: &mut Rng, date: Date) -> CurrentWeather {
    CurrentWeather {
        date,
        dry_bulb_temperature: r.uni(-20., 40.),
        dew_point_temperature: r.uni(-20., 20.),
        global_horizontal_radiation: r.uni(0., 1000.),
        direct_normal_radiation: r.uni(0., 1000.),
        diffuse_horizontal_radiation: r.uni(0., 500.),
        wind_speed: r.uni(0., 20.),
        wind_direction: r.uni(0., 6.28),
        horizontal_infrared_radiation_intensity: if r.chance(0.15) { None } else { Some(r.uni(200., 450.)) },
        opaque_sky_cover: r.unit(),
        relative_humidity: r.unit(),
        pressure: r.uni(80000., 103000.),
    }
}
fn lookup(w: &mut W, we: &Weather, d: Date, via_trait: bool) {
    match guard(|| if via_trait { we.get_weather_data(d) } else { we.find_weather_line(d) }) {
        Ok(c) => w.ev(json!({"op": "lookup", "res": "ok", "date": dj(&d), "out": wj(&c)})),
        Err(e) => w.ev(json!({"op": "lookup", "res": "panic", "date": dj(&d), "msg": e})),
    }
}
fn data_json(v: &[CurrentWeather]) -> Value {
    Value::Array(v.iter().map(wj).collect())
}
fn doy_date(mut n: f64) -> Date {
    n = n.rem_euclid(365.);
    let mut m = 0;
    while n >= DAYS[m] as f64 {
        n -= DAYS[m] as f64;
        m += 1;
    }
    let day = n.floor();
    date(m as u8 + 1, day as u8 + 1, ((n - day) * 24.).min(23.9999999))
}

pub fn weather(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(31);
    // every record set of the model's small year, every instant: mapped to the real year
    for s in a.read_scenarios() {
        let year = s["year"].as_i64().unwrap();
        let recs: Vec<i64> = s["recs"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        w.begin(format!("{s}"));
        let pos = |k: i64| {
            // ticks spread over the year, the last one on the last hours of Dec 31st
            if k == year - 1 {
                date(12, 31, 22.0)
            } else {
                doy_date(k as f64 * 364. / (year - 1) as f64)
            }
        };
        let we = Weather { data: recs.iter().map(|k| rand_cw(&mut r, pos(*k))).collect(), location: Location::default() };
        w.ev(json!({"op": "data", "res": "ok", "data": data_json(&we.data)}));
        for k in 0..year {
            lookup(&mut w, &we, pos(k), k % 2 == 0);
        }
    }
    for it in 0..a.n(250, 4000) {
        w.begin(format!("random data {it}"));
        // distinct dates, unordered
        let n = match r.below(6) {
            0 => 1,
            1 => 2,
            2 => 24,
            _ => 3 + r.below(15),
        };
        let mut hours: Vec<i64> = vec![];
        let hourly = r.chance(0.3);
        let base = *r.pick(&[0i64, 8750 * 60, 4000 * 60, 8736 * 60, 8759 * 60]);
        while hours.len() < n {
            let h = if hourly {
                (base + 60 * r.range(0, 2 * n as i64)).rem_euclid(8760 * 60)
            } else {
                r.range(0, 8760 * 60 - 1)
            };
            if !hours.contains(&h) {
                hours.push(h);
            }
        }
        let off = if r.bool() { 0. } else { 59. / 60. };
        let mk = |m: i64| {
            let mut d = doy_date((m / 1440) as f64 + 1e-9);
            d.hour = (m % 1440) as f64 / 60.;
            if off > 0. {
                d.hour = d.hour.floor() + 0.999999;
            }
            d
        };
        let mut dates: Vec<Date> = vec![];
        for h in &hours {
            let d = mk(*h);
            if !dates.contains(&d) {
                dates.push(d);
            }
        }
        r.shuffle(&mut dates);
        let all: Vec<CurrentWeather> = dates.iter().map(|d| rand_cw(&mut r, *d)).collect();
        let cut = r.below(all.len() + 1);
        let mut we = Weather { data: all[..cut].to_vec(), location: Location::default() };
        let more = Weather { data: all[cut..].to_vec(), location: Location::default() };
        w.ev(json!({"op": "data", "res": "ok", "data": data_json(&we.data)}));
        let mj = data_json(&more.data);
        match guard(|| {
            let mut x = we.clone();
            x += more.clone();
            x
        }) {
            Ok(x) => {
                we = x;
                w.ev(json!({"op": "concat", "res": "ok", "more": mj, "data": data_json(&we.data)}))
            }
            Err(e) => {
                w.ev(json!({"op": "concat", "res": "panic", "msg": e}));
                continue;
            }
        }
        match guard(|| {
            let mut x = we.clone();
            x.sort_data();
            x
        }) {
            Ok(x) => {
                we = x;
                w.ev(json!({"op": "sort", "res": "ok", "data": data_json(&we.data)}))
            }
            Err(e) => {
                w.ev(json!({"op": "sort", "res": "panic", "msg": e}));
                continue;
            }
        }
        let mut asks = vec![date(1, 1, 0.), date(12, 31, 23.99999), date(12, 31, 0.0), date(1, 1, 23.5), date(6, 30, 12.)];
        for _ in 0..10 {
            asks.push(rand_date(&mut r));
        }
        for c in &we.data {
            asks.push(c.date);
            let mut d = c.date;
            d.hour = (d.hour + 0.25) % 24.;
            asks.push(d);
        }
        if let (Some(x), Some(y)) = (we.data.first(), we.data.last()) {
            // between the last and the first record, around new year
            let gap = 365. - (y.date.day_of_year() - x.date.day_of_year());
            for q in [0.1, 0.5, 0.9, 0.99] {
                asks.push(doy_date(y.date.day_of_year() + gap * q));
            }
        }
        for d in asks {
            lookup(&mut w, &we, d, r.bool());
        }
    }
    // synthetic weather: any subset of schedules
    for it in 0..a.n(150, 2000) {
        w.begin(format!("synthetic {it}"));
        let vals: Vec<Option<f64>> = (0..11).map(|_| if r.bool() { Some(r.uni(-50., 50.)) } else { None }).collect();
        let s = |k: usize| -> Box<dyn Schedule<f64>> {
            match vals[k] {
                Some(v) => Box::new(ScheduleConstant::new(v)),
                None => Box::new(EmptySchedule),
            }
        };
        let sw = SyntheticWeather {
            dry_bulb_temperature: s(0),
            dew_point_temperature: s(1),
            global_horizontal_radiation: s(2),
            direct_normal_radiation: s(3),
            diffuse_horizontal_radiation: s(4),
            wind_speed: s(5),
            wind_direction: s(6),
            opaque_sky_cover: s(7),
            relative_humidity: s(8),
            pressure: s(9),
            horizontal_infrared_radiation_intensity: s(10),
        };
        let o = |x: &Option<f64>| x.map(f).unwrap_or(json!("none"));
        for _ in 0..4 {
            let d = rand_date(&mut r);
            let sched: Vec<Value> = vals[..10].iter().map(o).collect();
            match guard(|| sw.get_weather_data(d)) {
                Ok(c) => w.ev(json!({"op": "synthetic", "res": "ok", "date": dj(&d), "sched": sched, "ir": o(&vals[10]), "out": wj(&c)})),
                Err(e) => w.ev(json!({"op": "synthetic", "res": "panic", "msg": e})),
            }
        }
    }
    let _ = rand_hour;
    w.finish();
}

/// EPW files written from known contents, read back through EPWWeather::from_file
pub fn epw(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(32);
    let scns = a.read_scenarios();
    let path = a.work.join("w.epw");
    let path = path.to_str().unwrap().to_string();
    let total = scns.len().max(a.n(150, 1500));
    for it in 0..total {
        // the five text fields come from the specification (raw text as written in the file)
        let texts: Vec<String> = (0..5)
            .map(|k| scns[(it + 7 * k) % scns.len()].as_str().unwrap().to_string())
            .collect();
        let eol = if r.bool() { "\n" } else { "\r\n" };
        let lat = (r.uni(-66., 66.) * 100.).round() / 100.;
        let lon = (r.uni(-179., 179.) * 100.).round() / 100.;
        let tz = r.range(-11, 12);
        let elev = (r.uni(-10., 3000.) * 10.).round() / 10.;
        let mut s = format!("LOCATION,{},{},{},{},{},{},{},{},{}{eol}", texts[0], texts[1], texts[2], texts[3], texts[4],
            lat, lon, if r.bool() { format!("{tz}.0") } else { format!("{tz}") }, elev);
        if r.bool() {
            s += &format!("DESIGN CONDITIONS,1,Climate Design Data 2009 ASHRAE Handbook,,Heating,7,-1.1,0,-2.7{eol}");
        }
        let ng = r.below(4);
        let mut ground = vec![];
        if r.chance(0.8) {
            s += &format!("GROUND TEMPERATURES,{ng}");
            for _ in 0..ng {
                let depth = r.uni(0.1, 5.);
                let mut soil = vec![];
                for _ in 0..3 {
                    soil.push(if r.bool() { "none".to_string() } else { format!("{:?}", r.uni(0.5, 2000.)) });
                }
                let temps: Vec<f64> = (0..12).map(|_| r.uni(-5., 25.)).collect();
                s += &format!(",{depth:?}");
                for x in &soil {
                    s += ",";
                    if x != "none" {
                        s += x;
                    }
                }
                for t in &temps {
                    s += &format!(",{t:?}");
                }
                ground.push(json!({"depth": f(depth), "soil": soil, "t": fs(&temps)}));
            }
            s += eol;
        }
        s += &format!("HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0{eol}COMMENTS 1,\"WMO, data; 'as is', 12\"{eol}COMMENTS 2, -- none {eol}");
        s += &format!("DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31{eol}");
        let nrows = if it % 40 == 3 { 200 } else { 1 + r.below(6) };
        let mut rows = vec![];
        for k in 0..nrows {
            let year = 1980 + r.below(40);
            let (m, d) = {
                let x = rand_date(&mut r);
                (x.month, x.day)
            };
            let hour = 1 + r.below(24);
            // 29 numbers after the flags
            let mut nums: Vec<f64> = (0..29).map(|_| (r.uni(-10., 1000.) * 10.).round() / 10.).collect();
            nums[14] = *r.pick(&[0.0, 0.5, 90., 179.9, 180.0, 270., 359.9, 360.0, 999.]); // wind direction
            nums[2] = r.below(101) as f64;
            nums[17] = r.below(11) as f64;
            nums[25] = r.below(90) as f64; // days since last snowfall (integer field)
            s += &format!("{year},{m},{d},{hour},60,?9?9*0E8");
            for x in &nums {
                if *x == x.floor() && r.bool() {
                    s += &format!(",{}", *x as i64);
                } else {
                    s += &format!(",{x:?}");
                }
            }
            if k + 1 < nrows || r.bool() {
                s += eol;
            }
            rows.push(json!({"year": year, "m": m, "d": d, "hour": hour, "n": fs(&nums)}));
        }
        w.begin(format!("EPW {it}"));
        std::fs::write(&path, &s).unwrap();
        w.ev(json!({"op": "file", "text": texts, "lat": f(lat), "lon": f(lon), "tz": tz, "elev": f(elev), "ground": ground, "rows": rows}));
        let epw = match guard_res(|| EPWWeather::from_file(path.as_str())) {
            Ok(e) => e,
            Err((k, m)) => {
                w.ev(json!({"op": "parsed", "res": k, "msg": m}));
                continue;
            }
        };
        let l = &epw.location;
        let o = |x: &Option<f64>| x.map(f).unwrap_or(json!("none"));
        w.ev(json!({"op": "parsed", "res": "ok",
            "text": [l.city, l.state, l.country, l.source, l.wmo], "lat": f(l.latitude), "lon": f(l.longitude),
            "tz": l.timezone, "elev": f(l.elevation), "nrows": epw.data.len(),
            "ground": epw.ground_temperature.iter().map(|g| json!({"depth": f(g.depth),
                "soil": [o(&g.soil_conductivity), o(&g.soil_density), o(&g.soil_specific_heat)],
                "t": fs(&g.average_monthly_temperature)})).collect::<Vec<_>>()}));
        for (k, q) in epw.data.iter().enumerate() {
            let v = [
                q.dry_bulb_temperature, q.dew_point_temperature, q.relative_humidity, q.atmospheric_station_pressure,
                q.extraterrestrial_horizontal_radiation, q.extraterrestrial_direct_normal_radiation,
                q.horizontal_infrared_radiation_intensity, q.global_horizontal_radiation, q.direct_normal_radiation,
                q.diffuse_horizontal_radiation, q.global_horizontal_illuminance, q.direct_normal_illuminance,
                q.diffuse_horizontal_illuminance, q.zenith_luminance, q.wind_direction, q.wind_speed, q.total_sky_cover,
                q.opaque_sky_cover, q.visibility, q.ceiling_height, q.present_weather_observation, q.present_weather_codes,
                q.precipitable_water, q.aerosol_optical_depth, q.snow_depth, q.last_day_since_last_snowfall as f64,
                q.albedo, q.liquid_precipitation_depth, q.liquid_precipitation_quantity,
            ];
            w.ev(json!({"op": "row", "res": "ok", "k": k + 1, "year": q.year, "m": q.month, "d": q.day, "hour": f(q.hour), "n": fs(&v)}));
        }
        match guard(|| Weather::from(epw.clone())) {
            Ok(we) => {
                let l = &we.location;
                w.ev(json!({"op": "weather", "res": "ok", "n": we.data.len(), "same_location": *l == epw.location}));
                for (k, c) in we.data.iter().enumerate() {
                    w.ev(json!({"op": "line", "res": "ok", "k": k + 1, "out": wj(c)}));
                }
            }
            Err(e) => w.ev(json!({"op": "weather", "res": "panic", "msg": e})),
        }
        w.ev(json!({"op": "end"}));
    }
    // not an EPW file at all
    w.begin("missing file");
    let r = guard_res(|| EPWWeather::from_file("/nonexistent/x.epw"));
    w.ev(json!({"op": "missing", "res": if r.is_ok() {"ok"} else {"refused"}}));
    w.finish();
}
