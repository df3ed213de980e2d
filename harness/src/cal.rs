//! Recorder for the `calendar` crate (properties C01, C02)
use crate::common::*;
use calendar::{Date, Period};
use chrono::NaiveDate;

pub const DAYS: [u8; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

pub fn dj(d: &Date) -> Value {
    json!({"m": d.month, "d": d.day, "h": f(d.hour)})
}
pub fn date(month: u8, day: u8, hour: f64) -> Date {
    Date { month, day, hour }
}
pub fn rand_hour(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => 23.999999,
        2 => r.below(24) as f64,
        3 => r.below(24) as f64 + 0.5,
        4 => r.below(24) as f64 + 0.9999999,
        5 => (r.below(86400) as f64) / 3600.,
        _ => r.uni(0., 23.9999),
    }
}
pub fn rand_date(r: &mut Rng) -> Date {
    let m = 1 + r.below(12);
    let n = DAYS[m - 1] as usize;
    let d = match r.below(4) {
        0 => 1,
        1 => n,
        _ => 1 + r.below(n),
    };
    date(m as u8, d as u8, rand_hour(r))
}

/// apply an in-place operation and record it
fn step(w: &mut W, d: &mut Date, op: &str, n: Value, g: impl FnOnce(&mut Date)) -> bool {
    let mut x = *d;
    match guard(|| {
        g(&mut x);
        x
    }) {
        Ok(y) => {
            *d = y;
            w.ev(json!({"op": op, "n": n, "res": "ok", "to": dj(d)}));
            true
        }
        Err(e) => {
            w.ev(json!({"op": op, "n": n, "res": "panic", "msg": e}));
            false
        }
    }
}

fn set(w: &mut W, d: &Date) {
    w.ev(json!({"op": "set", "res": "ok", "to": dj(d)}));
}

#[allow(deprecated)]
fn observe(w: &mut W, d: &Date, r: &mut Rng) {
    match guard(|| d.day_of_year()) {
        Ok(v) => w.ev(json!({"op": "doy", "res": "ok", "v": f(v)})),
        Err(e) => w.ev(json!({"op": "doy", "res": "panic", "msg": e})),
    }
    let o = match r.below(5) {
        0 => *d,
        1 => date(d.month, d.day, rand_hour(r)),
        2 => date(d.month, 1 + r.below(DAYS[d.month as usize - 1] as usize) as u8, d.hour),
        _ => rand_date(r),
    };
    match guard(|| {
        json!({"op": "compare", "res": "ok", "other": dj(&o), "lt": *d < o, "gt": *d > o, "le": *d <= o, "ge": *d >= o,
            "eq": *d == o, "same_day": d.same_day(o), "earlier": d.is_earlier(o), "sub": f(*d - o)})
    }) {
        Ok(v) => w.ev(v),
        Err(e) => w.ev(json!({"op": "compare", "res": "panic", "msg": e})),
    }
    let x = match r.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => r.unit(),
    };
    match guard(|| d.interpolate(o, x)) {
        Ok(v) => w.ev(json!({"op": "interpolate", "res": "ok", "other": dj(&o), "x": f(x), "to": dj(&v)})),
        Err(e) => w.ev(json!({"op": "interpolate", "res": "panic", "other": dj(&o), "x": f(x), "msg": e})),
    }
    let year = *r.pick(&[2023i64, 2024, 2025, 1999, 2000]) as i32;
    match guard(|| d.into_naive_datetime(year)) {
        Ok(Ok(v)) => {
            use chrono::{Datelike, Timelike};
            w.ev(json!({"op": "to_chrono", "res": "ok", "year": year, "y": v.year(), "mo": v.month(), "da": v.day(),
                "hh": v.hour(), "mm": v.minute(), "ss": v.second()}));
        }
        Ok(Err(e)) => w.ev(json!({"op": "to_chrono", "res": "err", "msg": e})),
        Err(e) => w.ev(json!({"op": "to_chrono", "res": "panic", "msg": e})),
    }
}

pub fn calendar(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(11);
    // behaviours of the specification
    for s in a.read_scenarios() {
        w.begin(s.to_string());
        let mut d = date(1, 1, 0.);
        set(&mut w, &d);
        for op in s.as_array().unwrap() {
            let n = op[1].as_i64().unwrap();
            let ok = match op[0].as_str().unwrap() {
                "d" => step(&mut w, &mut d, "add_days", json!(n), |d| d.add_days(n as usize)),
                _ => match n % 3 {
                    0 => step(&mut w, &mut d, "add_hours", f(n as f64), |d| d.add_hours(n as f64)),
                    1 => step(&mut w, &mut d, "add_minutes", f(60. * n as f64), |d| d.add_minutes(60. * n as f64)),
                    _ => step(&mut w, &mut d, "add_seconds", f(3600. * n as f64), |d| d.add_seconds(3600. * n as f64)),
                },
            };
            if !ok {
                break;
            }
            w.ev(json!({"op": "at", "res": "ok", "clock": op[2]}));
        }
        observe(&mut w, &d, &mut r);
    }
    // every day of the year: ordinal both ways, and some jumps from it
    let mut n = 0;
    for m in 1..=12u8 {
        for day in 1..=DAYS[m as usize - 1] {
            w.begin(format!("day {m}/{day}"));
            let mut d = date(m, day, 0.);
            set(&mut w, &d);
            observe(&mut w, &d, &mut r);
            match guard(|| Date::from_day_of_year(n as f64)) {
                Ok(x) => w.ev(json!({"op": "from_doy", "n": f(n as f64), "res": "ok", "to": dj(&x)})),
                Err(e) => w.ev(json!({"op": "from_doy", "n": f(n as f64), "res": "panic", "msg": e})),
            }
            let k = if a.thorough { 365 } else { 24 };
            for q in 0..k {
                let j = if a.thorough { q } else { (q * 16 + r.below(16)) % 366 };
                let mut x = date(m, day, rand_hour(&mut r));
                set(&mut w, &x);
                step(&mut w, &mut x, "add_days", json!(j), |d| d.add_days(j));
            }
            set(&mut w, &d);
            let h = r.uni(0., 24. * 900.);
            step(&mut w, &mut d, "add_hours", f(h), |d| d.add_hours(h));
            n += 1;
        }
    }
    for n in [-1.0, -1e-9, 365.0, 365.5, 1e9] {
        w.begin(format!("from_day_of_year {n}"));
        let r = guard(|| Date::from_day_of_year(n));
        w.ev(json!({"op": "from_doy_bad", "n": f(n), "res": if r.is_ok() {"ok"} else {"panic"}}));
    }
    // random histories
    for _ in 0..a.n(300, 4000) {
        let mut d = rand_date(&mut r);
        w.begin(format!("{d:?}"));
        set(&mut w, &d);
        for _ in 0..12 {
            let x = match r.below(6) {
                0 => r.below(100) as f64,
                1 => 24. * r.below(800) as f64,
                2 => r.unit(),
                3 => 24. - d.hour,
                _ => r.uni(0., 9000.),
            };
            let days = r.below(800);
            let ok = match r.below(6) {
                0 => step(&mut w, &mut d, "add_days", json!(days), |d| d.add_days(days)),
                1 => step(&mut w, &mut d, "add_hours", f(x), |d| d.add_hours(x)),
                2 => step(&mut w, &mut d, "add_minutes", f(x * 60.), |d| d.add_minutes(x * 60.)),
                3 => step(&mut w, &mut d, "add_seconds", f(x * 3600.), |d| d.add_seconds(x * 3600.)),
                4 => {
                    let n = r.uni(0., 365.);
                    step(&mut w, &mut d, "from_doy", f(n), |d| *d = Date::from_day_of_year(n))
                }
                _ => {
                    let c = rand_date(&mut r);
                    let (hh, mm, ss) = (r.below(24) as u32, r.below(60) as u32, r.below(60) as u32);
                    let nd = NaiveDate::from_ymd_opt(2023, c.month as u32, c.day as u32)
                        .unwrap()
                        .and_hms_opt(hh, mm, ss)
                        .unwrap();
                    match guard(|| Date::from(nd)) {
                        Ok(x) => {
                            d = x;
                            w.ev(json!({"op": "from_chrono", "res": "ok", "mo": c.month, "da": c.day,
                                "hh": hh, "mm": mm, "ss": ss, "to": dj(&d)}));
                            true
                        }
                        Err(e) => {
                            w.ev(json!({"op": "from_chrono", "res": "panic", "msg": e}));
                            false
                        }
                    }
                }
            };
            if !ok {
                break;
            }
            observe(&mut w, &d, &mut r);
        }
    }
    w.finish();
}

pub fn period(a: &Args) {
    let mut w = W::new(a);
    let mut r = a.rng(12);
    // (start, end, dt); dt in seconds
    let mut cases: Vec<(Date, Date, f64)> = vec![];
    // behaviours of the specification: [start hour-of-year, span in hours, step in hours]
    for s in a.read_scenarios() {
        let g = |k: usize| s[k].as_i64().unwrap() as f64;
        let (s0, span, dt) = (g(0), g(1), g(2));
        let mk = |h: f64| {
            let h = h.rem_euclid(8760.);
            let (mut n, mut m) = ((h / 24.).floor() as i64, 0usize);
            while n >= DAYS[m] as i64 {
                n -= DAYS[m] as i64;
                m += 1;
            }
            date(m as u8 + 1, n as u8 + 1, h % 24.)
        };
        cases.push((mk(s0), mk(s0 + span), dt * 3600.));
    }
    for _ in 0..a.n(400, 6000) {
        let s = rand_date(&mut r);
        let mut dt = *r.pick(&[60., 300., 600., 900., 1200., 1800., 3600., 3601., 7200., 5000., 17000., 86399.]);
        let e = match r.below(6) {
            0 => s,
            1 => {
                let mut e = s;
                e.add_hours(dt / 3600. * r.below(60) as f64);
                e
            }
            2 => {
                let mut e = s;
                e.add_hours(r.uni(0., 100.));
                e
            }
            3 => date(12, 31, 23.9999),
            4 => date(1, 1, rand_hour(&mut r)),
            _ => rand_date(&mut r),
        };
        if r.chance(0.2) {
            dt = r.uni(1000., 2e6);
        }
        cases.push((s, e, dt));
    }
    for (s, e, mut dt) in cases {
        let span = {
            let x = e.day_of_year() - s.day_of_year();
            86400. * if s > e { x + 365. } else { x }
        };
        if span / dt > 3000. {
            dt = span / r.uni(100., 3000.);
        }
        w.begin(format!("Period {s:?} {e:?} {dt}"));
        let p = guard(|| Period::new(s, e, dt));
        w.ev(json!({"op": "new", "res": if p.is_ok() {"ok"} else {"panic"}, "start": dj(&s), "end": dj(&e), "dt": f(dt)}));
        let mut p = match p {
            Ok(p) => p,
            Err(_) => continue,
        };
        // does it contain these dates?
        for _ in 0..6 {
            let x = match r.below(5) {
                0 => s,
                1 => e,
                2 => {
                    let mut x = s;
                    x.add_seconds(span * r.unit());
                    x
                }
                _ => rand_date(&mut r),
            };
            match guard(|| p.contains(x)) {
                Ok(v) => w.ev(json!({"op": "contains", "res": "ok", "x": dj(&x), "v": v})),
                Err(m) => w.ev(json!({"op": "contains", "res": "panic", "x": dj(&x), "msg": m})),
            }
        }
        let cap = (span / dt) as usize + 3;
        let mut stops = 0;
        for _ in 0..cap + 4 {
            match guard(|| p.next()) {
                Ok(Some(d)) => w.ev(json!({"op": "next", "res": "ok", "v": dj(&d)})),
                Ok(None) => {
                    w.ev(json!({"op": "stop", "res": "ok"}));
                    stops += 1;
                    if stops == 3 {
                        break;
                    }
                }
                Err(m) => {
                    w.ev(json!({"op": "next", "res": "panic", "msg": m}));
                    break;
                }
            }
        }
        w.ev(json!({"op": "end", "res": "ok"}));
    }
    for h in [24.0, 25.0] {
        for first in [true, false] {
            let (s, e) = if first { (date(3, 1, h), date(3, 2, 1.)) } else { (date(3, 1, 1.), date(3, 2, h)) };
            w.begin(format!("bad {s:?} {e:?}"));
            let p = guard(|| Period::new(s, e, 3600.));
            w.ev(json!({"op": "new_bad", "res": if p.is_ok() {"ok"} else {"panic"}}));
        }
    }
    w.finish();
}
