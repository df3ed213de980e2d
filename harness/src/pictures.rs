//! Recorder for images on file and in false colours (C27)
use crate::common::*;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::Spectrum;
use std::path::Path;

fn colour(r: &mut Rng, fill: &str, k: usize, n: usize) -> Spectrum {
    let any = |r: &mut Rng| 10f64.powf(r.uni(-6., 6.));
    let v = any(r);
    Spectrum(match fill {
        "grey" => [v; 3],
        "edge" => {
            let p = 2f64.powi(r.range(-20, 20) as i32);
            let e = [p, p * (1. - f64::EPSILON / 2.), p * (1. + f64::EPSILON), p * 255. / 256., p * 0.75];
            [*r.pick(&e), *r.pick(&e), *r.pick(&e)]
        }
        "dark" => {
            let e = [0., 0., 1e-30, 1e-18, 3e-10];
            [*r.pick(&e), *r.pick(&e), *r.pick(&e)]
        }
        "huge" => [10f64.powf(r.uni(10., 30.)), 10f64.powf(r.uni(10., 30.)), 10f64.powf(r.uni(10., 30.))],
        "one" => {
            let mut c = [0.; 3];
            c[r.below(3)] = v;
            c
        }
        "flat" => [0.25, 0.5, 4.],
        "steps" => [(k as f64 + 0.5) / n as f64; 3],
        "dim" => {
            let d = 10f64.powf(r.uni(-4.5, -2.4));
            [d * r.unit(), d * r.unit(), d * r.unit()]
        }
        _ => {
            let s = any(r);
            [s * r.unit(), s * r.unit(), s * r.unit()]
        }
    })
}
fn image(r: &mut Rng, w: usize, h: usize, fill: &str) -> Vec<Spectrum> {
    (0..w * h).map(|k| colour(r, fill, k, w * h)).collect()
}
fn px(v: &[Spectrum]) -> Value {
    Value::Array(v.iter().map(|c| fs(&c.0)).collect())
}
/// pixels asked one by one, by column and row
fn seen(im: &ImageBuffer) -> Value {
    let mut o = vec![];
    if im.pixels.len() == im.width * im.height {
        for y in 0..im.height {
            for x in 0..im.width {
                o.push(im[(x, y)]);
            }
        }
    }
    px(&o)
}
/// lines of the header, up to the one of the size, and what comes after it
fn split(b: &[u8]) -> (Vec<String>, Vec<u8>) {
    let mut lines = vec![];
    let mut at = 0;
    while let Some(k) = b[at..].iter().position(|c| *c == b'\n') {
        let l = String::from_utf8_lossy(&b[at..at + k]).to_string();
        at += k + 1;
        let last = l.contains("-Y") || lines.len() > 40;
        lines.push(l);
        if last {
            break;
        }
    }
    (lines, b[at..].to_vec())
}
fn quads(b: &[u8]) -> Value {
    Value::Array(b.chunks_exact(4).map(|q| json!([q[0], q[1], q[2], q[3]])).collect())
}
fn size_of(lines: &[String]) -> (i64, i64) {
    let l: Vec<&str> = lines.last().map(|s| s.split_whitespace().collect()).unwrap_or_default();
    if l.len() == 4 && l[0] == "-Y" && l[2] == "+X" {
        (l[3].parse().unwrap_or(-1), l[1].parse().unwrap_or(-1))
    } else {
        (-1, -1)
    }
}
fn map(n: &str) -> Colourmap {
    match n {
        "Radiance" => Colourmap::Radiance,
        "Inferno" => Colourmap::Inferno,
        "Magma" => Colourmap::Magma,
        "Plasma" => Colourmap::Plasma,
        _ => Colourmap::Viridis,
    }
}
fn table(w: &mut W, name: &str) {
    let m = map(name);
    let t = guard(|| (0..256).map(|k| m.map_linear(k as f64, 0., 255.)).collect::<Vec<_>>());
    match t {
        Ok(t) => w.ev(json!({"op": "table", "res": "ok", "name": name, "t": t.iter().map(|c| fs(c)).collect::<Vec<_>>()})),
        Err(_) => w.ev(json!({"op": "table", "res": "panic", "name": name, "t": []})),
    }
}

fn store(w: &mut W, r: &mut Rng, a: &Args, sc: &Value) {
    w.begin(format!("C27 {sc}"));
    let mut im: Vec<Option<ImageBuffer>> = vec![None, None, None];
    let file = |f: usize| a.work.join(format!("im{f}.hdr"));
    let mut there = [false, false];
    for o in sc["ops"].as_array().unwrap() {
        let (x, y, f) = (o["a"].as_u64().unwrap() as usize, o["b"].as_u64().unwrap() as usize, o["f"].as_u64().unwrap() as usize);
        let op = o["op"].as_str().unwrap();
        match op {
            "new" => {
                let (mut iw, mut ih) = (o["w"].as_u64().unwrap() as usize, o["h"].as_u64().unwrap() as usize);
                // often the size of another one
                if let (Some(other), true) = (&im[y], r.chance(0.5)) {
                    iw = other.width;
                    ih = other.height;
                }
                if o["swap"] == 1 {
                    std::mem::swap(&mut iw, &mut ih);
                }
                let p = image(r, iw, ih, o["fill"].as_str().unwrap());
                let by_pixel = r.bool();
                let made = guard(|| {
                    if by_pixel {
                        let mut n = ImageBuffer::new(iw, ih);
                        for yy in 0..ih {
                            for xx in 0..iw {
                                n[(xx, yy)] = p[yy * iw + xx];
                            }
                        }
                        n
                    } else {
                        ImageBuffer::from_pixels(iw, ih, p.clone())
                    }
                });
                match made {
                    Ok(n) => {
                        w.ev(json!({"op": "new", "a": x, "res": "ok", "w": iw, "h": ih, "px": px(&p), "ow": n.width, "oh": n.height, "out": px(&n.pixels), "seen": seen(&n)}));
                        im[x] = Some(n);
                    }
                    Err(_) => w.ev(json!({"op": "new", "a": x, "res": "panic", "w": iw, "h": ih, "px": px(&p), "ow": 0, "oh": 0, "out": [], "seen": []})),
                }
            }
            "paint" => {
                if let Some(n) = &mut im[x] {
                    let (cx, cy) = (r.below(n.width), r.below(n.height));
                    let c = colour(r, o["fill"].as_str().unwrap(), 0, 1);
                    n[(cx, cy)] = c;
                    w.ev(json!({"op": "paint", "a": x, "x": cx, "y": cy, "c": fs(&c.0), "out": px(&n.pixels), "seen": seen(n)}));
                }
            }
            "save" => {
                if let Some(n) = &im[x] {
                    let _ = std::fs::write(file(f), b"something which was there before, and which is longer than most of what is written here\n-Y 1 +X 1\nabcd");
                    let res = guard_res(|| n.save_hdre(&file(f)));
                    let b = std::fs::read(file(f)).unwrap_or_default();
                    let (lines, rest) = split(&b);
                    let (fw, fh) = size_of(&lines);
                    there[f] = res.is_ok();
                    w.ev(json!({"op": "save", "a": x, "f": f, "res": if let Err((e, _)) = &res { *e } else { "ok" }, "magic": lines.first().is_some_and(|l| l.starts_with("#?")),
                        "format": lines.iter().any(|l| l == "FORMAT=32-bit_rle_rgbe"), "blank": lines.len() > 1 && lines[lines.len() - 2].is_empty(), "fw": fw, "fh": fh, "bytes": quads(&rest), "left": rest.len() % 4}));
                }
            }
            "cut" => {
                if there[f] {
                    let b = std::fs::read(file(f)).unwrap();
                    let k = (1 + r.below(9)).min(split(&b).1.len());
                    std::fs::write(file(f), &b[..b.len() - k]).unwrap();
                    w.ev(json!({"op": "cut", "f": f, "k": k}));
                }
            }
            "load" => {
                if there[f] {
                    load(w, &file(f), f, Some((x, &mut im)));
                }
            }
            "diff" => {
                if let (Some(p), Some(q)) = (&im[x], &im[y]) {
                    match guard_res(|| p.diff(q)) {
                        Ok(d) => w.ev(json!({"op": "diff", "a": x, "b": y, "res": "ok", "w": d.width, "h": d.height, "px": px(&d.pixels)})),
                        Err((e, _)) => w.ev(json!({"op": "diff", "a": x, "b": y, "res": e, "w": 0, "h": 0, "px": []})),
                    }
                }
            }
            _ => unreachable!(),
        }
    }
}
fn load(w: &mut W, file: &Path, f: usize, into: Option<(usize, &mut Vec<Option<ImageBuffer>>)>) {
    let slot = into.as_ref().map_or(0, |x| x.0);
    match guard_res(|| ImageBuffer::from_file(file)) {
        Ok(n) => {
            w.ev(json!({"op": "load", "a": slot, "f": f, "res": "ok", "w": n.width, "h": n.height, "px": px(&n.pixels), "seen": seen(&n)}));
            if let Some((k, im)) = into {
                im[k] = Some(n);
            }
        }
        Err((e, _)) => w.ev(json!({"op": "load", "a": slot, "f": f, "res": e, "w": 0, "h": 0, "px": [], "seen": []})),
    }
}
fn raw(w: &mut W, r: &mut Rng, a: &Args, sc: &Value) {
    w.begin(format!("C27 {sc}"));
    let (iw, ih) = (sc["w"].as_u64().unwrap() as usize, sc["h"].as_u64().unwrap() as usize);
    let head = sc["head"].as_str().unwrap();
    let mut t = String::from(if r.bool() { "#?RADIANCE\n" } else { "#?RGBE\n" });
    match head {
        "extra" => t += "pcomb -e made\nSOFTWARE=some\nFORMAT=32-bit_rle_rgbe\n# a comment -Y 3 +X 4\nVIEW=-vtv -vp 0 0 0\n",
        "nofmt" => {}
        "badfmt" => t += "FORMAT=32-bit_rle_xyze\n",
        _ => t += "FORMAT=32-bit_rle_rgbe\n",
    }
    t += "\n";
    t += &match head {
        "nosize" => String::new(),
        "badnum" => format!("-Y {ih}x +X {iw}\n"),
        "swapped" => format!("+X {iw} -Y {ih}\n"),
        "flipped" => format!("+Y {ih} +X {iw}\n"),
        "mirrored" => format!("-Y {ih} -X {iw}\n"),
        "short" => format!("-Y {ih} +X\n"),
        _ => format!("-Y {ih} +X {iw}\n"),
    };
    // no line of the body looks like a size
    let mut body: Vec<u8> = (0..4 * iw * ih).map(|_| if r.chance(0.1) { *r.pick(&[0u8, 10, 255, 128]) } else { r.below(256) as u8 }).collect();
    for k in 0..body.len() {
        if body[k] == b'-' {
            body[k] = b'_';
        }
        if k % 4 == 3 && r.chance(0.8) {
            body[k] = 110 + r.below(30) as u8;
        }
    }
    match sc["body"].as_str().unwrap() {
        "cut" => body.truncate(body.len() - 1 - r.below(3)),
        "pixel" => body.truncate(body.len() - 4),
        "more" => body.extend((0..1 + r.below(9)).map(|k| k as u8)),
        "none" => body.clear(),
        _ => {}
    }
    let file = a.work.join("raw.hdr");
    std::fs::write(&file, [t.as_bytes(), &body[..]].concat()).unwrap();
    w.ev(json!({"op": "raw", "f": 0, "head": head, "w": iw, "h": ih, "bytes": quads(&body), "left": body.len() % 4}));
    load(w, &file, 0, None);
}
fn false_colours(w: &mut W, r: &mut Rng, a: &Args, sc: &Value) {
    w.begin(format!("C27 {sc}"));
    let name = sc["map"].as_str().unwrap();
    table(w, name);
    let (iw, ih) = (sc["w"].as_u64().unwrap() as usize, sc["h"].as_u64().unwrap() as usize);
    let fill = sc["fill"].as_str().unwrap();
    let p: Vec<Spectrum> = if fill == "any" {
        (0..iw * ih).map(|_| { let s = 10f64.powf(r.uni(-3., 2.)); Spectrum([s * r.unit(), s * r.unit(), s * r.unit()]) }).collect()
    } else {
        image(r, iw, ih, fill)
    };
    let log = sc["log"] == 1;
    let top = p.iter().map(|c| c.luminance()).fold(0., f64::max);
    let max = match sc["max"].as_str().unwrap() {
        "top" => Some(top),
        "mid" => Some(top * r.uni(0.3, 0.9)),
        "over" => Some(top * r.uni(1.1, 30.)),
        _ => None,
    };
    let end = max.unwrap_or(top);
    let min = match sc["min"].as_str().unwrap() {
        "low" => Some(end * r.uni(0.001, 0.1)),
        "mid" => Some(end * r.uni(0.2, 0.7)),
        "under" => Some(-1.),
        _ => None,
    };
    // the scale goes up
    let floor = if log { 0.001 } else { 0. };
    let (lo, hi) = (min.unwrap_or(floor).max(floor), end);
    if !(hi > lo * 1.01) {
        return;
    }
    let file = a.work.join("false.jpg");
    let _ = std::fs::remove_file(&file);
    let im = ImageBuffer::from_pixels(iw, ih, p.clone());
    let res = guard_res(|| if log { im.save_log_falsecolour(min, max, map(name), &file) } else { im.save_falsecolour(min, max, map(name), &file) });
    let (jw, jh, rgb) = std::fs::read(&file).ok().and_then(|b| decode(&b)).unwrap_or((0, 0, vec![]));
    let opt = |x: Option<f64>| x.map_or(json!("none"), f);
    w.ev(json!({"op": "false", "res": if let Err((e, _)) = &res { *e } else { "ok" }, "log": log, "min": opt(min), "max": opt(max), "w": iw, "h": ih, "px": px(&p), "jw": jw, "jh": jh, "rgb": rgb}));
}
fn maps(w: &mut W, r: &mut Rng, sc: &Value) {
    w.begin(format!("C27 {sc}"));
    let name = sc["map"].as_str().unwrap();
    table(w, name);
    let m = map(name);
    for _ in 0..60 {
        let (u, v) = (r.uni(-5., 5.), r.uni(-2000., 0.));
        let lo = *r.pick(&[0., 0., u, v]);
        let top = lo + 10f64.powf(r.uni(-3., 4.));
        let hi = r.pick(&[top, lo.abs() * 1e-6 + 1e-3]).max(lo + 1e-3);
        let x = match r.below(9) {
            0 => lo,
            1 => hi,
            2 => lo - r.uni(0., 10.),
            3 => hi + r.uni(0., 10.),
            4 => hi.next_down(),
            5 => lo + (lo.abs() * f64::EPSILON),
            6 => lo + (hi - lo) * r.below(256) as f64 / 255.,
            _ => r.uni(lo, hi),
        };
        let c = guard(|| m.map_linear(x, lo, hi));
        let (res, c) = c.map_or(("panic", [0.; 3]), |c| ("ok", c));
        w.ev(json!({"op": "map", "res": res, "x": f(x), "lo": f(lo), "hi": f(hi), "c": fs(&c)}));
    }
}

pub fn pictures(a: &Args) {
    let mut w = W::new(a);
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(27000 + i as u64);
        match sc["mode"].as_str().unwrap() {
            "store" => store(&mut w, &mut r, a, sc),
            "raw" => raw(&mut w, &mut r, a, sc),
            "false" => false_colours(&mut w, &mut r, a, sc),
            _ => maps(&mut w, &mut r, sc),
        }
    }
    w.finish()
}

/* ---- a reader of baseline JPEG ---- */
struct Bits<'a> {
    b: &'a [u8],
    at: usize,
    acc: u32,
    n: u32,
}
impl Bits<'_> {
    fn bit(&mut self) -> Option<u32> {
        if self.n == 0 {
            let c = *self.b.get(self.at)?;
            self.at += 1;
            if c == 0xFF {
                if *self.b.get(self.at)? != 0 {
                    return None;
                }
                self.at += 1;
            }
            self.acc = c as u32;
            self.n = 8;
        }
        self.n -= 1;
        Some(self.acc >> self.n & 1)
    }
    fn get(&mut self, n: u32) -> Option<i32> {
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | self.bit()? as i32;
        }
        Some(v)
    }
    fn signed(&mut self, n: u32) -> Option<i32> {
        if n == 0 {
            return Some(0);
        }
        let v = self.get(n)?;
        Some(if v < 1 << (n - 1) { v - (1 << n) + 1 } else { v })
    }
    fn code(&mut self, t: &[(u32, u32, u8)]) -> Option<u8> {
        let mut c = 0;
        for l in 1..=16 {
            c = c << 1 | self.bit()?;
            if let Some(x) = t.iter().find(|x| x.0 == l && x.1 == c) {
                return Some(x.2);
            }
        }
        None
    }
}
const ZIGZAG: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
fn decode(b: &[u8]) -> Option<(usize, usize, Vec<[u8; 3]>)> {
    if b.get(0..2)? != [0xFF, 0xD8] {
        return None;
    }
    let mut at = 2;
    let mut q = vec![vec![1i32; 64]; 4];
    let mut huff: Vec<Vec<(u32, u32, u8)>> = vec![vec![]; 8];
    let (mut w, mut h) = (0, 0);
    let mut comps: Vec<(u8, usize, usize, usize)> = vec![]; // id, h, v, q
    loop {
        if *b.get(at)? != 0xFF {
            return None;
        }
        let m = *b.get(at + 1)?;
        let len = (*b.get(at + 2)? as usize) << 8 | *b.get(at + 3)? as usize;
        let d = b.get(at + 4..at + 2 + len)?;
        at += 2 + len;
        match m {
            0xDB => {
                let mut k = 0;
                while k < d.len() {
                    let (wide, t) = (d[k] >> 4 != 0, (d[k] & 15) as usize);
                    k += 1;
                    for z in ZIGZAG {
                        q[t][z] = if wide { (d[k] as i32) << 8 | d[k + 1] as i32 } else { d[k] as i32 };
                        k += if wide { 2 } else { 1 };
                    }
                }
            }
            0xC0 => {
                h = (d[1] as usize) << 8 | d[2] as usize;
                w = (d[3] as usize) << 8 | d[4] as usize;
                comps = (0..d[5] as usize).map(|c| (d[6 + 3 * c], (d[7 + 3 * c] >> 4) as usize, (d[7 + 3 * c] & 15) as usize, d[8 + 3 * c] as usize)).collect();
            }
            0xC4 => {
                let mut k = 0;
                while k < d.len() {
                    let t = (d[k] >> 4) as usize * 4 + (d[k] & 15) as usize;
                    let counts = &d[k + 1..k + 17];
                    k += 17;
                    let mut code = 0;
                    huff[t].clear();
                    for (l, n) in counts.iter().enumerate() {
                        for _ in 0..*n {
                            huff[t].push((l as u32 + 1, code, d[k]));
                            k += 1;
                            code += 1;
                        }
                        code <<= 1;
                    }
                }
            }
            0xDA => {
                if comps.len() != 3 || d[0] != 3 || w == 0 || h == 0 {
                    return None;
                }
                let tabs: Vec<(usize, usize)> = (0..3).map(|c| ((d[2 + 2 * c] >> 4) as usize, (d[2 + 2 * c] & 15) as usize)).collect();
                let (mh, mv) = (comps.iter().map(|c| c.1).max()?, comps.iter().map(|c| c.2).max()?);
                let (nx, ny) = (w.div_ceil(8 * mh), h.div_ceil(8 * mv));
                let mut planes: Vec<Vec<f64>> = comps.iter().map(|c| vec![0.; nx * c.1 * 8 * ny * c.2 * 8]).collect();
                let mut s = Bits { b, at, acc: 0, n: 0 };
                let mut dc = [0i32; 3];
                for my in 0..ny {
                    for mx in 0..nx {
                        for c in 0..3 {
                            for by in 0..comps[c].2 {
                                for bx in 0..comps[c].1 {
                                    let mut co = [0f64; 64];
                                    let n = s.code(&huff[tabs[c].0])? as u32;
                                    dc[c] += s.signed(n)?;
                                    co[0] = (dc[c] * q[comps[c].3][0]) as f64;
                                    let mut k = 1;
                                    while k < 64 {
                                        let rs = s.code(&huff[4 + tabs[c].1])?;
                                        let (run, n) = ((rs >> 4) as usize, (rs & 15) as u32);
                                        if n == 0 {
                                            if run != 15 {
                                                break;
                                            }
                                            k += 16;
                                            continue;
                                        }
                                        k += run;
                                        if k > 63 {
                                            return None;
                                        }
                                        co[ZIGZAG[k]] = (s.signed(n)? * q[comps[c].3][ZIGZAG[k]]) as f64;
                                        k += 1;
                                    }
                                    let width = nx * comps[c].1 * 8;
                                    for y in 0..8 {
                                        for x in 0..8 {
                                            let mut v = 0.;
                                            for (k, a) in co.iter().enumerate() {
                                                if *a != 0. {
                                                    let (u, t) = (k % 8, k / 8);
                                                    let n = |j: usize| if j == 0 { std::f64::consts::FRAC_1_SQRT_2 } else { 1. };
                                                    let cs = |p: usize, j: usize| ((2 * p + 1) as f64 * j as f64 * std::f64::consts::PI / 16.).cos();
                                                    v += a * n(u) * n(t) / 4. * cs(x, u) * cs(y, t);
                                                }
                                            }
                                            planes[c][((my * comps[c].2 + by) * 8 + y) * width + (mx * comps[c].1 + bx) * 8 + x] = v + 128.;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                let mut out = vec![];
                for y in 0..h {
                    for x in 0..w {
                        let g = |c: usize| planes[c][(y * comps[c].2 / mv) * nx * comps[c].1 * 8 + x * comps[c].1 / mh];
                        let (l, cb, cr) = (g(0), g(1) - 128., g(2) - 128.);
                        let u = |v: f64| v.round().clamp(0., 255.) as u8;
                        out.push([u(l + 1.402 * cr), u(l - 0.344136 * cb - 0.714136 * cr), u(l + 1.772 * cb)]);
                    }
                }
                return Some((w, h, out));
            }
            _ => {}
        }
    }
}
