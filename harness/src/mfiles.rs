//! Recorder for matrices on file (C28)
use crate::common::*;
use matrix::Matrix;
use rendering::colour_matrix::*;
use rendering::Spectrum;
use std::path::Path;

fn value(r: &mut Rng, fill: &str) -> f64 {
    match fill {
        "small" => 10f64.powf(r.uni(-6., -2.)),
        "whole" => r.range(-100, 100) as f64,
        "tiny" => 10f64.powf(r.uni(-30., -5.)),
        "signed" => r.uni(-1000., 1000.),
        "zero" => 0.,
        _ => 10f64.powf(r.uni(-3., 6.)),
    }
}
fn plain(m: &Matrix) -> Vec<f64> {
    let (r, c) = m.size();
    (0..r).flat_map(|y| (0..c).map(move |x| (y, x))).map(|(y, x)| m.get(y, x).unwrap()).collect()
}
fn coloured(m: &ColourMatrix) -> Vec<f64> {
    let (r, c) = m.size();
    (0..r).flat_map(|y| (0..c).map(move |x| (y, x))).flat_map(|(y, x)| m.get(y, x).unwrap().0).collect()
}
/// what is written in a file, as another program would read it
fn parse(t: &str) -> (bool, Value) {
    let mut lines = t.lines();
    let mut h = json!({"rows": "none", "cols": "none", "comp": "none"});
    let mut magic = false;
    for (k, l) in lines.by_ref().enumerate() {
        if k == 0 {
            magic = l.starts_with("#?");
        }
        if l.is_empty() {
            break;
        }
        for (p, n) in [("NROWS=", "rows"), ("NCOLS=", "cols"), ("NCOMP=", "comp")] {
            if let Some(v) = l.strip_prefix(p) {
                h[n] = if v.parse::<usize>().is_ok() { json!(v) } else { json!("bad") };
            }
        }
    }
    h["body"] = lines.map(|l| Value::Array(l.split_whitespace().map(|x| x.parse::<f64>().map_or(json!("bad"), f)).collect())).collect();
    (magic, h)
}
fn read(w: &mut W, path: &Path, comp: u64, op: &str) {
    let r = if comp == 1 { guard_res(|| read_matrix(path).map(|m| (m.size(), plain(&m)))) } else { guard_res(|| read_colour_matrix(path).map(|m| (m.size(), coloured(&m)))) };
    match r {
        Ok((s, v)) => w.ev(json!({"op": op, "comp": comp, "res": "ok", "rows": s.0, "cols": s.1, "vals": fs(&v)})),
        Err((e, _)) => w.ev(json!({"op": op, "comp": comp, "res": e, "rows": 0, "cols": 0, "vals": []})),
    }
}
fn scenario(w: &mut W, r: &mut Rng, a: &Args, sc: &Value) {
    w.begin(format!("C28 {sc}"));
    let (comp, rows, cols) = (sc["comp"].as_u64().unwrap(), sc["rows"].as_u64().unwrap() as usize, sc["cols"].as_u64().unwrap() as usize);
    let fill = sc["fill"].as_str().unwrap();
    let path = a.work.join("matrix.mtx");
    let _ = std::fs::remove_file(&path);
    read(w, &path, comp, "absent");
    let v: Vec<f64> = (0..rows * cols * comp as usize).map(|_| value(r, fill)).collect();
    let at = |y: usize, x: usize, k: usize| v[(y * cols + x) * comp as usize + k];
    std::fs::write(&path, "0 ".repeat(5000)).unwrap();
    let res = if comp == 1 {
        let mut m = Matrix::new(0., rows, cols);
        (0..rows).for_each(|y| (0..cols).for_each(|x| { m.set(y, x, at(y, x, 0)).unwrap(); }));
        if sc["conv"] == 1 {
            match guard(|| average_matrix(&m)) {
                Ok(o) => w.ev(json!({"op": "mean", "res": "ok", "rows": rows, "cols": cols, "vals": fs(&v), "size": [o.size().0, o.size().1], "out": fs(&plain(&o))})),
                Err(_) => w.ev(json!({"op": "mean", "res": "panic", "rows": rows, "cols": cols, "vals": fs(&v), "size": [0, 0], "out": []})),
            }
        }
        guard_res(|| save_matrix(&m, &path))
    } else {
        let mut m = ColourMatrix::new(Spectrum::BLACK, rows, cols);
        (0..rows).for_each(|y| (0..cols).for_each(|x| { m.set(y, x, Spectrum([at(y, x, 0), at(y, x, 1), at(y, x, 2)])).unwrap(); }));
        if sc["conv"] == 1 {
            match guard(|| (colour_matrix_to_radiance(&m), colour_matrix_to_luminance(&m))) {
                Ok((p, q)) => w.ev(json!({"op": "conv", "res": "ok", "rows": rows, "cols": cols, "vals": fs(&v), "rr": [p.size().0, p.size().1], "lr": [q.size().0, q.size().1], "rad": fs(&plain(&p)), "lum": fs(&plain(&q))})),
                Err(_) => w.ev(json!({"op": "conv", "res": "panic", "rows": rows, "cols": cols, "vals": fs(&v), "rr": [0, 0], "lr": [0, 0], "rad": [], "lum": []})),
            }
        }
        guard_res(|| save_colour_matrix(&m, &path))
    };
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let (magic, file) = parse(&text);
    w.ev(json!({"op": "save", "res": if let Err((e, _)) = &res { *e } else { "ok" }, "magic": magic, "comp": comp, "rows": rows, "cols": cols, "vals": fs(&v), "file": file}));
    read(w, &path, comp, "read");
    for d in sc["damage"].as_array().unwrap() {
        let d = d.as_str().unwrap();
        if d == "asother" {
            std::fs::write(&path, &text).unwrap();
            w.ev(json!({"op": "put", "file": parse(&text).1}));
            read(w, &path, 4 - comp, "read");
            continue;
        }
        let (h, b) = text.split_once("\n\n").unwrap_or((&text, ""));
        let mut head: Vec<String> = h.lines().map(|l| l.to_string()).collect();
        let mut body: Vec<Vec<String>> = b.lines().map(|l| l.split_whitespace().map(|s| s.to_string()).collect()).collect();
        let mut sep = "\t";
        let put = |head: &mut Vec<String>, k: &str, v: &str| {
            for l in head.iter_mut() {
                if l.starts_with(k) {
                    *l = format!("{k}={v}")
                }
            }
        };
        let rr = r.below(body.len().max(1));
        match d {
            "rowless" => {
                body.remove(rr);
            }
            "rowmore" => body.push(body[rr].clone()),
            "tokenless" => {
                body[rr].pop();
            }
            "tokenmore" => {
                let t = body[rr][0].clone();
                body[rr].push(t)
            }
            "bad" => {
                let k = r.below(body[rr].len());
                body[rr][k] = r.pick(&["x", "1.2.3", "--1", "1,5", "0x12"]).to_string()
            }
            "norows" => head.retain(|l| !l.starts_with("NROWS")),
            "nocols" => head.retain(|l| !l.starts_with("NCOLS")),
            "nocomp" => head.retain(|l| !l.starts_with("NCOMP")),
            "badrows" => put(&mut head, "NROWS", r.pick(&["x", "-1", "2.5", ""])),
            "badcols" => put(&mut head, "NCOLS", r.pick(&["x", "-1", "2.5", ""])),
            "manyrows" => put(&mut head, "NROWS", &format!("{}", rows + 1 + r.below(3))),
            "fewrows" => put(&mut head, "NROWS", &format!("{}", rows - 1)),
            "cols" => put(&mut head, "NCOLS", &format!("{}", cols + 1 - 2 * r.below(2))),
            "comp" => put(&mut head, "NCOMP", &format!("{}", 4 - comp)),
            "extra" => head.insert(1 + r.below(head.len()), "VIEW= something else NROWS".to_string()),
            "space" => sep = *r.pick(&[" ", "  ", " \t "]),
            "order" => head[1..].reverse(),
            _ => {
                std::fs::write(&path, "").unwrap();
                w.ev(json!({"op": "put", "file": parse("").1}));
                read(w, &path, comp, "read");
                continue;
            }
        }
        let lines: Vec<String> = body.iter().map(|l| l.join(sep) + "\n").collect();
        let t = format!("{}\n\n{}", head.join("\n"), lines.concat());
        std::fs::write(&path, &t).unwrap();
        w.ev(json!({"op": "put", "file": parse(&t).1}));
        read(w, &path, comp, "read");
    }
}
pub fn mfiles(a: &Args) {
    let mut w = W::new(a);
    for (i, sc) in a.read_scenarios().iter().enumerate() {
        let mut r = a.rng(28000 + i as u64);
        scenario(&mut w, &mut r, a, sc);
    }
    w.finish()
}
