//! Mesh files: documents of the specification read by the library, and meshes written and read back.
//! Everything is written to the current directory, which the check creates and removes.
use crate::mesh::*;
use crate::sc::*;
use crate::util::*;
use cgar::io::{obj::*, off::*, stl::*};
use serde_json::{Value, json};

fn token(t: &Value, style: usize) -> String {
    let v = t["v"].as_i64().unwrap();
    match t["w"].as_str().unwrap() {
        "int" => format!("{v}"),
        "dec" => match style % 3 {
            0 => format!("{:.2}", v as f64 / 4.0),
            1 => format!("{:.4}", v as f64 / 4.0),
            _ => format!("{:?}", v as f64 / 4.0),
        },
        "exp" => match style % 3 {
            0 => format!("{v}e0"),
            1 => format!("{v}.0E+00"),
            _ => format!("{v}0e-1"),
        },
        "slash" => match style % 3 {
            0 => format!("{v}/1/1"),
            1 => format!("{v}//1"),
            _ => format!("{v}/2"),
        },
        "big" => "123456789012345678901234567890".into(),
        "nan" => "nan".into(),
        "inf" => if style % 2 == 0 { "inf".into() } else { "-inf".into() },
        "over" => "1e999".into(),
        _ => ["x", "1.2.3", "--1", "0x10", "1,5"][style % 5].into(),
    }
}
/// Blanks, line ends and comments do not matter.
fn text(fmt: &str, doc: &Value, style: usize) -> String {
    let lines = doc.as_array().unwrap();
    let (sep, eol) = match style % 4 {
        0 => (" ", "\n"),
        1 => ("\t ", "\n"),
        2 => ("  ", " \r\n"),
        _ => (" ", "\n"),
    };
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        let mut w: Vec<String> = vec![];
        let k = l["k"].as_str().unwrap();
        if !k.is_empty() {
            w.push(k.into());
        }
        w.extend(l["a"].as_array().unwrap().iter().enumerate().map(|(j, t)| token(t, style / 4 + i + j)));
        if style % 4 == 1 && i % 2 == 0 {
            s.push_str("  ");
        }
        s.push_str(&w.join(sep));
        if fmt == "off" && style % 4 == 3 {
            s.push_str(" # note");
        }
        if i + 1 < lines.len() || style % 8 < 6 {
            s.push_str(eol);
        }
    }
    s
}

type Soup = (Vec<[f64; 3]>, Vec<[usize; 3]>, Vec<[f64; 3]>);
/// What a strict reader of the format finds: positions, triangles counted from one, facet normals.
fn strict(fmt: &str, s: &str) -> Option<Soup> {
    fn nums<X: std::str::FromStr>(w: &[&str]) -> Option<[X; 3]> {
        let v: Option<Vec<X>> = w.iter().map(|x| x.parse().ok()).collect();
        v?.try_into().ok()
    }
    let (mut p, mut f, mut n) = (vec![], vec![], vec![]);
    let rows: Vec<Vec<&str>> = s.lines().map(|l| l.split_whitespace().collect::<Vec<_>>()).filter(|l| !l.is_empty() && !l[0].starts_with('#')).collect();
    match fmt {
        "obj" => {
            for r in &rows {
                match r[0] {
                    "v" => p.push(nums(&r[1..])?),
                    "f" => f.push(nums(&r[1..])?),
                    _ => {}
                }
            }
        }
        "off" => {
            let mut w: Vec<&str> = rows.concat();
            if w.is_empty() || w.remove(0) != "OFF" {
                return None;
            }
            let c: [usize; 3] = nums(w.get(..3)?)?;
            w.drain(..3);
            if w.len() != 3 * c[0] + 4 * c[1] {
                return None;
            }
            for k in 0..c[0] {
                p.push(nums(&w[3 * k..3 * k + 3])?);
            }
            for k in 0..c[1] {
                let q = &w[3 * c[0] + 4 * k..][..4];
                if q[0] != "3" {
                    return None;
                }
                f.push(nums::<usize>(&q[1..])?.map(|i| i + 1));
            }
        }
        _ => {
            let flat: Vec<&[&str]> = rows.iter().map(|r| &r[..]).collect();
            let (first, last) = (flat.first()?, flat.last()?);
            if first[0] != "solid" || last[0] != "endsolid" || (flat.len() - 2) % 7 != 0 {
                return None;
            }
            for b in flat[1..flat.len() - 1].chunks(7) {
                let heads: Vec<&str> = b.iter().map(|r| r[0]).collect();
                if heads != ["facet", "outer", "vertex", "vertex", "vertex", "endloop", "endfacet"] || b[0].get(1) != Some(&"normal") {
                    return None;
                }
                n.push(nums(&b[0][2..])?);
                for r in &b[2..5] {
                    p.push(nums(&r[1..])?);
                }
                let k = p.len();
                f.push([k - 2, k - 1, k]);
            }
        }
    }
    Some((p, f, n))
}

/// The lattice coordinate whose nearest double is at most one step away.
fn near(x: &Xf, axis: usize, v: f64) -> i64 {
    let Some(r) = rug::Rational::from_f64(v) else { return OFF };
    let y = x.inv(axis, &r);
    let Some(n) = y.round().numer().to_i32() else { return OFF };
    let w = x.fwd(axis, n as i64).to_f64();
    let key = |f: f64| {
        let b = f.to_bits() as i64;
        if b < 0 { i64::MIN.wrapping_sub(b) } else { b }
    };
    if (key(w) as i128 - key(v) as i128).abs() <= 1 { n as i64 } else { OFF }
}
/// Further maps: very small, very large and with no exact double.
fn wide() -> Vec<Xf> {
    let z = || [rat(0, 1), rat(0, 1), rat(0, 1)];
    vec![
        Xf { id: 20, scale: pow2(-300), shift: z() },
        Xf { id: 21, scale: pow2(300), shift: z() },
        Xf { id: 22, scale: pow2(-1060), shift: z() },
        Xf { id: 23, scale: rat(1, 10), shift: [rat(1, 10), rat(-1, 5), rat(33, 10)] },
        Xf { id: 24, scale: rat(1_000_000_007, 9), shift: [rat(1, 3), rat(0, 1), rat(-1, 7)] },
    ]
}

macro_rules! impf {
    ($m:ident) => {
        mod $m {
            use super::*;
            use crate::mesh::$m::*;
            fn read(fmt: &str, path: &str) -> Option<M> {
                match fmt {
                    "obj" => read_obj::<T, _>(path).ok(),
                    "off" => read_off::<T, _>(path).ok(),
                    _ => read_stl::<T, _>(path).ok(),
                }
            }
            fn write(fmt: &str, m: &M, path: &str) -> bool {
                match fmt {
                    "obj" => write_obj(m, path).is_ok(),
                    "off" => write_off(m, path).is_ok(),
                    _ => write_stl(m, path).is_ok(),
                }
            }
            pub fn doc(cx: &mut Ctx, d: &Value, style: usize) {
                let fmt = d["fmt"].as_str().unwrap();
                let x = Xf { id: 0, scale: rat(1, 4), shift: [rat(0, 1), rat(0, 1), rat(0, 1)] };
                let txt = text(fmt, &d["doc"], style);
                let mut c = json!({"k":"iodoc","t":T::NAME,"x":0,"fmt":fmt,"doc":d["doc"],"text":txt});
                let path = format!("doc.{fmt}");
                std::fs::write(&path, &txt).unwrap();
                let r = cx.run(|| c.clone(), || read(fmt, &path).map(|m| if m.vertices.len() < 1000 { raw(&x, &m) } else { json!({"v":[],"h":[],"f":[],"e":[],"p":[]}) }));
                c["fail"] = json!([]);
                c["read"] = json!([]);
                match r {
                    Err(e) => c["fail"] = json!([e]),
                    Ok(Some(m)) => c["read"] = json!([m]),
                    Ok(None) => {}
                }
                cx.emit(&c);
            }
            pub fn trip(cx: &mut Ctx, ops: &Value, fmt: &str, x: &Xf) {
                let base = xf_double()[0].clone();
                let d = || json!({"k":"iort","t":T::NAME,"x":x.id,"fmt":fmt,"ops":ops});
                let built = cx.run(d, || {
                    let mut m = M::new();
                    let mut none: Option<Tree> = None;
                    for op in ops.as_array().unwrap() {
                        let a = apply(&base, &mut m, &mut none, op);
                        if a["s"] == "lost" || !sane(&m) {
                            return None;
                        }
                    }
                    Some(m)
                });
                let Ok(Some(mut m)) = built else { return };
                let ps: Vec<Vec<i64>> = m.vertices.iter().map(|v| ints(&pj(&base, &v.position))).collect();
                for (v, p) in ps.iter().enumerate() {
                    m.vertices[v].position = pt(x, p);
                }
                // the vertices that are left, and the triangles over them
                let mut at = vec![0; ps.len()];
                let mut left = vec![];
                for (v, p) in ps.iter().enumerate().filter(|(v, _)| !m.vertices[*v].removed) {
                    left.push(p.clone());
                    at[v] = left.len() as i64;
                }
                let fs: Vec<Value> = (0..m.faces.len()).filter(|&f| !m.faces[f].removed).map(|f| tri(&m, f).map_or(json!([]), |t| json!(t.map(|v| at[v])))).collect();
                let path = format!("trip.{fmt}");
                let _ = std::fs::remove_file(&path);
                let mut c = d();
                c["p"] = json!(left);
                c["F"] = json!(fs);
                c["fail"] = json!([]);
                c["read"] = json!([]);
                c["ok"] = json!(0);
                c["wrote"] = json!(0);
                c["pf"] = json!([]);
                c["ff"] = json!([]);
                c["nf"] = json!([]);
                match cx.run(d, || write(fmt, &m, &path)) {
                    Err(e) => c["fail"] = json!([e]),
                    Ok(w) => c["wrote"] = json!(w as i64),
                }
                if c["wrote"] == 1 {
                    let s = std::fs::read_to_string(&path).unwrap_or_default();
                    if let Some((p, f, n)) = strict(fmt, &s) {
                        c["ok"] = json!(1);
                        c["pf"] = json!(p.iter().map(|q| (0..3).map(|i| near(x, i, q[i])).collect::<Vec<_>>()).collect::<Vec<_>>());
                        c["ff"] = json!(f.iter().map(|t| canon(*t)).collect::<Vec<_>>());
                        if x.id < 10 {
                            // the direction of the normal, its largest part fifty long
                            let dir = |q: &[f64; 3]| q.map(|v| (50.0 * v / q.iter().fold(0.0f64, |a, b| a.max(b.abs()))).round() as i64);
                            c["nf"] = json!(n.iter().map(dir).collect::<Vec<_>>());
                        }
                    }
                    let r = cx.run(d, || {
                        read(fmt, &path).map(|m| {
                            let mut r = raw(&base, &m);
                            r["p"] = json!(m.vertices.iter().map(|v| (0..3).map(|i| v.position.coords[i].get().map_or(OFF, |q| near(x, i, q.to_f64()))).collect::<Vec<_>>()).collect::<Vec<_>>());
                            r
                        })
                    });
                    match r {
                        Err(e) => c["fail"] = json!([e]),
                        Ok(Some(m)) => c["read"] = json!([m]),
                        Ok(None) => {}
                    }
                }
                cx.emit(&c);
            }
            pub fn odd(cx: &mut Ctx, rng: &mut Rng) {
                for fmt in ["obj", "off", "stl"] {
                    let bad: Vec<(i64, String, Option<Vec<u8>>)> = vec![
                        (0, format!("missing.{fmt}"), None),
                        (0, "folder".into(), None),
                        (-1, format!("noise.{fmt}"), Some((0..200).map(|_| rng.below(256) as u8).collect())),
                        (0, format!("latin.{fmt}"), Some(b"OFF\xff\xfe 3 1 0\nv 1 2 3\n".to_vec())),
                        ((fmt != "off") as i64, format!("empty.{fmt}"), Some(vec![])),
                    ];
                    for (want, path, bytes) in bad {
                        if let Some(b) = bytes {
                            std::fs::write(&path, b).unwrap();
                        } else if path == "folder" {
                            std::fs::create_dir_all(&path).unwrap();
                        }
                        let mut c = json!({"k":"ioraw","t":T::NAME,"x":0,"fmt":fmt,"path":path,"want":want,"got":0,"fail":[]});
                        match cx.run(|| c.clone(), || read(fmt, &path).is_some()) {
                            Err(e) => c["fail"] = json!([e]),
                            Ok(g) => c["got"] = json!(g as i64),
                        }
                        cx.emit(&c);
                    }
                    let mut c = json!({"k":"ioraw","t":T::NAME,"x":0,"fmt":fmt,"path":"nowhere/m","want":0,"got":0,"fail":[]});
                    match cx.run(|| c.clone(), || write(fmt, &M::new(), "nowhere/m")) {
                        Err(e) => c["fail"] = json!([e]),
                        Ok(g) => c["got"] = json!(g as i64),
                    }
                    cx.emit(&c);
                }
            }
        }
    };
}
impf!(f3);
impf!(r3);
impf!(l3);

pub fn docs(cx: &mut Ctx) {
    let text = std::fs::read_to_string(cx.input.clone().expect("--in")).unwrap();
    let mut rng = Rng::new(cx.seed);
    for line in text.lines() {
        let d: Value = serde_json::from_str(line).unwrap();
        let style = rng.below(240);
        match rng.below(3) {
            0 => f3::doc(cx, &d, style),
            1 => r3::doc(cx, &d, style),
            _ => l3::doc(cx, &d, style),
        }
    }
    for _ in 0..20 {
        f3::odd(cx, &mut rng);
        r3::odd(cx, &mut rng);
        l3::odd(cx, &mut rng);
    }
}
pub fn trips(cx: &mut Ctx) {
    let text = std::fs::read_to_string(cx.input.clone().expect("--in")).unwrap();
    let mut rng = Rng::new(cx.seed);
    let maps: Vec<Xf> = xf_double().into_iter().chain(xf_exact()).chain(wide()).filter(|x| x.id != 12).collect();
    for line in text.lines() {
        let b: Value = serde_json::from_str(line).unwrap();
        let all = b["ops"].as_array().unwrap();
        if all[0]["t"][0].as_array().unwrap().len() != 3 {
            continue;
        }
        let cut = 2 + rng.below(all.len() - 1);
        let ops = json!(all[..cut.min(all.len())]);
        let x = rng.pick(&maps).clone();
        let fmt = *rng.pick(&["obj", "off", "stl"]);
        match rng.below(3) {
            0 => f3::trip(cx, &ops, fmt, &x),
            1 => r3::trip(cx, &ops, fmt, &x),
            _ => l3::trip(cx, &ops, fmt, &x),
        }
    }
}
