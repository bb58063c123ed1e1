//! What a mesh says about the geometry of its faces and edges after an edit history.
use crate::mesh::*;
use crate::pred::limbs;
use crate::sc::*;
use crate::util::*;
use rug::{Integer, Rational};
use serde_json::{Value, json};

/// A value of degree k in the coordinates, as a whole number of lattice units.
fn whole<T: Sc>(x: &Xf, k: u32, times: i64, v: &T) -> i64 {
    let Some(r) = v.get() else { return OFF };
    let mut s = rat(1, 1);
    for _ in 0..k {
        s *= &x.scale;
    }
    let y = r * times / s;
    let n = y.clone().round();
    let off = Rational::from(&y - &n).abs();
    let near = if T::EXACT { off == 0 } else { off < rat(1, 1000) || off * 1_000_000_000_000i64 < y.clone().abs() };
    if near { n.numer().to_i64().unwrap_or(OFF) } else { OFF }
}
fn wide(v: i64) -> Value {
    if v < 0 { json!([-1]) } else { json!(limbs(v)) }
}
/// The direction of a vector in smallest whole numbers.
fn direction<T: Sc>(v: &[&T]) -> Value {
    let r: Option<Vec<Rational>> = v.iter().map(|c| c.get()).collect();
    let Some(r) = r else { return json!([0, 0, 0]) };
    let l = r.iter().fold(Integer::from(1), |a, q| a.lcm(q.denom()));
    let n: Vec<Integer> = r.iter().map(|q| Rational::from(q * &l).numer().clone()).collect();
    let g = n.iter().fold(Integer::new(), |a, q| a.gcd(q));
    if g == 0 {
        return json!([0, 0, 0]);
    }
    json!(n.iter().map(|q| Integer::from(q / &g).to_i32().unwrap_or(0)).collect::<Vec<_>>())
}
/// A side of a box, which may be farther out than what it holds by rounding only.
fn side<T: Sc>(x: &Xf, axis: usize, low: bool, v: &T) -> i64 {
    let Some(r) = v.get() else { return OFF };
    if !T::EXACT {
        return coord(x, axis, v);
    }
    let y = x.inv(axis, &r);
    let n = if low { y.clone().ceil() } else { y.clone().floor() };
    if Rational::from(&y - &n).abs() < rat(1, 1000) { n.numer().to_i64().unwrap_or(OFF) } else { OFF }
}
/// A place in the lattice that is known in doubles only.
fn rough<T: Sc>(x: &Xf, axis: usize, v: &T) -> Value {
    match v.get().and_then(|r| snap(x.inv(axis, &r).to_f64(), 20000)) {
        Some(s) => rj(&s),
        None => json!([0, 0]),
    }
}

macro_rules! solid_face {
    (3, $m:expr, $x:expr, $f:expr, $v:expr, $q:expr, $e:expr) => {
        let n = $m.face_normal($f);
        $e["n"] = json!((0..3).map(|i| whole($x, 2, 1, &n[i])).collect::<Vec<_>>());
        $e["a"] = wide(whole($x, 4, 4, &$m.face_area($f)));
        let pl = $m.plane_from_face($f);
        $e["pn"] = direction(&[&pl.normal[0], &pl.normal[1], &pl.normal[2]]);
        let on = |v: usize| -> i64 {
            let p = &$m.vertices[v].position;
            let t: Option<Vec<Rational>> = (0..3).map(|i| Some(pl.normal[i].get()? * p.coords[i].get()?)).collect();
            let (Some(t), Some(d)) = (t, pl.d.get()) else { return 1 };
            let big = t.iter().fold(d.clone().abs(), |a, b| a + b.clone().abs());
            let r = t.into_iter().fold(d, |a, b| a + b).abs();
            (r != 0 && (T::EXACT || r * 1_000_000_000_000i64 > big)) as i64
        };
        $e["on"] = json!(tri(&$m, $f).unwrap().map(on));
        let a = $m.area2x4_after_move($f, $v, &pt($x, &$q));
        $e["mv"] = json!([{"v": nm($v), "q": $q, "a": wide(whole($x, 4, 1, &a))}]);
    };
    (2, $m:expr, $x:expr, $f:expr, $v:expr, $q:expr, $e:expr) => {
        let _ = ($v, &$q);
        $e["a"] = wide(whole($x, 2, 2, &$m.face_area($f)));
    };
}

macro_rules! imp {
    ($m:ident, $N:tt) => {
        mod $m {
            use super::*;
            use crate::mesh::$m::*;
            pub fn hist(cx: &mut Ctx, x: &Xf, q: i64, ops: &Value, seed: u64) {
                let mut rng = Rng::new(seed);
                let all = ops.as_array().unwrap();
                let cut = rng.range((all.len() as i64 / 2).max(2), all.len() as i64) as usize;
                let ops: Vec<Value> = all[..cut].to_vec();
                let d = || json!({"k":"measure","t":T::NAME,"x":x.id,"dim":$N,"q":q,"ops":ops});
                let built = cx.run(d, || {
                    let mut m = M::new();
                    let mut none: Option<Tree> = None;
                    for op in &ops {
                        let a = apply(x, &mut m, &mut none, op);
                        if a["s"] == "lost" || !sane(&m) {
                            return None;
                        }
                    }
                    Some(m)
                });
                // histories the edits themselves get wrong are judged elsewhere
                let Ok(Some(m)) = built else { return };
                let place = |v: usize| -> Vec<i64> { (0..$N).map(|i| coord(x, i, &m.vertices[v].position.coords[i])).collect() };
                let faces: Vec<usize> = (0..m.faces.len()).filter(|f| !m.faces[*f].removed).collect();
                if faces.is_empty() {
                    return;
                }
                let mut part = "face";
                let p = &mut part;
                let r = cx.run(d, || {
                    let mut fs = vec![];
                    for f in &faces {
                        let t = tri(&m, *f).unwrap();
                        let v = t[rng.below(3)];
                        let other = tri(&m, *rng.pick(&faces)).unwrap();
                        let to = place(other[rng.below(3)]);
                        let to: Vec<i64> = to.iter().map(|c| c + 64 * rng.range(-2, 2)).collect();
                        let c = m.face_centroid(*f);
                        let cf = m.face_centroid_fast(*f);
                        let b = m.face_aabb(*f);
                        let mut e = json!({"t": t.map(nm),
                            "c": (0..$N).map(|i| back(x, i, &c[i])).collect::<Vec<_>>(),
                            "cf": (0..$N).map(|i| rough(x, i, &cf.coords[i])).collect::<Vec<_>>(),
                            "lo": (0..$N).map(|i| side(x, i, true, &b.min().coords[i])).collect::<Vec<_>>(),
                            "hi": (0..$N).map(|i| side(x, i, false, &b.max().coords[i])).collect::<Vec<_>>()});
                        solid_face!($N, m, x, *f, v, to, e);
                        fs.push(e);
                    }
                    *p = "edge";
                    let mut hs: Vec<usize> = (0..m.half_edges.len()).filter(|h| !m.half_edges[*h].removed).collect();
                    rng.shuffle(&mut hs);
                    hs.truncate(24);
                    let mut es = vec![];
                    for h in hs {
                        let s = m.segment_from_half_edge(h);
                        let e = [m.half_edges[m.half_edges[h].twin].vertex, m.half_edges[h].vertex];
                        let (a, b) = (place(e[0]), place(e[1]));
                        let mut qs: Vec<Vec<i64>> = vec![a.clone(), b.clone()];
                        // along the line, and a little or far beside it
                        for k in [-4, -1, 1, 2, 3, 5] {
                            if (0..$N).all(|i| (b[i] - a[i]) % 4 == 0) {
                                qs.push((0..$N).map(|i| a[i] + (b[i] - a[i]) / 4 * k).collect());
                            }
                        }
                        for _ in 0..3 {
                            let mut q = rng.pick(&qs).clone();
                            q[rng.below($N)] += *rng.pick(&[1, -1, 16, 512]);
                            qs.push(q);
                        }
                        let q: Vec<Value> = qs
                            .iter()
                            .map(|q| {
                                let u = m.point_on_half_edge(h, &pt(x, q));
                                json!([q, u.map_or(json!([]), |u| match u.get() {
                                    Some(r) if T::EXACT => rj(&r),
                                    Some(r) => snap(r.to_f64(), 20000).map_or(json!([0, 0]), |s| rj(&s)),
                                    None => json!([0, 0]),
                                })])
                            })
                            .collect();
                        es.push(json!({"e": e.map(nm), "s": [pj(x, &s.a), pj(x, &s.b)], "st": [nm(m.source(h)), nm(m.target(h))], "q": q}));
                    }
                    json!({"fs": fs, "es": es})
                });
                let mut e = d();
                e["P"] = json!((0..m.vertices.len()).map(place).collect::<Vec<_>>());
                match r {
                    Ok(a) => {
                        e["a"] = json!([a]);
                        e["fail"] = json!([]);
                    }
                    Err(s) => {
                        e["a"] = json!([]);
                        e["fail"] = json!([part, s]);
                    }
                }
                cx.emit(&e);
            }
        }
    };
}
imp!(f3, 3);
imp!(r3, 3);
imp!(l3, 3);
imp!(f2, 2);
imp!(r2, 2);
imp!(l2, 2);

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let (q, ops) = (b["q"].as_i64().unwrap(), &b["ops"]);
        let flat = ops[0]["t"][0].as_array().unwrap().len() == 2;
        let (a, e) = (&xd[k / 3 % xd.len()], &xe[k / 3 % xe.len()]);
        let s = cx.seed.wrapping_mul(1_000_003) + k as u64;
        match (k % 3, flat) {
            (0, false) => f3::hist(cx, a, q, ops, s),
            (1, false) => r3::hist(cx, e, q, ops, s),
            (_, false) => l3::hist(cx, e, q, ops, s),
            (0, true) => f2::hist(cx, a, q, ops, s),
            (1, true) => r2::hist(cx, e, q, ops, s),
            (_, true) => l2::hist(cx, e, q, ops, s),
        }
    }
}
