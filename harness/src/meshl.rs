//! Locating points from handles that later splits have retired.
use crate::mesh::*;
use crate::sc::*;
use crate::util::*;
use cgar::mesh::topology::FindFaceResult;
use rug::{Integer, Rational};
use serde_json::{Value, json};

type P = Vec<i64>;

fn value<T: Sc>(v: &T) -> Option<Rational> {
    v.get().and_then(|r| if T::EXACT { Some(r) } else { snap(r.to_f64(), 4096) })
}
fn ratio<T: Sc>(v: &T) -> Value {
    value(v).filter(|r| *r.denom() <= 1 << 16 && r.numer().clone().abs() <= 1 << 16).map_or(json!([0, 0]), |r| rj(&r))
}
/// three weights over their common denominator
fn weights<T: Sc>(w: [&T; 3]) -> Value {
    let v: Vec<Rational> = w.iter().filter_map(|x| value(*x)).collect();
    if v.len() < 3 {
        return json!([0, 0, 0, 0]);
    }
    let d = v.iter().fold(Integer::from(1), |d, r| d.lcm(r.denom()));
    let n = |r: &Rational| Integer::from(r.numer() * &d) / r.denom();
    let all: Vec<Integer> = v.iter().map(n).chain([d.clone()]).collect();
    if all.iter().any(|i| i.clone().abs() > 1 << 16) {
        return json!([0, 0, 0, 0]);
    }
    json!(all.iter().map(|i| i.to_i64().unwrap()).collect::<Vec<_>>())
}
fn cross(a: [i128; 3], b: [i128; 3]) -> [i128; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: [i128; 3], b: [i128; 3]) -> i128 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn sub(a: &P, b: &P) -> [i128; 3] {
    let g = |p: &P, i: usize| p.get(i).copied().unwrap_or(0) as i128;
    [g(a, 0) - g(b, 0), g(a, 1) - g(b, 1), g(a, 2) - g(b, 2)]
}
/// 1 inside, 0 on the boundary, -1 outside or off the plane
fn side(q: &P, t: [&P; 3]) -> i32 {
    let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    if n == [0, 0, 0] || dot(n, sub(q, t[0])) != 0 {
        return -1;
    }
    let s = [0, 1, 2].map(|i| dot(cross(sub(t[(i + 1) % 3], t[i]), sub(q, t[i])), n).signum() as i32);
    *s.iter().min().unwrap()
}
fn between(q: &P, a: &P, b: &P) -> bool {
    cross(sub(q, a), sub(b, a)) == [0, 0, 0] && dot(sub(q, a), sub(q, b)) <= 0
}
fn mix(a: &P, b: &P, c: &P) -> Option<P> {
    let s: P = (0..a.len()).map(|i| 2 * a[i] + b[i] + c[i]).collect();
    if s.iter().all(|v| v % 4 == 0) { Some(s.iter().map(|v| v / 4).collect()) } else { None }
}

macro_rules! inside {
    (3, $m:expr, $t:expr, $p:expr) => {
        $m.faces_containing_point_aabb(&mut $t, $p)
    };
    (2, $m:expr, $t:expr, $p:expr) => {{
        let _ = (&mut $t, $p);
        Vec::<usize>::new()
    }};
}
macro_rules! impl_loc {
    ($m:ident, $N:tt) => {
        mod $m {
            use super::*;
            use crate::mesh::$m::*;
            fn ends(m: &M, h: usize) -> Value {
                match m.half_edges.get(h) {
                    Some(e) if !e.removed && e.twin < m.half_edges.len() => json!([nm(m.half_edges[e.twin].vertex), nm(e.vertex)]),
                    _ => json!([0, 0]),
                }
            }
            fn corners(m: &M, f: usize) -> Value {
                if f < m.faces.len() && !m.faces[f].removed { json!(m.face_vertices(f).map(nm)) } else { json!([0, 0, 0]) }
            }
            fn found(m: &M, r: FindFaceResult<T>) -> Value {
                let b0 = json!([]);
                match r {
                    FindFaceResult::Inside { f, bary: (a, b, c) } => {
                        json!({"k":"inside","t":corners(m, f),"e":[0, 0],"u":[0, 1],"v":0,"b":weights([&a, &b, &c])})
                    }
                    FindFaceResult::OnEdge { f, he, u } => json!({"k":"edge","t":corners(m, f),"e":ends(m, he),"u":ratio(&u),"v":0,"b":b0}),
                    FindFaceResult::OnVertex { f, v } => json!({"k":"vertex","t":corners(m, f),"e":[0, 0],"u":[0, 1],"v":nm(v),"b":b0}),
                }
            }
            pub fn hist(cx: &mut Ctx, x: &Xf, ops: &Value, seed: u64) {
                let mut rng = Rng::new(seed);
                let d = || json!({"k":"meshl","t":T::NAME,"x":x.id,"dim":$N,"ops":ops});
                // every face and half-edge there ever was, with its latest corners
                let mut fs: Vec<[usize; 3]> = vec![];
                let mut hs: Vec<[usize; 2]> = vec![];
                let (fr, hr) = (&mut fs, &mut hs);
                let built = cx.run(d, || {
                    let mut m = M::new();
                    let mut none: Option<Tree> = None;
                    for op in ops.as_array().unwrap() {
                        let a = apply(x, &mut m, &mut none, op);
                        if a["s"] == "lost" || !sane(&m) {
                            return None;
                        }
                        fr.resize(m.faces.len(), [usize::MAX; 3]);
                        for f in 0..m.faces.len() {
                            if let Some(t) = tri(&m, f) {
                                fr[f] = t;
                            }
                        }
                        hr.resize(m.half_edges.len(), [usize::MAX; 2]);
                        for (h, e) in m.half_edges.iter().enumerate() {
                            if !e.removed {
                                hr[h] = [m.half_edges[e.twin].vertex, e.vertex];
                            }
                        }
                    }
                    Some(m)
                });
                let Ok(Some(m)) = built else { return };
                let ps: Vec<P> = m.vertices.iter().map(|v| ints(&pj(x, &v.position))).collect();
                let live: Vec<usize> = (0..m.faces.len()).filter(|f| !m.faces[*f].removed).collect();
                if live.is_empty() {
                    return;
                }
                let mut pts: Vec<P> = vec![];
                for f in &live {
                    let t = tri(&m, *f).unwrap().map(|v| &ps[v]);
                    for i in 0..3 {
                        let (a, b, c) = (t[i], t[(i + 1) % 3], t[(i + 2) % 3]);
                        pts.extend(mix(a, b, c));
                        pts.extend(mix(a, b, b));
                        pts.extend(mix(a, a, b));
                        pts.push(a.clone());
                    }
                }
                pts.sort();
                pts.dedup();
                let mut ask: Vec<(usize, P)> = vec![];
                let mut here: Vec<(usize, P)> = vec![];
                for f in 0..fs.len() {
                    if fs[f][0] == usize::MAX {
                        continue;
                    }
                    for q in &pts {
                        let t = fs[f].map(|v| &ps[v]);
                        let s = side(q, t);
                        if s >= 0 || $N == 2 {
                            ask.push((f, q.clone()));
                        }
                        let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
                        if !m.faces[f].removed && n != [0, 0, 0] && dot(n, sub(q, t[0])) == 0 {
                            here.push((f, q.clone()));
                        }
                    }
                }
                let mut along: Vec<(usize, P)> = vec![];
                for h in 0..hs.len() {
                    if hs[h][0] != usize::MAX {
                        for q in &pts {
                            if between(q, &ps[hs[h][0]], &ps[hs[h][1]]) {
                                along.push((h, q.clone()));
                            }
                        }
                    }
                }
                // mostly handles that are gone, and points not in general position
                ask.sort_by_key(|(f, _)| !m.faces[*f].removed);
                let gone = ask.iter().filter(|(f, _)| m.faces[*f].removed).count();
                let mut pick = |v: &mut Vec<(usize, P)>, gone: usize, n: usize| {
                    rng.shuffle(&mut v[..gone]);
                    let mut w: Vec<(usize, P)> = v[..gone.min(n)].to_vec();
                    rng.shuffle(&mut v[gone..]);
                    w.extend(v[gone..].iter().take(n / 3).cloned());
                    w
                };
                let ask = pick(&mut ask, gone, 30);
                along.sort_by_key(|(h, _)| !m.half_edges[*h].removed);
                let gone = along.iter().filter(|(h, _)| m.half_edges[*h].removed).count();
                let along = pick(&mut along, gone, 24);
                let n = here.len();
                let here = pick(&mut here, n, 24);
                let mut part = "edit";
                let mut at: (i64, P) = (0, vec![]);
                let (p, w) = (&mut part, &mut at);
                let off: Vec<P> = pts.iter().take(if $N == 3 { 12 } else { 0 }).cloned().collect();
                let r = cx.run(d, || {
                    let mut e = json!({});
                    *p = "face";
                    e["ask"] = json!(ask.iter().map(|(f, q)| {
                        *w = (*f as i64, q.clone());
                        let mut a = found(&m, m.find_valid_face(*f, &pt(x, q)));
                        a["h"] = json!(fs[*f].map(nm));
                        a["q"] = json!(q);
                        a
                    }).collect::<Vec<_>>());
                    *p = "half-edge";
                    e["along"] = json!(along.iter().map(|(h, q)| {
                        *w = (*h as i64, q.clone());
                        json!({"h": hs[*h].map(nm), "q": q, "r": ends(&m, m.find_valid_half_edge(*h, &pt(x, q)))})
                    }).collect::<Vec<_>>());
                    *p = "here";
                    let mut tree = m.build_face_tree();
                    e["here"] = json!(here.iter().map(|(f, q)| {
                        *w = (*f as i64, q.clone());
                        let y = pt(x, q);
                        let s = side(q, fs[*f].map(|v| &ps[v]));
                        let mut a = if s >= 0 { found(&m, m.location_on_face(*f, &y)) } else { json!({"k":"none","t":corners(&m, *f),"e":[0, 0],"u":[0, 1],"v":0,"b":[]}) };
                        a["q"] = json!(q);
                        a["f"] = corners(&m, *f);
                        a["on"] = m.point_is_on_some_half_edge(*f, &y).map_or(json!([]), |(h, u)| json!([ends(&m, h), ratio(&u)]));
                        a["bc"] = m.barycentric_coords_on_face(*f, &y).map_or(json!([]), |(a, b, c)| weights([&a, &b, &c]));
                        a
                    }).collect::<Vec<_>>());
                    *p = "within";
                    e["within"] = json!(off.iter().map(|q| {
                        *w = (0, q.clone());
                        let mut v: Vec<[usize; 3]> = inside!($N, m, tree, &pt(x, q)).iter().map(|f| tri(&m, *f).unwrap_or([usize::MAX; 3])).collect();
                        v.sort();
                        json!({"q": q, "f": v.iter().map(|t| t.map(nm)).collect::<Vec<_>>(),
                               "w": live.iter().filter(|f| side(q, fs[**f].map(|v| &ps[v])) > 0).map(|f| trij(&m, *f)).collect::<Vec<_>>()})
                    }).collect::<Vec<_>>());
                    e
                });
                let mut e = d();
                e["F"] = json!(live.iter().map(|f| trij(&m, *f)).collect::<Vec<_>>());
                e["p"] = json!(ps);
                match r {
                    Ok(a) => {
                        e["a"] = json!([a]);
                        e["fail"] = json!([]);
                    }
                    Err(s) => {
                        e["a"] = json!([]);
                        e["fail"] = json!([part, format!("{at:?}"), s]);
                    }
                }
                cx.emit(&e);
            }
        }
    };
}
impl_loc!(f3, 3);
impl_loc!(r3, 3);
impl_loc!(l3, 3);
impl_loc!(f2, 2);
impl_loc!(r2, 2);
impl_loc!(l2, 2);

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let ops = &b["ops"];
        let flat = ops[0]["t"][0].as_array().unwrap().len() == 2;
        let (a, e) = (&xd[k / 3 % xd.len()], &xe[k / 3 % xe.len()]);
        let s = cx.seed.wrapping_mul(1_000_003) + k as u64;
        match (k % 3, flat) {
            (0, false) => f3::hist(cx, a, ops, s),
            (1, false) => r3::hist(cx, e, ops, s),
            (_, false) => l3::hist(cx, e, ops, s),
            (0, true) => f2::hist(cx, a, ops, s),
            (1, true) => r2::hist(cx, e, ops, s),
            (_, true) => l2::hist(cx, e, ops, s),
        }
    }
}
