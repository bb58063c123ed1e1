//! What the queries of a mesh answer after an edit history.
use crate::mesh::*;
use crate::sc::*;
use crate::util::*;
use serde_json::{Value, json};

macro_rules! impq {
    ($m:ident, $N:literal) => {
        mod $m {
            use super::*;
            use crate::mesh::$m::*;
            fn ends(m: &M, h: usize) -> Value {
                match m.half_edges.get(h) {
                    Some(e) if !e.removed && e.twin < m.half_edges.len() => json!([nm(m.half_edges[e.twin].vertex), nm(e.vertex)]),
                    _ => json!([0, 0]),
                }
            }
            fn tris(m: &M, fs: impl IntoIterator<Item = usize>) -> Value {
                let mut v: Vec<Value> = fs.into_iter().map(|f| trij(m, f)).collect();
                v.sort_by_key(|t| t.to_string());
                json!(v)
            }
            fn set<'a>(s: impl IntoIterator<Item = &'a usize>) -> Vec<i64> {
                let mut v: Vec<i64> = s.into_iter().map(|x| nm(*x)).collect();
                v.sort();
                v
            }
            fn at_vertex(m: &M, v: usize) -> Value {
                let r = m.vertex_ring_ccw(v);
                json!({
                    "v": nm(v), "c": nm(r.center),
                    "n": r.neighbors_ccw.iter().map(|w| nm(*w)).collect::<Vec<_>>(),
                    "f": r.faces_ccw.iter().map(|f| f.map_or(json!([]), |f| trij(m, f))).collect::<Vec<_>>(),
                    "h": r.halfedges_ccw.iter().map(|h| ends(m, *h)).collect::<Vec<_>>(),
                    "b": r.is_border,
                    "o": m.outgoing_half_edges(v).iter().map(|h| ends(m, *h)).collect::<Vec<_>>(),
                    "r": m.one_ring_neighbors(v).iter().map(|w| nm(*w)).collect::<Vec<_>>(),
                    "ib": m.is_boundary_vertex(v),
                    "fv": tris(m, m.faces_around_vertex(v)),
                    "if": tris(m, m.incident_faces(v)),
                })
            }
            fn at_pair(m: &M, a: usize, b: usize) -> Value {
                let o = |h: Option<usize>| h.map_or(json!([]), |h| ends(m, h));
                let rp: Vec<Value> = m
                    .ring_pair(a, b)
                    .iter()
                    .map(|p| {
                        json!({"a": p.opposite_a.map_or(0, nm), "b": p.opposite_b.map_or(0, nm),
                               "c": set(&p.common_neighbors), "u": set(&p.union_neighbors), "e": p.is_border_edge})
                    })
                    .collect();
                let vc = m.vertices_connection(a, b);
                json!({
                    "a": nm(a), "b": nm(b),
                    "h": o(m.half_edge_between(a, b)),
                    "e": m.edge_half_edges(a, b).map_or(json!([]), |(h, t)| json!([ends(m, h), ends(m, t)])),
                    "k": m.are_vertices_connected(a, b),
                    "vc": if vc == usize::MAX { json!([]) } else { ends(m, vc) },
                    "ci": m.half_edge_between(a, b).and_then(|h| m.canonical_edge_indices(h)).map_or(json!([]), |(x, y)| json!([nm(x), nm(y)])),
                    "rp": rp,
                    "l1": m.check_link_condition_triangle(a, b),
                    "l2": m.collapse_link_condition_triangle(a, b),
                    "d": m.would_create_duplicate_edges(a, b),
                    "g": m.would_create_2gons(a, b),
                })
            }
            fn at_face(m: &M, f: usize, g: &std::collections::BTreeMap<usize, Vec<usize>>) -> Value {
                let (e0, e1, e2) = m.face_edges(f);
                json!({
                    "t": trij(m, f),
                    "v": m.face_vertices(f).map(nm),
                    "h": m.face_half_edges(f).iter().map(|h| ends(m, *h)).collect::<Vec<_>>(),
                    "e": [ends(m, e0), ends(m, e1), ends(m, e2)],
                    "a": tris(m, m.adjacent_faces(f)),
                    "g": tris(m, g.get(&f).cloned().unwrap_or_default()),
                    "s": tris(m, m.faces_around_face(f).into_iter().filter(|x| *x != usize::MAX)),
                })
            }
            pub fn hist(cx: &mut Ctx, x: &Xf, q: i64, ops: &Value, seed: u64) {
                let mut rng = Rng::new(seed);
                let all = ops.as_array().unwrap();
                let cut = rng.range((all.len() as i64 / 2).max(2), all.len() as i64) as usize;
                let ops: Vec<Value> = all[..cut].to_vec();
                let d = || json!({"k":"meshq","t":T::NAME,"x":x.id,"dim":$N,"q":q,"ops":ops});
                let mut part = "edit";
                let p = &mut part;
                let built = cx.run(d, || {
                    let mut m = M::new();
                    let mut none: Option<Tree> = None;
                    for op in &ops {
                        let a = apply(x, &mut m, &mut none, op);
                        if a["s"] == "lost" || !sane(&m) {
                            return None;
                        }
                    }
                    Some(m)
                });
                // histories the edits themselves get wrong are judged elsewhere
                let Ok(Some(m)) = built else { return };
                let live: Vec<usize> = (0..m.vertices.len()).filter(|v| !m.vertices[*v].removed).collect();
                let faces: Vec<usize> = (0..m.faces.len()).filter(|f| !m.faces[*f].removed).collect();
                let mut pairs: Vec<(usize, usize)> = vec![];
                for f in &faces {
                    let t = tri(&m, *f).unwrap();
                    for i in 0..3 {
                        pairs.push((t[i], t[(i + 1) % 3]));
                        pairs.push((t[(i + 1) % 3], t[i]));
                    }
                }
                rng.shuffle(&mut pairs);
                pairs.truncate(24);
                for _ in 0..12 {
                    pairs.push((*rng.pick(&live), *rng.pick(&live)));
                }
                pairs.sort();
                pairs.dedup();
                let mut three: Vec<[usize; 3]> = faces.iter().map(|f| tri(&m, *f).unwrap()).collect();
                for t in three.iter_mut() {
                    let k = rng.below(3);
                    t.rotate_left(k);
                    if rng.chance(1, 2) {
                        t.swap(0, 1);
                    }
                }
                rng.shuffle(&mut three);
                three.truncate(8);
                let used: Vec<usize> = live.iter().copied().filter(|v| faces.iter().any(|f| tri(&m, *f).unwrap().contains(v))).collect();
                for _ in 0..8 {
                    if !used.is_empty() {
                        three.push([*rng.pick(&used), *rng.pick(&used), *rng.pick(&used)]);
                    }
                }
                let mut ff: Vec<(usize, usize)> = vec![];
                let mut vf: Vec<(usize, usize)> = vec![];
                for _ in 0..16 {
                    if !faces.is_empty() {
                        ff.push((*rng.pick(&faces), *rng.pick(&faces)));
                        vf.push((*rng.pick(&used), *rng.pick(&faces)));
                    }
                }
                let r = cx.run(d, || {
                    let mut e = json!({});
                    *p = "ring";
                    e["vq"] = json!(used.iter().map(|v| at_vertex(&m, *v)).collect::<Vec<_>>());
                    *p = "lone";
                    e["lone"] = json!(live.iter().filter(|v| !used.contains(v)).map(|v| {
                        let r = m.vertex_ring_ccw(*v);
                        json!([nm(*v), r.neighbors_ccw.len(), r.faces_ccw.len(), m.incident_faces(*v).len()])
                    }).collect::<Vec<_>>());
                    *p = "pair";
                    e["pq"] = json!(pairs.iter().map(|(a, b)| at_pair(&m, *a, *b)).collect::<Vec<_>>());
                    *p = "face";
                    let g = m.build_face_adjacency_graph().into_iter().collect();
                    e["fq"] = json!(faces.iter().map(|f| at_face(&m, *f, &g)).collect::<Vec<_>>());
                    e["ff"] = json!(ff.iter().map(|(a, b)| json!([trij(&m, *a), trij(&m, *b), m.are_faces_adjacent(*a, *b)])).collect::<Vec<_>>());
                    e["vf"] = json!(vf.iter().map(|(v, f)| json!([nm(*v), trij(&m, *f), m.vertex_touches_face(*v, *f)])).collect::<Vec<_>>());
                    *p = "three";
                    e["ft"] = json!(three.iter().map(|t| {
                        let f = m.face_from_vertices(t[0], t[1], t[2]);
                        json!([t.map(nm), if f == usize::MAX { json!([]) } else { trij(&m, f) }])
                    }).collect::<Vec<_>>());
                    *p = "border";
                    let mut b: Vec<i64> = m.boundary_vertices().iter().map(|v| nm(*v)).collect();
                    b.sort();
                    e["bv"] = json!(b);
                    *p = "tree";
                    if !faces.is_empty() {
                        let t = m.build_face_tree();
                        e["tree"] = json!([crate::mesh::$m::live(x, &m, &t)]);
                        e["at"] = json!([crate::mesh::$m::local(&m, &t)]);
                    } else {
                        e["tree"] = json!([]);
                        e["at"] = json!([]);
                    }
                    *p = "validate";
                    m.validate_connectivity();
                    e
                });
                let mut e = d();
                e["F"] = json!(faces.iter().map(|f| trij(&m, *f)).collect::<Vec<_>>());
                match r {
                    Ok(a) => {
                        e["a"] = json!([a]);
                        e["fail"] = json!([]);
                    }
                    Err(s) => {
                        e["a"] = json!([]);
                        e["fail"] = json!([part, s]);
                    }
                }
                cx.emit(&e);
            }
        }
    };
}
impq!(f3, 3);
impq!(r3, 3);
impq!(l3, 3);
impq!(f2, 2);
impq!(r2, 2);
impq!(l2, 2);

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let (q, ops) = (b["q"].as_i64().unwrap(), &b["ops"]);
        let flat = ops[0]["t"][0].as_array().unwrap().len() == 2;
        let (a, e) = (&xd[k / 3 % xd.len()], &xe[k / 3 % xe.len()]);
        let s = cx.seed.wrapping_mul(1_000_003) + k as u64;
        match (k % 3, flat) {
            (0, false) => f3::hist(cx, a, q, ops, s),
            (1, false) => r3::hist(cx, e, q, ops, s),
            (_, false) => l3::hist(cx, e, q, ops, s),
            (0, true) => f2::hist(cx, a, q, ops, s),
            (1, true) => r2::hist(cx, e, q, ops, s),
            (_, true) => l2::hist(cx, e, q, ops, s),
        }
    }
}
