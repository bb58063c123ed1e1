//! Points and rays against solids made of cubes.
use crate::mesh::ints;
use crate::sc::*;
use crate::util::*;
use cgar::geometry::AabbTree;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::vector::Vector;
use cgar::mesh::basic_types::{IntersectionHit, IntersectionResult, Mesh, PointInMeshResult};
use cgar::mesh::topology::{VertexRayResult, ray_segment_intersection_2d};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use rug::Rational;
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// Shears of the lattice onto itself, so that faces need not lie along the axes.
pub const SHEARS: [[[i64; 3]; 3]; 3] = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 0], [0, 1, 1]], [[1, 2, 1], [0, 1, -3], [1, 2, 2]]];
pub const SHEARS2: [[[i64; 3]; 3]; 3] = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[2, 3, 0], [1, 2, 0], [0, 0, 1]]];
pub fn shear(s: &[[i64; 3]; 3], q: &[i64]) -> Vec<i64> {
    (0..q.len()).map(|i| (0..q.len()).map(|j| s[i][j] * q[j]).sum()).collect()
}

pub struct Solid {
    pub dim: usize,
    pub cells: Value,
    pub p: Vec<Vec<i64>>,
    pub f: Vec<[usize; 3]>,
}
pub fn load(line: &str) -> Solid {
    let b: Value = serde_json::from_str(line).unwrap();
    let mut at: BTreeMap<Vec<i64>, usize> = BTreeMap::new();
    let mut p = vec![];
    let mut f = vec![];
    for t in b["T"].as_array().unwrap() {
        let c: Vec<usize> = t
            .as_array()
            .unwrap()
            .iter()
            .map(|q| {
                let q = ints(q);
                *at.entry(q.clone()).or_insert_with(|| {
                    p.push(q);
                    p.len() - 1
                })
            })
            .collect();
        f.push([c[0], c[1], c[2]]);
    }
    Solid { dim: b["dim"].as_u64().unwrap() as usize, cells: b["V"].clone(), p, f }
}

pub fn frac<T: Sc>(v: &T) -> Value {
    match v.get() {
        None => json!([0, 0]),
        Some(r) if T::EXACT => rj(&r),
        Some(r) => snap(r.to_f64(), 20000).map_or(json!([0, 0]), |s| rj(&s)),
    }
}

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            pub fn pt<const N: usize>(x: &Xf, sh: &[[i64; 3]; 3], q: &[i64]) -> Point<T, N> {
                let s = shear(sh, q);
                Point { coords: std::array::from_fn(|i| T::mk(&x.fwd(i, s[i]))) }
            }
            fn dir<const N: usize>(x: &Xf, sh: &[[i64; 3]; 3], q: &[i64]) -> Vector<T, N> {
                let s = shear(sh, q);
                Vector(Point { coords: std::array::from_fn(|i| T::mk(&Rational::from(&x.scale * s[i]))) })
            }
            fn long(v: Vector<T, 3>, unit: &Rational) -> Vector<T, 3> {
                Vector(Point { coords: v.0.coords.map(|c| c * T::mk(unit)) })
            }
            pub fn build<const N: usize>(x: &Xf, sh: &[[i64; 3]; 3], s: &Solid) -> Mesh<T, N>
            where
                Point<T, N>: cgar::geometry::point::PointOps<T, N, Vector = Vector<T, N>>,
                Vector<T, N>: cgar::geometry::vector::VectorOps<T, N>,
            {
                let mut m = Mesh::new();
                for q in &s.p {
                    m.add_vertex(pt(x, sh, q));
                }
                for f in &s.f {
                    m.add_triangle(f[0], f[1], f[2]);
                }
                m
            }
            fn tree(m: &Mesh<T, 3>) -> AabbTree<T, 3, Point<T, 3>, usize> {
                m.build_face_tree()
            }
            pub fn points(cx: &mut Ctx, x: &Xf, k: usize, s: &Solid, qs: &[Vec<i64>]) {
                let mut c = json!({"k":"pim","t":T::NAME,"x":x.id,"sh":k,"dim":s.dim,"V":s.cells,"q":qs,"r":[],"fail":[]});
                let r = cx.run(|| c.clone(), || {
                    if s.dim == 3 {
                        let m = build::<3>(x, &SHEARS[k], s);
                        let t = tree(&m);
                        qs.iter()
                            .map(|q| match m.point_in_mesh_3(&t, &pt(x, &SHEARS[k], q)) {
                                PointInMeshResult::Inside => "in",
                                PointInMeshResult::Outside => "out",
                                PointInMeshResult::OnSurface => "on",
                            })
                            .collect::<Vec<_>>()
                    } else {
                        let mut m = build::<2>(x, &SHEARS2[k], s);
                        if k != 1 {
                            m.build_boundary_loops();
                        }
                        qs.iter().map(|q| if m.point_in_mesh_2(&pt(x, &SHEARS2[k], q)) { "in" } else { "out" }).collect()
                    }
                });
                match r {
                    Ok(v) => c["r"] = json!(v),
                    Err(e) => c["fail"] = json!([e]),
                }
                cx.emit(&c);
            }
            /// Rays at the surface, of which some triangles may have been removed.
            pub fn rays(cx: &mut Ctx, x: &Xf, k: usize, s: &Solid, gone: &[usize], rs: &[(Vec<i64>, Vec<i64>)], len: i32) {
                let sh = &SHEARS[k];
                // the length of the direction vector only changes the unit of distance
                let one = Rational::from(1);
                let unit = if !T::EXACT { one } else if len < 0 { one >> (-len as u32) } else { one << (len as u32) };
                let at = |f: [usize; 3]| f.map(|v| s.p[v].clone());
                let left: Vec<_> = (0..s.f.len()).filter(|i| !gone.contains(i)).map(|i| at(s.f[i])).collect();
                let base = json!({"k":"ray","t":[0,0],"ty":T::NAME,"x":x.id,"sh":k,"len":len,"T":left,"o":[],"d":[],"hit":0,"el":[],"w":[],"fail":[]});
                let mt = cx.run(|| base.clone(), || {
                    let mut m = build::<3>(x, sh, s);
                    for &g in gone {
                        m.remove_triangle(g);
                    }
                    let t = tree(&m);
                    (m, t)
                });
                let (m, t) = match mt {
                    Ok(v) => v,
                    Err(e) => {
                        let mut c = base;
                        c["fail"] = json!([e]);
                        cx.emit(&c);
                        return;
                    }
                };
                for (i, (o, d)) in rs.iter().enumerate() {
                    // exact numbers need no tolerance, so asking for none changes nothing
                    let tol = if T::EXACT && i % 2 == 1 { Some(T::from(0)) } else { None };
                    let mut c = base.clone();
                    c["o"] = json!(o);
                    c["d"] = json!(d);
                    let pos = |v: usize| s.p.get(v).cloned().unwrap_or_default();
                    let r = cx.run(|| c.clone(), || match m.cast_ray_3(&pt(x, sh, o), &long(dir(x, sh, d), &unit), &t, &tol) {
                        IntersectionResult::Miss => None,
                        IntersectionResult::Hit(h, t) => Some((
                            frac(&(t * T::mk(&unit))),
                            match h {
                                IntersectionHit::Vertex(v) => (vec![pos(v)], vec![json!([1, 1])]),
                                IntersectionHit::Edge(a, b, u) => (vec![pos(a), pos(b)], vec![frac(&(T::from(1) - u.clone())), frac(&u)]),
                                IntersectionHit::Face(f, (u, v, w)) => (m.face_vertices(f).iter().map(|v| pos(*v)).collect(), vec![frac(&u), frac(&v), frac(&w)]),
                            },
                        )),
                    });
                    match r {
                        Ok(None) => {}
                        Ok(Some((t, (el, w)))) => {
                            c["hit"] = json!(1);
                            c["t"] = t;
                            c["el"] = json!(el);
                            c["w"] = json!(w);
                        }
                        Err(e) => c["fail"] = json!([e]),
                    }
                    cx.emit(&c);
                }
            }
            /// Rays from a corner over a triangle; lengths are counted in cells.
            pub fn spokes(cx: &mut Ctx, x: &Xf, s: &Solid, rs: &[(usize, usize, Vec<i64>)]) {
                let sh = &SHEARS[0];
                let m = match cx.run_quiet(|| build::<3>(x, sh, s)) {
                    Ok(m) => m,
                    Err(_) => return,
                };
                let cell = |v: usize| s.p.get(v).map(|q| q.iter().map(|c| c / 12).collect::<Vec<_>>()).unwrap_or_default();
                for (f, v, d) in rs {
                    let vs = s.f[*f];
                    let a = [vs[*v], vs[(v + 1) % 3], vs[(v + 2) % 3]];
                    let long: Vec<i64> = d.iter().map(|c| 12 * c).collect();
                    for fun in ["plane", "geodesic"] {
                        let mut c = json!({"k":"spoke","f":fun,"ty":T::NAME,"x":x.id,"a":a.map(cell),"d":d,"kind":"none","el":[],"t":[0,0],"u":[0,0],"fail":[]});
                        let r = cx.run(|| c.clone(), || {
                            let g = dir::<3>(x, sh, &long);
                            let r = if fun == "plane" { m.cast_ray_from_vertex_in_triangle(*f, a[0], &g) } else { m.cast_ray_from_vertex_in_triangle_3(*f, a[0], &g) };
                            r.map(|r| match r {
                                VertexRayResult::CollinearWithEdge(h) => ("along", h, json!([0, 0]), json!([0, 0])),
                                VertexRayResult::EdgeIntersection { half_edge, distance, edge_parameter } => ("edge", half_edge, frac(&distance), frac(&edge_parameter)),
                            })
                        });
                        match r {
                            Ok(None) => {}
                            Ok(Some((kind, h, t, u))) => {
                                c["kind"] = json!(kind);
                                c["el"] = json!([cell(m.half_edges[m.half_edges[h].prev].vertex), cell(m.half_edges[h].vertex)]);
                                c["t"] = t;
                                c["u"] = u;
                            }
                            Err(e) => c["fail"] = json!([e]),
                        }
                        cx.emit(&c);
                    }
                }
            }
            pub fn ray2(cx: &mut Ctx, x: &Xf, k: usize, q: &[Vec<i64>; 4]) {
                let sh = &SHEARS2[k];
                let mut c = json!({"k":"ray2","ty":T::NAME,"x":x.id,"sh":k,"o":q[0],"d":q[1],"a":q[2],"b":q[3],"hit":0,"t":[0,0],"u":[0,0],"fail":[]});
                let r = cx.run(|| c.clone(), || {
                    ray_segment_intersection_2d::<T>(&pt(x, sh, &q[0]), &dir(x, sh, &q[1]), &pt(x, sh, &q[2]), &pt(x, sh, &q[3])).map(|(t, u)| (frac(&t), frac(&u)))
                });
                match r {
                    Ok(None) => {}
                    Ok(Some((t, u))) => {
                        c["hit"] = json!(1);
                        c["t"] = t;
                        c["u"] = u;
                    }
                    Err(e) => c["fail"] = json!([e]),
                }
                cx.emit(&c);
            }
        }
    };
}
imp!(f, CgarF64);
imp!(r, CgarRational);
imp!(l, LazyExact);

macro_rules! per_type {
    ($k:expr, $xd:expr, $xe:expr, $f:ident, $cx:expr, $($a:expr),*) => {{
        let k: usize = $k;
        match k % 3 {
            0 => f::$f($cx, &$xd[k / 3 % $xd.len()], $($a),*),
            1 => r::$f($cx, &$xe[k / 3 % $xe.len()], $($a),*),
            _ => l::$f($cx, &$xe[k / 3 % $xe.len()], $($a),*),
        }
    }};
}

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = crate::mesh::maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    let mut rng = Rng::new(cx.seed);
    for (i, line) in text.lines().enumerate() {
        let s = load(line);
        let hi = s.p.iter().flatten().max().copied().unwrap();
        let mut qs: Vec<Vec<i64>> = vec![];
        if s.dim == 3 {
            for _ in 0..cx.scale(60, 90) {
                let g = *rng.pick(&[12, 6, 6, 6, 3, 1]);
                qs.push((0..3).map(|_| g * rng.range(-1, hi / g + 1)).collect());
            }
        } else {
            for a in (-6..=hi + 6).step_by(6) {
                for b in (-6..=hi + 6).step_by(6) {
                    qs.push(vec![a, b]);
                }
            }
            for _ in 0..20 {
                qs.push(vec![rng.range(-3, hi + 3), rng.range(-3, hi + 3)]);
            }
        }
        let k = rng.below(3);
        per_type!(i, xd, xe, points, cx, k, &s, &qs);
        if s.dim != 3 {
            continue;
        }
        let rs: Vec<(Vec<i64>, Vec<i64>)> = (0..cx.scale(12, 20))
            .map(|_| {
                let g = *rng.pick(&[12, 6, 6, 4, 1]);
                let o = (0..3).map(|_| g * rng.range(-1, hi / g + 1)).collect();
                loop {
                    let d: Vec<i64> = if rng.chance(1, 3) { (0..3).map(|_| rng.range(-1, 1)).collect() } else { (0..3).map(|_| rng.range(-4, 4)).collect() };
                    if d.iter().any(|c| *c != 0) {
                        return (o, d);
                    }
                }
            })
            .collect();
        let gone: Vec<usize> = if rng.chance(1, 2) { vec![] } else { (0..s.f.len()).filter(|_| rng.chance(1, 4)).collect() };
        per_type!(i, xd, xe, rays, cx, k, &s, &gone, &rs, *rng.pick(&[0, 0, -40, 40]));
        let sp: Vec<(usize, usize, Vec<i64>)> = (0..cx.scale(6, 12)).map(|_| (rng.below(s.f.len()), rng.below(3), (0..3).map(|_| rng.range(-3, 3)).collect())).collect();
        per_type!(i, xd, xe, spokes, cx, &s, &sp);
    }
    for i in 0..cx.scale(6000, 30000) {
        let w = *rng.pick(&[1, 2, 4, 7]);
        let mut g = |lo: i64, hi: i64| vec![rng.range(lo, hi), rng.range(lo, hi)];
        let q = [g(0, w), g(-w, w), g(0, w), g(0, w)];
        let k = rng.below(3);
        per_type!(i, xd, xe, ray2, cx, k, &q);
    }
}
