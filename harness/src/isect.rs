//! Segment/segment and triangle/triangle intersection, convex hulls.
use crate::all_types;
use crate::pred::{I2, I3, biased2, biased3, emit, f as pf, l as pl, r as pr};
use crate::sc::*;
use crate::util::*;
use cgar::geometry::edge_edge_intersect::edge_edge_intersection_2;
use cgar::geometry::intersection::*;
use cgar::geometry::point::Point;
use cgar::geometry::segment::Segment;
use cgar::geometry::tri_tri_intersect::*;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use serde_json::{Value, json};

macro_rules! imp {
    ($m:ident, $pm:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            use super::$pm::{p2, p3};
            type T = $T;
            pub fn bk<const N: usize>(x: &Xf, p: &Point<T, N>) -> Value {
                Value::Array((0..N).map(|i| back::<T>(x, i, &p[i])).collect())
            }
            fn num(v: &T) -> Value {
                if <T as Sc>::EXACT {
                    rj(&v.get().unwrap())
                } else {
                    match v.get().and_then(|r| snap(r.to_f64(), 200000)) {
                        Some(s) => rj(&s),
                        None => json!([0, 0]),
                    }
                }
            }
            fn seg_r<const N: usize>(x: &Xf, s: &Segment<T, N>) -> Value {
                let (a, b) = (bk(x, &s.a), bk(x, &s.b));
                if a == b { json!({"k":"P","p":[a]}) } else { json!({"k":"S","p":[a,b]}) }
            }
            pub fn seg2(cx: &mut Ctx, x: &Xf, p: &[I2]) {
                let d = || json!({"k":"seg","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    let s1 = Segment::<T, 2>::new(&q[0], &q[1]);
                    let s2 = Segment::<T, 2>::new(&q[2], &q[3]);
                    let ss = match segment_segment_intersection_2(&s1, &s2) {
                        SegmentIntersection2::None => json!({"k":"N","p":[]}),
                        SegmentIntersection2::Point(p) => json!({"k":"P","p":[bk(x, &p)]}),
                        SegmentIntersection2::Overlapping(s) => json!({"k":"S","p":[bk(x, &s.a), bk(x, &s.b)]}),
                    };
                    let si = match segment_intersect_2d(&q[0], &q[1], &q[2], &q[3]) {
                        None => json!({"k":"N","p":[]}),
                        Some(s) => seg_r(x, &s),
                    };
                    let ee = match edge_edge_intersection_2::<T, 2>(&q[0], &q[1], &q[2], &q[3]) {
                        None => json!({"k":"N","p":[]}),
                        Some(p) => json!({"k":"P","p":[bk(x, &p)]}),
                    };
                    json!({"ss":ss,"si":si,"ee":ee})
                });
                emit(cx, d(), r);
            }
            pub fn seg3(cx: &mut Ctx, x: &Xf, p: &[I3]) {
                let d = || json!({"k":"seg","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p3(x, a)).collect();
                    let s1 = Segment::<T, 3>::new(&q[0], &q[1]);
                    let s2 = Segment::<T, 3>::new(&q[2], &q[3]);
                    let ss = match segment_segment_intersection_3(&s1, &s2) {
                        SegmentIntersection3::None => json!({"k":"N","p":[]}),
                        SegmentIntersection3::Point(p) => json!({"k":"P","p":[bk(x, &p)]}),
                        SegmentIntersection3::Overlapping(s) => json!({"k":"S","p":[bk(x, &s.a), bk(x, &s.b)]}),
                    };
                    json!({"ss":ss})
                });
                emit(cx, d(), r);
            }
            fn tt_r(x: &Xf, r: TriTriIntersectionResult<T, 3>) -> Value {
                let s = |s: &Segment<T, 3>| json!([bk(x, &s.a), bk(x, &s.b)]);
                match r {
                    TriTriIntersectionResult::None => json!({"k":"N","s":[]}),
                    TriTriIntersectionResult::Proper(a) => json!({"k":"P","s":[s(&a)]}),
                    TriTriIntersectionResult::Coplanar(a) => json!({"k":"C","s":[s(&a)]}),
                    TriTriIntersectionResult::CoplanarPolygon(v) => json!({"k":"G","s":v.iter().map(s).collect::<Vec<_>>()}),
                }
            }
            fn con(c: &ContactOnTri<T>) -> Value {
                match c {
                    ContactOnTri::Vertex(i) => json!(["V", i]),
                    ContactOnTri::Edge { e, u } => json!(["E", e.0, e.1, num(u)]),
                    ContactOnTri::Interior { bary } => json!(["I", num(&bary.0), num(&bary.1), num(&bary.2)]),
                }
            }
            fn det_r(x: &Xf, r: TriTriIntersectionDetailed<T, 3>) -> Value {
                let s = |e: &[EndpointInfo<T, 3>; 2]| json!([bk(x, &e[0].point), bk(x, &e[1].point)]);
                let c = |e: &[EndpointInfo<T, 3>; 2]| json!([[con(&e[0].on_p), con(&e[0].on_q)], [con(&e[1].on_p), con(&e[1].on_q)]]);
                match r {
                    TriTriIntersectionDetailed::None => json!({"k":"N","s":[],"c":[]}),
                    TriTriIntersectionDetailed::Proper { ends } => json!({"k":"P","s":[s(&ends)],"c":[c(&ends)]}),
                    TriTriIntersectionDetailed::Coplanar { segs } => {
                        json!({"k":"C","s":segs.iter().map(s).collect::<Vec<_>>(),"c":segs.iter().map(c).collect::<Vec<_>>()})
                    }
                }
            }
            pub fn tt(cx: &mut Ctx, x: &Xf, p: &[I3]) {
                let d = || json!({"k":"tt","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p3(x, a)).collect();
                    let a = [&q[0], &q[1], &q[2]];
                    let b = [&q[3], &q[4], &q[5]];
                    let (pa, pb) = (TriPrecomp::new(&a), TriPrecomp::new(&b));
                    json!({
                        "pl": tt_r(x, tri_tri_intersection(&a, &b)),
                        "pre": tt_r(x, tri_tri_intersection_with_precomp(&a, &b, &pa, &pb)),
                        "prp": tt_r(x, tri_tri_intersection_with_precomp_p(&a, &b, &pa)),
                        "det": det_r(x, tri_tri_intersection_detailed(&a, &b)),
                    })
                });
                emit(cx, d(), r);
            }
            pub fn hull(cx: &mut Ctx, x: &Xf, p: &[I2]) {
                let d = || json!({"k":"hull","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    json!(convex_hull_2d_indices(&q))
                });
                emit(cx, d(), r);
            }
        }
    };
}
imp!(f, pf, CgarF64);
imp!(r, pr, CgarRational);
imp!(l, pl, LazyExact);

fn cross(a: I3, b: I3) -> I3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn sub(a: I3, b: I3) -> I3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn degenerate(t: &[I3]) -> bool {
    cross(sub(t[1], t[0]), sub(t[2], t[0])) == [0, 0, 0]
}

pub fn run_seg(cx: &mut Ctx) {
    let (xd, xe) = (xf_double(), xf_exact());
    let side = cx.scale(3, 4) as i64;
    let grid: Vec<I2> = (0..side).flat_map(|a| (0..side).map(move |b| [a, b])).collect();
    let mut k = 0;
    let mut sub = Rng::new(cx.seed ^ 5);
    for a in &grid {
        for b in &grid {
            for c in &grid {
                for d in &grid {
                    if a != b && c != d && (!cx.thorough || sub.chance(1, 2)) {
                        all_types!(cx, k, xd, xe, seg2, &[*a, *b, *c, *d]);
                        k += 1;
                    }
                }
            }
        }
    }
    let cube: Vec<I3> = (0..8).map(|i| [i & 1, (i >> 1) & 1, (i >> 2) & 1]).collect();
    for a in &cube {
        for b in &cube {
            for c in &cube {
                for d in &cube {
                    if a != b && c != d {
                        all_types!(cx, k, xd, xe, seg3, &[*a, *b, *c, *d]);
                        k += 1;
                    }
                }
            }
        }
    }
    let mut g = Rng::new(cx.seed ^ 1234);
    for i in 0..cx.scale(3000, 30000) {
        let m = *g.pick(&[2, 4, 9, 30]);
        let p = biased2(&mut g, 4, m);
        if p[0] != p[1] && p[2] != p[3] {
            all_types!(cx, i + g.below(5), xd, xe, seg2, &p);
        }
        let m = *g.pick(&[2, 3, 4]);
        let p = biased3(&mut g, 4, m);
        if p[0] != p[1] && p[2] != p[3] && p.iter().flatten().all(|c| c.abs() <= 8) {
            all_types!(cx, i + g.below(5), xd, xe, seg3, &p);
        }
    }
}

/// A pair of triangles in one of several relative positions, coordinates within 0..=m.
pub fn tri_pair(g: &mut Rng, m: i64) -> Vec<I3> {
    loop {
        let rp = |g: &mut Rng| [g.range(0, m), g.range(0, m), g.range(0, m)];
        let mut v: Vec<I3> = (0..6).map(|_| rp(g)).collect();
        match g.below(8) {
            0 => {
                // same plane, axis-aligned or tilted
                let a = g.below(3);
                let b = (a + 1) % 3;
                let s = g.range(-1, 1);
                for q in v.iter_mut() {
                    q[a] = if s == 0 { 2 } else { (s * q[b] + if s < 0 { m } else { 0 }).clamp(0, m) };
                }
            }
            1 => {
                // common edge
                v[3] = v[g.below(3)];
                v[4] = v[g.below(3)];
            }
            2 => v[3 + g.below(3)] = v[g.below(3)],
            3 => {
                // a corner of one on an edge line of the other
                let (a, b) = (v[0], v[1]);
                v[4] = [0, 1, 2].map(|k| (a[k] + b[k]) / 2);
            }
            4 => {
                // in-plane edge: two corners of Q in the plane of P
                for q in [3, 4] {
                    let (i, j) = (g.range(-1, 2), g.range(-1, 2));
                    v[q] = [0, 1, 2].map(|k| v[0][k] + i * (v[1][k] - v[0][k]) + j * (v[2][k] - v[0][k]));
                }
            }
            5 => {
                for q in [3, 4, 5] {
                    let (i, j) = (g.range(-1, 1), g.range(-1, 1));
                    v[q] = [0, 1, 2].map(|k| v[0][k] + i * (v[1][k] - v[0][k]) + j * (v[2][k] - v[0][k]));
                }
            }
            6 => {
                // piercing: Q has corners on both sides close to P's centroid
                let c = [0, 1, 2].map(|k| (v[0][k] + v[1][k] + v[2][k]) / 3);
                v[3] = [0, 1, 2].map(|k| (2 * c[k] - v[4][k]).clamp(0, m));
            }
            _ => {}
        }
        if v.iter().flatten().any(|c| *c < 0 || *c > m) || degenerate(&v[0..3]) || degenerate(&v[3..6]) {
            continue;
        }
        if g.chance(1, 2) {
            v.rotate_left(3);
        }
        let r = g.below(3);
        v[0..3].rotate_left(r);
        let r = g.below(3);
        v[3..6].rotate_left(r);
        if g.chance(1, 2) {
            v.swap(3, 4);
        }
        return v;
    }
}

pub fn run_tt(cx: &mut Ctx) {
    let xd = xf_double();
    let xe: Vec<Xf> = xf_exact().into_iter().take(2).collect();
    // every pair of non-degenerate triangles on the unit cube's corners, sampled in quick runs
    let cube: Vec<I3> = (0..8).map(|i| [i & 1, (i >> 1) & 1, (i >> 2) & 1]).collect();
    let mut k = 0;
    let mut tris = vec![];
    for a in 0..8 {
        for b in 0..8 {
            for c in 0..8 {
                let t = vec![cube[a], cube[b], cube[c]];
                if !degenerate(&t) {
                    tris.push(t);
                }
            }
        }
    }
    let mut g = Rng::new(cx.seed ^ 4321);
    for a in tris.iter() {
        for b in tris.iter() {
            let keep = if cx.thorough { g.chance(1, 6) } else { g.chance(1, 60) };
            if keep {
                let p: Vec<I3> = a.iter().chain(b.iter()).cloned().collect();
                all_types!(cx, k, xd, xe, tt, &p);
                k += 1;
            }
        }
    }
    for i in 0..cx.scale(6000, 60000) {
        let m = *g.pick(&[2, 4, 4, 5]);
        let p = tri_pair(&mut g, m);
        all_types!(cx, i + g.below(5), xd, xe, tt, &p);
    }
}

pub fn run_hull(cx: &mut Ctx) {
    let (xd, xe) = (xf_double(), xf_exact());
    let mut g = Rng::new(cx.seed ^ 555);
    let mut i = 0;
    // every subset of the 3x3 grid with at least 3 points, in a seeded order
    let grid: Vec<I2> = (0..3).flat_map(|a| (0..3).map(move |b| [a, b])).collect();
    for mask in 0u32..512 {
        let mut p: Vec<I2> = (0..9).filter(|b| mask >> b & 1 == 1).map(|b| grid[b as usize]).collect();
        g.shuffle(&mut p);
        if p.len() >= 3 && !collinear_all(&p) {
            all_types!(cx, i, xd, xe, hull, &p);
            i += 1;
        }
    }
    for _ in 0..cx.scale(2000, 20000) {
        let m = *g.pick(&[2, 4, 9]);
        let n = 3 + g.below(6);
        let p = biased2(&mut g, n, m);
        if !collinear_all(&p) {
            all_types!(cx, i + g.below(5), xd, xe, hull, &p);
            i += 1;
        }
    }
}
fn collinear_all(p: &[I2]) -> bool {
    p.iter().all(|a| p.iter().all(|b| (a[0] - p[0][0]) * (b[1] - p[0][1]) == (a[1] - p[0][1]) * (b[0] - p[0][0])))
}
