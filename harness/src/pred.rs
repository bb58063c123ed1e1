//! Kernel predicates on lattice configurations.
use crate::sc::*;
use crate::util::*;
use cgar::geometry::Segment2;
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::vector::{Vector, VectorOps};
use cgar::kernel::f64_kernel::F64Kernel;
use cgar::geometry::segment::{Segment, Segment3};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::kernel::predicates::*;
use cgar::kernel::*;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use cgar::operations::Zero;
use serde_json::{Value, json};

pub type I2 = [i64; 2];
pub type I3 = [i64; 3];

fn tp(t: TrianglePoint) -> &'static str {
    match t {
        TrianglePoint::Off => "Off",
        TrianglePoint::OnEdge => "OnEdge",
        TrianglePoint::OnVertex => "OnVertex",
        TrianglePoint::In => "In",
    }
}

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            pub fn p2(x: &Xf, p: &I2) -> Point<T, 2> {
                Point::<T, 2>::from_vals([<T as Sc>::mk(&x.fwd(0, p[0])), <T as Sc>::mk(&x.fwd(1, p[1]))])
            }
            pub fn p3(x: &Xf, p: &I3) -> Point<T, 3> {
                Point::<T, 3>::from_vals([
                    <T as Sc>::mk(&x.fwd(0, p[0])),
                    <T as Sc>::mk(&x.fwd(1, p[1])),
                    <T as Sc>::mk(&x.fwd(2, p[2])),
                ])
            }
            fn sg(v: &T) -> i64 {
                if v.is_positive() { 1 } else if v.is_negative() { -1 } else { 0 }
            }
            fn uj(u: Option<T>) -> Value {
                match u {
                    None => json!([]),
                    Some(v) => {
                        if <T as Sc>::EXACT {
                            rj(&v.get().unwrap())
                        } else {
                            match v.get().and_then(|r| snap(r.to_f64(), 20000)) {
                                Some(s) => rj(&s),
                                None => json!([0, 0]),
                            }
                        }
                    }
                }
            }
            /// the parameter under a tolerance of 9/7 lattice units, where the specification can follow it
            fn near<const N: usize>(x: &Xf, small: bool, q: &[Point<T, N>]) -> Value
            where
                Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
                Vector<T, N>: VectorOps<T, N>,
            {
                if !small || (!<T as Sc>::EXACT && N == 3) {
                    return json!([]);
                }
                let tol = <T as Sc>::mk(&(rug::Rational::from(&x.scale * rat(9, 7))));
                json!([uj(point_u_on_segment_with_tolerance(&q[1], &q[2], &q[0], &tol))])
            }
            pub fn orient2(cx: &mut Ctx, x: &Xf, p: &[I2]) {
                let d = || json!({"k":"orient2","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    sg(&orient::<T, 2>(&[q[0].clone(), q[1].clone(), q[2].clone()]))
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
            pub fn orient2tol(cx: &mut Ctx, x: &Xf, p: &[I2]) {
                let d = || json!({"k":"orient2","t":concat!("tol-", stringify!($m)),"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    sg(&orient2d::<T>(&q[0], &q[1], &q[2]))
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
            pub fn incirc(cx: &mut Ctx, x: &Xf, p: &[I2]) {
                let d = || json!({"k":"incircle","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    sg(&incircle::<T>(&q[0], &q[1], &q[2], &q[3]))
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
            /// coordinates beyond the specification's plain integers, sent as limbs
            pub fn wide2(cx: &mut Ctx, k: &str, p: &[I2]) {
                let x = &xf_double()[0];
                let d = || json!({"k":k,"t":T::NAME,"x":0,"p":p.iter().map(|q| q.iter().map(|c| limbs(*c)).collect()).collect::<Vec<Vec<_>>>()});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    sg(&match k {
                        "worient2" => orient::<T, 2>(&[q[0].clone(), q[1].clone(), q[2].clone()]),
                        "worient2d" => orient2d::<T>(&q[0], &q[1], &q[2]),
                        _ => incircle::<T>(&q[0], &q[1], &q[2], &q[3]),
                    })
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
            pub fn wide3(cx: &mut Ctx, p: &[I3]) {
                let x = &xf_double()[0];
                let d = || json!({"k":"worient3","t":T::NAME,"x":0,"p":p.iter().map(|q| q.iter().map(|c| limbs(*c)).collect()).collect::<Vec<Vec<_>>>()});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p3(x, a)).collect();
                    sg(&orient::<T, 3>(&[q[0].clone(), q[1].clone(), q[2].clone(), q[3].clone()]))
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
            pub fn orient3(cx: &mut Ctx, x: &Xf, p: &[I3]) {
                let d = || json!({"k":"orient3","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p3(x, a)).collect();
                    sg(&orient::<T, 3>(&[q[0].clone(), q[1].clone(), q[2].clone(), q[3].clone()]))
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
            /// p = [point, a, b]
            pub fn line2(cx: &mut Ctx, x: &Xf, p: &[I2]) {
                let d = || json!({"k":"line","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    let s = Segment2::<T>::new(&q[1], &q[2]);
                    json!({"eq": are_equal(&q[0], &q[1]), "col": are_collinear(&q[1], &q[2], &q[0]),
                        "deg": triangle_is_degenerate(&q[0], &q[1], &q[2]),
                        "on": is_point_on_segment(&q[0], &s),
                        "onr": is_point_on_segment(&q[0], &Segment2::<T>::new(&q[2], &q[1])),
                        "u": uj(point_u_on_segment(&q[1], &q[2], &q[0])),
                        "ut": near(x, p.iter().flatten().all(|c| c.abs() <= 12), &q)})
                });
                emit(cx, d(), r);
            }
            pub fn line3(cx: &mut Ctx, x: &Xf, p: &[I3]) {
                let d = || json!({"k":"line","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p3(x, a)).collect();
                    let s: Segment3<T> = Segment::new(&q[1], &q[2]);
                    json!({"eq": are_equal(&q[0], &q[1]), "col": are_collinear(&q[1], &q[2], &q[0]),
                        "deg": triangle_is_degenerate(&q[0], &q[1], &q[2]),
                        "on": is_point_on_segment(&q[0], &s),
                        "onr": is_point_on_segment(&q[0], &Segment::new(&q[2], &q[1])),
                        "u": uj(point_u_on_segment(&q[1], &q[2], &q[0])),
                        "ut": near(x, p.iter().flatten().all(|c| c.abs() <= 12), &q)})
                });
                emit(cx, d(), r);
            }
            pub fn tri2(cx: &mut Ctx, x: &Xf, p: &[I2]) {
                let d = || json!({"k":"tri2","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p2(x, a)).collect();
                    tp(point_in_or_on_triangle(&q[0], &q[1], &q[2], &q[3]))
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
            pub fn tri3(cx: &mut Ctx, x: &Xf, p: &[I3]) {
                let d = || json!({"k":"tri3","t":T::NAME,"x":x.id,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<_> = p.iter().map(|a| p3(x, a)).collect();
                    tp(point_in_or_on_triangle(&q[0], &q[1], &q[2], &q[3]))
                });
                emit(cx, d(), r.map(|v| json!(v)));
            }
        }
    };
}
imp!(f, CgarF64);
imp!(r, CgarRational);
imp!(l, LazyExact);

/// the packaged double kernel
fn kern2(cx: &mut Ctx, x: &Xf, p: &[I2]) {
    let d = || json!({"k":"orient2","t":"kernel","x":x.id,"p":p});
    let r = cx.run(d, || {
        let q: Vec<_> = p.iter().map(|a| f::p2(x, a)).collect();
        let v = F64Kernel::orient2d(&q[0], &q[1], &q[2]).0;
        json!(if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 0 })
    });
    emit(cx, d(), r);
}
fn kern3(cx: &mut Ctx, x: &Xf, p: &[I3]) {
    let d = || json!({"k":"orient3","t":"kernel","x":x.id,"p":p});
    let r = cx.run(d, || {
        let q: Vec<_> = p.iter().map(|a| f::p3(x, a)).collect();
        let v = F64Kernel::orient3d(&q[0], &q[1], &q[2], &q[3]).0;
        json!(if v > 0.0 { 1 } else if v < 0.0 { -1 } else { 0 })
    });
    emit(cx, d(), r);
}

pub fn emit(cx: &mut Ctx, mut d: Value, r: Result<Value, String>) {
    match r {
        Ok(v) => d["r"] = v,
        Err(e) => d["panic"] = json!(e),
    }
    cx.emit(&d);
}

/// Call one operation for every scalar type under a lattice-to-space map that
/// the type represents exactly.
#[macro_export]
macro_rules! all_types {
    ($cx:expr, $i:expr, $xd:expr, $xe:expr, $f:ident, $p:expr) => {{
        let k = $i;
        f::$f($cx, &$xd[k % $xd.len()], $p);
        let n = $xd.len() + $xe.len();
        let j = (k / 2) % n;
        let x = if j < $xd.len() { &$xd[j] } else { &$xe[j - $xd.len()] };
        r::$f($cx, x, $p);
        let j = (k / 3) % n;
        let x = if j < $xd.len() { &$xd[j] } else { &$xe[j - $xd.len()] };
        l::$f($cx, x, $p);
    }};
}

fn r2(g: &mut Rng, m: i64) -> I2 {
    [g.range(-m, m), g.range(-m, m)]
}
fn r3(g: &mut Rng, m: i64) -> I3 {
    [g.range(-m, m), g.range(-m, m), g.range(-m, m)]
}
/// A configuration biased towards degeneracy: some points are combinations of others.
pub fn biased3(g: &mut Rng, n: usize, m: i64) -> Vec<I3> {
    let mut v: Vec<I3> = vec![];
    for i in 0..n {
        let c = g.below(8);
        if i >= 1 && c == 0 {
            v.push(v[g.below(i)]);
        } else if i >= 2 && c <= 3 {
            let (a, b) = (v[g.below(i)], v[g.below(i)]);
            let t = g.range(-1, 2);
            v.push([0, 1, 2].map(|k| a[k] + t * (b[k] - a[k])));
        } else if i >= 3 && c <= 5 {
            let (a, b, d) = (v[g.below(i)], v[g.below(i)], v[g.below(i)]);
            v.push([0, 1, 2].map(|k| a[k] + (b[k] - a[k]) + (d[k] - a[k])));
        } else {
            v.push(r3(g, m));
        }
        // keep magnitudes within the specification's integer range
        let l = v.len() - 1;
        if v[l].iter().any(|c| c.abs() > 3 * m) {
            v[l] = r3(g, m);
        }
    }
    v
}
pub fn biased2(g: &mut Rng, n: usize, m: i64) -> Vec<I2> {
    let mut v: Vec<I2> = vec![];
    for i in 0..n {
        let c = g.below(8);
        if i >= 1 && c == 0 {
            v.push(v[g.below(i)]);
        } else if i >= 2 && c <= 4 {
            let (a, b) = (v[g.below(i)], v[g.below(i)]);
            let t = g.range(-1, 2);
            v.push([0, 1].map(|k| a[k] + t * (b[k] - a[k])));
        } else {
            v.push(r2(g, m));
        }
        let l = v.len() - 1;
        if v[l].iter().any(|c| c.abs() > 3 * m) {
            v[l] = r2(g, m);
        }
    }
    v
}

/// little-endian signed limbs to base 10000
pub fn limbs(mut v: i64) -> Vec<i64> {
    let mut out = vec![];
    while v != 0 {
        out.push(v % 10000);
        v /= 10000;
    }
    out
}
fn egcd(a: i64, b: i64) -> (i64, i64, i64) {
    if b == 0 { (a, 1, 0) } else { let (g, x, y) = egcd(b, a % b); (g, y, x - (a / b) * y) }
}
/// Three points with a prescribed small determinant and coordinates up to about m.
fn sliver2(g: &mut Rng, m: i64, det: i64) -> [I2; 3] {
    loop {
        let a = r2(g, m);
        let u = r2(g, m / 2);
        let (gc, x, y) = egcd(u[0], u[1]);
        if gc.abs() != 1 {
            continue;
        }
        // u x v = u0*v1 - u1*v0 = det
        let t = g.range(-2, 2);
        let (v0, v1) = (-y * det * gc + t * u[0], x * det * gc + t * u[1]);
        return [a, [a[0] + u[0], a[1] + u[1]], [a[0] + v0, a[1] + v1]];
    }
}
fn run_wide_orient(cx: &mut Ctx, g: &mut Rng) {
    for i in 0..cx.scale(1500, 15000) {
        let m = *g.pick(&[1000i64, 50_000, 3_000_000, 100_000_000]);
        let det = *g.pick(&[0, 1, -1, 2, -3]);
        let p = sliver2(g, m, det);
        r::wide2(cx, "worient2", &p);
        l::wide2(cx, "worient2", &p);
        if i % 2 == 0 { r::wide2(cx, "worient2d", &p) } else { l::wide2(cx, "worient2d", &p) }
        let m = *g.pick(&[1000i64, 50_000, 3_000_000]);
        let (a, u, v) = (r3(g, m), r3(g, m), r3(g, m));
        let (s, t) = (g.range(-3, 3), g.range(-3, 3));
        let mut w = [0, 1, 2].map(|k| s * u[k] + t * v[k]);
        if g.chance(2, 3) {
            w[g.below(3)] += *g.pick(&[1, -1]);
        }
        let add = |v: I3| [0, 1, 2].map(|k| a[k] + v[k]);
        let mut q = [a, add(u), add(v), add(w)];
        q.rotate_left(i % 4);
        r::wide3(cx, &q);
        l::wide3(cx, &q);
    }
}
fn run_wide_circle(cx: &mut Ctx, g: &mut Rng) {
    let circle: [I2; 12] = [[5, 0], [4, 3], [3, 4], [0, 5], [-3, 4], [-4, 3], [-5, 0], [-4, -3], [-3, -4], [0, -5], [3, -4], [4, -3]];
    for i in 0..cx.scale(1500, 15000) {
        let mut p: Vec<I2>;
        if i % 3 == 0 {
            // on a common circle, then perhaps one step off it
            let k = g.range(1, 700);
            let c = r2(g, 3000);
            p = (0..4).map(|_| *g.pick(&circle)).map(|q| [c[0] + k * q[0], c[1] + k * q[1]]).collect();
            if g.chance(1, 2) {
                p[g.below(4)][g.below(2)] += *g.pick(&[1, -1]);
            }
        } else {
            // a thin triangle and the lattice point nearest to its huge circle
            let det = *g.pick(&[1, -1, 2, 5]);
            let t = sliver2(g, 1500, det);
            let mut best: Option<(i128, I2)> = None;
            for _ in 0..60 {
                let j = g.range(-3, 3);
                let e = r2(g, 3);
                let d = [t[0][0] + j * (t[1][0] - t[0][0]) + e[0], t[0][1] + j * (t[1][1] - t[0][1]) + e[1]];
                let q = t.map(|a| [(a[0] - d[0]) as i128, (a[1] - d[1]) as i128]);
                let n = q.map(|v| v[0] * v[0] + v[1] * v[1]);
                let v = q[0][0] * (q[1][1] * n[2] - n[1] * q[2][1]) - q[0][1] * (q[1][0] * n[2] - n[1] * q[2][0]) + n[0] * (q[1][0] * q[2][1] - q[1][1] * q[2][0]);
                if !t.contains(&d) && v != 0 && best.is_none_or(|b| v.abs() < b.0) {
                    best = Some((v.abs(), d));
                }
            }
            p = t.to_vec();
            p.push(best.map_or([0, 0], |b| b.1));
        }
        // the guard of the in-circle test is relative to the extent; stay where it cannot act
        if p.iter().flatten().any(|c| c.abs() > 8000) {
            continue;
        }
        let h = g.below(4);
        p.rotate_left(h);
        if i % 2 == 0 { r::wide2(cx, "wincircle", &p) } else { l::wide2(cx, "wincircle", &p) }
    }
}

pub fn run_orient(cx: &mut Ctx) {
    let (xd, xe) = (xf_double(), xf_exact());
    let side = cx.scale(3, 4) as i64;
    let grid: Vec<I2> = (0..side).flat_map(|a| (0..side).map(move |b| [a, b])).collect();
    let mut k = 0;
    for a in &grid {
        for b in &grid {
            for c in &grid {
                all_types!(cx, k, xd, xe, orient2, &[*a, *b, *c]);
                f::orient2tol(cx, &xd[k % xd.len()], &[*a, *b, *c]);
                r::orient2tol(cx, &xd[k % xd.len()], &[*a, *b, *c]);
                l::orient2tol(cx, &xd[k % xd.len()], &[*a, *b, *c]);
                k += 1;
            }
        }
    }
    let cube: Vec<I3> = (0..8).map(|i| [i & 1, (i >> 1) & 1, (i >> 2) & 1]).collect();
    for a in &cube {
        for b in &cube {
            for c in &cube {
                for d in &cube {
                    all_types!(cx, k, xd, xe, orient3, &[*a, *b, *c, *d]);
                    k += 1;
                }
            }
        }
    }
    let mut g = Rng::new(cx.seed);
    for i in 0..cx.scale(4000, 40000) {
        let m = *g.pick(&[2, 5, 20, 300]);
        let p = biased2(&mut g, 3, m);
        all_types!(cx, i + g.below(5), xd, xe, orient2, &p);
        f::orient2tol(cx, &xd[i % xd.len()], &p);
        kern2(cx, &xd[i % xd.len()], &p);
        let m = *g.pick(&[2, 4, 20]);
        let p = biased3(&mut g, 4, m);
        all_types!(cx, i + g.below(5), xd, xe, orient3, &p);
        kern3(cx, &xd[i % xd.len()], &p);
    }
    run_wide_orient(cx, &mut g);
}

fn incirc_det(t: &[I2; 3], d: I2) -> i64 {
    let q = t.map(|a| [a[0] - d[0], a[1] - d[1]]);
    let n = q.map(|v| v[0] * v[0] + v[1] * v[1]);
    q[0][0] * (q[1][1] * n[2] - n[1] * q[2][1]) - q[0][1] * (q[1][0] * n[2] - n[1] * q[2][0]) + n[0] * (q[1][0] * q[2][1] - q[1][1] * q[2][0])
}
/// A lattice point other than the corners with the smallest in-circle determinant: zero if `on`.
fn near_circle(t: &[I2; 3], m: i64, on: bool) -> Option<I2> {
    let mut best: Option<(i64, I2)> = None;
    for x in -m..=m {
        for y in -m..=m {
            let v = incirc_det(t, [x, y]);
            if !t.contains(&[x, y]) && (v == 0) == on && best.is_none_or(|b| v.abs() < b.0 || (on && (x + y) % 3 == 0)) {
                best = Some((v.abs(), [x, y]));
            }
        }
    }
    best.map(|b| b.1)
}

pub fn run_circle(cx: &mut Ctx) {
    let xd = xf_double();
    let mut g = Rng::new(cx.seed ^ 31);
    let grid: Vec<I2> = (0..3).flat_map(|a| (0..3).map(move |b| [a, b])).collect();
    let mut i = 0;
    for a in &grid {
        for b in &grid {
            for c in &grid {
                for d in &grid {
                    let p = [*a, *b, *c, *d];
                    match i % 3 {
                        0 => f::incirc(cx, &xd[0], &p),
                        1 => r::incirc(cx, &xd[(i / 3) % 4], &p),
                        _ => l::incirc(cx, &xd[(i / 3) % 4], &p),
                    }
                    i += 1;
                }
            }
        }
    }
    for i in 0..cx.scale(1500, 15000) {
        // the lattice point closest to a large circle without being on it, and one on it if any
        let m = *g.pick(&[12, 40, 48]);
        let (a, b, c) = (r2(&mut g, m), r2(&mut g, m), r2(&mut g, m));
        for on in [false, true] {
            if let Some(d) = near_circle(&[a, b, c], m, on) {
                let mut p = vec![a, b, c, d];
                p.rotate_left(i % 3);
                f::incirc(cx, &xd[0], &p);
                r::incirc(cx, &xd[i % 4], &p);
                l::incirc(cx, &xd[(i / 2) % 4], &p);
            }
        }
    }
    for i in 0..cx.scale(4000, 40000) {
        let m = *g.pick(&[2, 4, 12]);
        let p = biased2(&mut g, 4, m);
        f::incirc(cx, &xd[0], &p);
        r::incirc(cx, &xd[i % 4], &p);
        l::incirc(cx, &xd[(i / 2) % 4], &p);
    }
    run_wide_circle(cx, &mut g);
}

pub fn run_line(cx: &mut Ctx) {
    let (xd, xe) = (xf_double(), xf_exact());
    let side = cx.scale(3, 4) as i64;
    let grid: Vec<I2> = (0..side).flat_map(|a| (0..side).map(move |b| [a, b])).collect();
    let mut k = 0;
    for a in &grid {
        for b in &grid {
            for c in &grid {
                if b != c {
                    all_types!(cx, k, xd, xe, line2, &[*a, *b, *c]);
                    k += 1;
                }
            }
        }
    }
    let cube: Vec<I3> = (0..8).map(|i| [i & 1, (i >> 1) & 1, (i >> 2) & 1]).collect();
    for a in &cube {
        for b in &cube {
            for c in &cube {
                if b != c {
                    all_types!(cx, k, xd, xe, line3, &[*a, *b, *c]);
                    k += 1;
                }
            }
        }
    }
    let mut g = Rng::new(cx.seed ^ 77);
    for i in 0..cx.scale(4000, 40000) {
        let m = *g.pick(&[2, 5, 20, 100]);
        let mut p = biased2(&mut g, 3, m);
        p.reverse();
        if p[1] != p[2] {
            all_types!(cx, i + g.below(5), xd, xe, line2, &p);
        }
        let m = *g.pick(&[2, 4, 20]);
        let mut p = biased3(&mut g, 3, m);
        p.reverse();
        if p[1] != p[2] {
            all_types!(cx, i + g.below(5), xd, xe, line3, &p);
        }
    }
}

pub fn run_tri(cx: &mut Ctx) {
    let (xd, xe) = (xf_double(), xf_exact());
    let grid: Vec<I2> = (0..3).flat_map(|a| (0..3).map(move |b| [a, b])).collect();
    let mut k = 0;
    for p in &grid {
        for a in &grid {
            for b in &grid {
                for c in &grid {
                    all_types!(cx, k, xd, xe, tri2, &[*p, *a, *b, *c]);
                    k += 1;
                }
            }
        }
    }
    let mut g = Rng::new(cx.seed ^ 99);
    for i in 0..cx.scale(4000, 40000) {
        let m = *g.pick(&[3, 6, 20]);
        let mut p = biased2(&mut g, 4, m);
        p.reverse();
        all_types!(cx, i + g.below(5), xd, xe, tri2, &p);
        // coplanar point: p = a + i*(b-a) + j*(c-a) over a tilted triangle
        let t = [r3(&mut g, 4), r3(&mut g, 4), r3(&mut g, 4)];
        let (u, v) = (g.range(-1, 3), g.range(-1, 3));
        let e: [I3; 3] = [t[0], [0, 1, 2].map(|q| t[0][q] + 2 * (t[1][q] - t[0][q])), [0, 1, 2].map(|q| t[0][q] + 2 * (t[2][q] - t[0][q]))];
        let pt = [0, 1, 2].map(|q| t[0][q] + u * (t[1][q] - t[0][q]) + v * (t[2][q] - t[0][q]));
        all_types!(cx, i + g.below(5), xd, xe, tri3, &[pt, e[0], e[1], e[2]]);
    }
}
