//! Vectors, matrices, planes, segments and barycentric weights of lattice data.
use crate::sc::*;
use crate::util::*;
use cgar::geometry::canonical_edge::CanonicalEdge;
use cgar::geometry::matrix::Matrix;
use cgar::geometry::plane::{Plane, PlaneOps};
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::segment::{Segment, SegmentOps};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::util::barycentric_coords;
use cgar::geometry::vector::{Cross2, Cross3, Vector, VectorOps, vector_cross};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::operations::Zero;
use rug::Rational;
use serde_json::{Value, json};
use std::array::from_fn;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn h<X: Hash>(x: &X) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn ord<X: PartialOrd>(a: &X, b: &X) -> i64 {
    a.partial_cmp(b).map_or(9, |o| o as i64)
}
/// a result of the given degree in the scale, as a fraction in lattice units
fn lat<T: Sc>(v: &T, s: &Rational, deg: i32) -> Value {
    let Some(r) = v.get() else { return json!([0, 0]) };
    let mut y = r;
    for _ in 0..deg.abs() {
        if deg > 0 {
            y /= s
        } else {
            y *= s
        }
    }
    if T::EXACT {
        rj(&y)
    } else {
        match snap(y.to_f64(), 3000) {
            Some(q) => rj(&q),
            None => json!([0, 0]),
        }
    }
}
fn vals(rng: &mut Rng, n: usize, b: i64) -> Vec<i64> {
    (0..n).map(|_| if rng.chance(1, 4) { 0 } else { rng.range(-b, b) }).collect()
}
/// a small rational multiple other than the parts the type cannot hold
fn weight(rng: &mut Rng, exact: bool) -> (i64, i64) {
    (rng.range(-4, 6), if exact { *rng.pick(&[1, 2, 3, 4, 7]) } else { *rng.pick(&[1, 2, 4]) })
}

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            fn mk(v: i64, s: &Rational) -> T {
                T::mk(&Rational::from(s * v))
            }
            fn v<const N: usize>(a: &[i64], s: &Rational) -> Vector<T, N> {
                Vector::new(from_fn(|i| mk(a[i], s)))
            }
            fn vj<const N: usize>(a: &Vector<T, N>, s: &Rational, d: i32) -> Value {
                json!(a.coords().iter().map(|x| lat(x, s, d)).collect::<Vec<_>>())
            }
            fn m<const R: usize, const C: usize>(a: &[Vec<i64>], s: &Rational) -> Matrix<T, R, C> {
                Matrix::new(from_fn(|i| from_fn(|j| mk(a[i][j], s))))
            }
            fn mj<const R: usize, const C: usize>(a: &Matrix<T, R, C>, s: &Rational, d: i32) -> Value {
                json!(a.0.iter().map(|r| r.iter().map(|x| lat(x, s, d)).collect::<Vec<_>>()).collect::<Vec<_>>())
            }
            macro_rules! vec_case {
                ($f:ident, $N:literal, $a:ident, $b:ident, $cross:expr, $more:expr) => {
                    fn $f(cx: &mut Ctx, s: &Rational, sid: usize) {
                        let bound = if cx.rng.chance(1, 2) { 1 } else { 5 };
                        let a = vals(&mut cx.rng, $N, bound);
                        let b = if cx.rng.chance(1, 6) { a.clone() } else { vals(&mut cx.rng, $N, bound) };
                        let u = weight(&mut cx.rng, T::EXACT);
                        let base = json!({"k": "vec", "ty": T::NAME, "s": sid, "a": a, "b": b, "u": [u.0, u.1], "fail": []});
                        let out = cx.run(|| base.clone(), || {
                            let ($a, $b) = (v::<$N>(&a, s), v::<$N>(&b, s));
                            let w = T::mk(&rat(u.0, u.1));
                            let mut ax = $a.clone();
                            ax.axpy(&w, &$b);
                            let round = &(&$a + &$b) - &$b;
                            let mut o = base.clone();
                            o["add"] = vj(&(&$a + &$b), s, 1);
                            o["sub"] = vj(&($a.clone() - $b.clone()), s, 1);
                            o["neg"] = vj(&(-$a.clone()), s, 1);
                            o["dot"] = lat(&$a.dot(&$b), s, 2);
                            o["norm"] = lat(&$a.norm2(), s, 2);
                            o["scale"] = vj(&$a.scale(&w), s, 1);
                            o["axpy"] = vj(&ax, s, 1);
                            o["cross"] = $cross(s, &$a, &$b);
                            let (l, p) = $more(s, &$a, &$b, &w);
                            o["lerp"] = l;
                            o["perp"] = p;
                            o["cmp"] = json!(ord(&$a, &$b));
                            o["eq"] = json!($a == $b);
                            o["same"] = json!(h(&round) == h(&$a) && round == $a);
                            o["zero"] = json!($a.is_zero());
                            o
                        });
                        emit(cx, base, out);
                    }
                };
            }
            fn emit(cx: &mut Ctx, mut base: Value, out: Result<Value, String>) {
                match out {
                    Ok(o) => cx.emit(&o),
                    Err(e) => {
                        base["fail"] = json!([e]);
                        cx.emit(&base)
                    }
                }
            }
            vec_case!(vec2, 2, a, b,
                |s: &Rational, a: &Vector<T, 2>, b: &Vector<T, 2>| json!([lat(&Cross2::cross(a, b), s, 2)]),
                |_s: &Rational, _a: &Vector<T, 2>, _b: &Vector<T, 2>, _u: &T| (json!([]), json!([])));
            vec_case!(vec3, 3, a, b,
                |s: &Rational, a: &Vector<T, 3>, b: &Vector<T, 3>| {
                    let x = Cross3::cross(a, b);
                    if x == vector_cross(a, b) { vj(&x, s, 2) } else { json!([]) }
                },
                |s: &Rational, a: &Vector<T, 3>, b: &Vector<T, 3>, u: &T| (vj(&a.lerp(b, u), s, 1), vj(&a.any_perpendicular(), s, 1)));
            vec_case!(vec4, 4, a, b,
                |_s: &Rational, _a: &Vector<T, 4>, _b: &Vector<T, 4>| json!([]),
                |s: &Rational, a: &Vector<T, 4>, b: &Vector<T, 4>, u: &T| (vj(&a.lerp(b, u), s, 1), vj(&a.any_perpendicular(), s, 0)));

            macro_rules! mat_case {
                ($f:ident, $N:literal, $inv:expr) => {
                    fn $f(cx: &mut Ctx, s: &Rational, sid: usize, given: Option<Vec<Vec<i64>>>) {
                        let bound = *cx.rng.pick(&[1, 2, 3]);
                        let mut a: Vec<Vec<i64>> = given.unwrap_or_else(|| (0..$N).map(|_| vals(&mut cx.rng, $N, bound)).collect());
                        if cx.rng.chance(1, 8) {
                            // dependent rows
                            let (i, j) = (cx.rng.below($N), cx.rng.below($N));
                            if i != j {
                                a[i] = a[j].iter().map(|x| -x).collect();
                            }
                        }
                        let b: Vec<Vec<i64>> = if cx.rng.chance(1, 8) { a.clone() } else { (0..$N).map(|_| vals(&mut cx.rng, $N, bound)).collect() };
                        let w = vals(&mut cx.rng, $N, 4);
                        let base = json!({"k": "mat", "ty": T::NAME, "s": sid, "A": a, "B": b, "v": w, "fail": []});
                        let out = cx.run(|| base.clone(), || {
                            let (ma, mb) = (m::<$N, $N>(&a, s), m::<$N, $N>(&b, s));
                            let vv = v::<$N>(&w, s);
                            let mut o = base.clone();
                            let cols: [Vector<T, $N>; $N] = from_fn(|j| ma.col(j));
                            let rows: [Vector<T, $N>; $N] = from_fn(|j| ma.row(j));
                            o["add"] = mj(&(&ma + &mb), s, 1);
                            o["sub"] = mj(&(ma.clone() - mb.clone()), s, 1);
                            o["neg"] = mj(&(-ma.clone()), s, 1);
                            o["mul"] = mj(&(&ma * &mb), s, 2);
                            o["mv"] = vj(&(&ma * &vv), s, 2);
                            o["flip"] = mj(&ma.transpose(), s, 1);
                            o["cols"] = json!(cols.iter().map(|c| vj(c, s, 1)).collect::<Vec<_>>());
                            o["rows"] = json!(rows.iter().map(|c| vj(c, s, 1)).collect::<Vec<_>>());
                            o["fromcols"] = mj(&Matrix::<T, $N, $N>::from_cols(from_fn(|j| from_fn(|i| cols[j][i].clone()))), s, 1);
                            o["outer"] = mj(&Matrix::<T, $N, $N>::outer(&vv, &rows[0]), s, 2);
                            o["id"] = mj(&Matrix::<T, $N, $N>::identity(), s, 0);
                            o["det"] = lat(&ma.det(), s, $N);
                            o["half"] = mj(&ma.lerp(&mb, &T::mk(&rat(1, 2))).scale(&T::mk(&rat(2, 1))), s, 1);
                            o["inv"] = $inv(s, &ma);
                            o["cmp"] = json!(ord(&ma, &mb));
                            o["eq"] = json!(ma == mb);
                            o
                        });
                        emit(cx, base, out);
                    }
                };
            }
            mat_case!(mat2, 2, |s: &Rational, a: &Matrix<T, 2, 2>| a.inverse().map_or(json!([]), |i| mj(&i, s, -1)));
            mat_case!(mat3, 3, |s: &Rational, a: &Matrix<T, 3, 3>| a.inverse().map_or(json!([]), |i| mj(&i, s, -1)));
            mat_case!(mat4, 4, |_s: &Rational, _a: &Matrix<T, 4, 4>| json!([]));
            fn rect<const R: usize, const C: usize, const K: usize>(cx: &mut Ctx, s: &Rational, sid: usize) {
                let a: Vec<Vec<i64>> = (0..R).map(|_| vals(&mut cx.rng, C, 5)).collect();
                let b: Vec<Vec<i64>> = (0..C).map(|_| vals(&mut cx.rng, K, 5)).collect();
                let w = vals(&mut cx.rng, C, 5);
                let base = json!({"k": "rect", "ty": T::NAME, "s": sid, "A": a, "B": b, "v": w, "fail": []});
                let out = cx.run(|| base.clone(), || {
                    let (ma, mb) = (m::<R, C>(&a, s), m::<C, K>(&b, s));
                    let mut o = base.clone();
                    o["mul"] = mj(&(&ma * &mb), s, 2);
                    o["flip"] = mj(&ma.transpose(), s, 1);
                    o["mv"] = vj(&(&ma * &v::<C>(&w, s)), s, 2);
                    o
                });
                emit(cx, base, out);
            }
            macro_rules! plane_case {
                ($f:ident, $N:literal) => {
                    fn $f(cx: &mut Ctx, s: &Rational, sid: usize) {
                        let p: Vec<Vec<i64>> = (0..$N).map(|_| vals(&mut cx.rng, $N, 2)).collect();
                        // the same points in another order, or a few of them moved
                        let mut q = p.clone();
                        cx.rng.shuffle(&mut q);
                        if cx.rng.chance(1, 2) {
                            let i = cx.rng.below($N);
                            q[i] = vals(&mut cx.rng, $N, 2);
                        }
                        let base = json!({"k": "plane", "ty": T::NAME, "s": sid, "p": p, "q": q, "fail": []});
                        let pts = |p: &Vec<Vec<i64>>| -> Vec<Point<T, $N>> { p.iter().map(|x| Point::new(from_fn(|i| mk(x[i], s)))).collect() };
                        let out = cx.run(|| base.clone(), || {
                            let (pp, qq) = (pts(&p), pts(&q));
                            let a = Plane::<T, $N>::from_points(from_fn(|i| &pp[i]));
                            let b = Plane::<T, $N>::from_points(from_fn(|i| &qq[i]));
                            let mut o = base.clone();
                            let k = $N as i32 - 1;
                            o["n"] = vj(&a.normal, s, k);
                            o["d"] = lat(&a.d, s, k + 1);
                            o["other"] = json!([]);
                            for key in ["origin", "u", "v", "cn"] {
                                o[key] = json!([]);
                            }
                            o["cd"] = json!([0, 0]);
                            if !a.normal.is_zero() {
                                let g = a.origin();
                                o["origin"] = json!(g.coords().iter().map(|x| lat(x, s, 1)).collect::<Vec<_>>());
                                let (u, w) = a.basis();
                                o["u"] = vj(&u, s, k);
                                o["v"] = vj(&w, s, if $N == 3 { 2 * k } else { k });
                                let c = a.canonicalized();
                                o["cn"] = vj(&c.normal, s, 0);
                                o["cd"] = lat(&c.d, s, 1);
                                if !b.normal.is_zero() {
                                    let e = b.canonicalized();
                                    let nums = |x: Value| json!(x.as_array().unwrap().iter().map(|y| y[0].clone()).collect::<Vec<_>>());
                                    let eq = c == e;
                                    o["other"] = json!({"n": nums(vj(&b.normal, s, k)), "d": lat(&b.d, s, k + 1)[0],
                                        "eq": eq, "hash": !eq || !T::EXACT || h(&c) == h(&e)});
                                }
                            }
                            o
                        });
                        emit(cx, base, out);
                    }
                };
            }
            plane_case!(plane2, 2);
            plane_case!(plane3, 3);
            macro_rules! seg_case {
                ($f:ident, $g:ident, $N:literal) => {
                    fn $f(cx: &mut Ctx, x: &Xf) {
                        let a = vals(&mut cx.rng, $N, 4);
                        let mut b = if cx.rng.chance(1, 12) { a.clone() } else { vals(&mut cx.rng, $N, 4) };
                        if cx.rng.chance(1, 2) {
                            // an even step, so that the middle is a lattice point
                            b = a.iter().zip(&b).map(|(p, q)| p + 2 * (q - p)).collect();
                        }
                        let t = cx.rng.range(-1, 3);
                        let p: Vec<i64> = match cx.rng.below(4) {
                            0 => vals(&mut cx.rng, $N, 4),
                            1 => a.clone(),
                            _ => a.iter().zip(&b).map(|(p, q)| p + t * (q - p) / 2).collect(),
                        };
                        let base = json!({"k": "seg", "ty": T::NAME, "x": x.id, "a": a, "b": b, "p": p, "fail": []});
                        let pt = |v: &Vec<i64>| -> Point<T, $N> { Point::new(from_fn(|i| T::mk(&x.fwd(i, v[i])))) };
                        let pj = |p: &Point<T, $N>| json!(p.coords().iter().enumerate().map(|(i, c)| back(x, i, c)).collect::<Vec<_>>());
                        let out = cx.run(|| base.clone(), || {
                            let (pa, pb, pp) = (pt(&a), pt(&b), pt(&p));
                            let sg = Segment::<T, $N>::new(&pa, &pb);
                            let mut o = base.clone();
                            o["len"] = lat(&sg.length2(), &x.scale, 2);
                            o["mid"] = pj(&sg.midpoint());
                            o["mid2"] = pj(&PointOps::midpoint(&pa, &pb));
                            o["t"] = lat(&sg.parameter_of_point(&pp), &x.scale, 0);
                            o["on"] = json!(sg.is_point_on(&pp));
                            o["dir"] = vj(&sg.direction(), &x.scale, 1);
                            o["to"] = vj(&pa.vector_to(&pb), &x.scale, 1);
                            let less = [PointOps::sub(&pb, &pa), &pb - &pa, pb.clone() - pa.clone(), &(&pb + &pb) - &(&pa.clone() + &pb)];
                            o["less"] = json!(less.map(|d| d.coords().iter().map(|c| lat(c, &x.scale, 1)).collect::<Vec<_>>()));
                            o["as"] = pj(&Point::from_vals(pa.as_vector().coords().clone()));
                            let mut other = sg.inverse();
                            let first = other.b().clone();
                            other.invert();
                            o["inv"] = if first == *other.a() && other[0] == sg[0] && other[1] == sg[1] { pj(&first) } else { json!([]) };
                            o["plus"] = pj(&pa.add_vector(&sg.direction()));
                            let (e, f) = (CanonicalEdge::new(&pa, &pb), CanonicalEdge::new(&pb, &pa));
                            o["edge"] = json!([pj(&e.a), pj(&e.b)]);
                            o["edgesame"] = json!(e == f);
                            o["edget"] = lat(&e.parameter_t(&pp), &x.scale, 0);
                            o
                        });
                        emit(cx, base, out);
                    }
                    fn $g(cx: &mut Ctx, x: &Xf) {
                        let q: Vec<Vec<i64>> = (0..4).map(|_| vals(&mut cx.rng, $N, 3)).collect();
                        let base = json!({"k": "bary", "ty": T::NAME, "x": x.id, "a": q[0], "b": q[1], "c": q[2], "p": q[3], "fail": []});
                        let pt = |v: &Vec<i64>| -> Point<T, $N> { Point::new(from_fn(|i| T::mk(&x.fwd(i, v[i])))) };
                        let out = cx.run(|| base.clone(), || {
                            let mut o = base.clone();
                            let r = barycentric_coords(&pt(&q[3]), &pt(&q[0]), &pt(&q[1]), &pt(&q[2]));
                            o["w"] = r.map_or(json!([]), |(u, v, w)| json!([lat(&u, &x.scale, 0), lat(&v, &x.scale, 0), lat(&w, &x.scale, 0)]));
                            o
                        });
                        emit(cx, base, out);
                    }
                };
            }
            seg_case!(seg2, bary2, 2);
            seg_case!(seg3, bary3, 3);

            pub fn go(cx: &mut Ctx) {
                let mut ss = vec![rat(1, 1), rat(1, 2), rat(8, 1), rat(1, 64)];
                let mut xs = xf_double();
                if T::EXACT {
                    ss.extend([rat(1, 3), rat(1_000_003, 1), pow2(-70), rat(1, 1_000_000_007)]);
                    xs.extend(xf_exact());
                }
                let n = cx.scale(500, 4000);
                for k in 0..n {
                    let sid = k % ss.len();
                    let s = ss[sid].clone();
                    vec2(cx, &s, sid);
                    vec3(cx, &s, sid);
                    vec4(cx, &s, sid);
                    mat2(cx, &s, sid, None);
                    mat3(cx, &s, sid, None);
                    if k % 4 == 0 {
                        mat4(cx, &s, sid, None);
                    }
                    rect::<2, 3, 4>(cx, &s, sid);
                    rect::<3, 4, 2>(cx, &s, sid);
                    plane2(cx, &s, sid);
                    plane3(cx, &s, sid);
                    let x = xs[k % xs.len()].clone();
                    for _ in 0..2 {
                        seg2(cx, &x);
                        seg3(cx, &x);
                    }
                    bary2(cx, &x);
                    bary3(cx, &x);
                }
                // every 2x2 matrix over -1..2
                for c in 0..256i64 {
                    let e = |k: u32| (c / 4i64.pow(k)) % 4 - 1;
                    let sid = (c as usize) % ss.len();
                    let s = ss[sid].clone();
                    mat2(cx, &s, sid, Some(vec![vec![e(0), e(1)], vec![e(2), e(3)]]));
                }
            }
        }
    };
}
imp!(f, CgarF64);
imp!(r, CgarRational);
imp!(l, LazyExact);

pub fn run(cx: &mut Ctx) {
    f::go(cx);
    r::go(cx);
    l::go(cx);
}
