//! Boxes and the box tree.
use crate::sc::*;
use crate::util::*;
use cgar::geometry::Aabb;
use cgar::geometry::AabbTree;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::kernel::predicates::{bbox_approx2d, bbox_approx3d, bbox2d, bbox3d};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use rug::Rational;
use serde_json::{Value, json};

const OFF: i64 = -99999;

fn int(r: &Rational) -> i64 {
    if r.is_integer() { r.numer().to_i32().map_or(OFF, |v| v as i64) } else { OFF }
}
fn coord<T: Sc>(x: &Xf, axis: usize, v: &T) -> i64 {
    match v.get() {
        None => OFF,
        Some(r) => {
            let y = x.inv(axis, &r);
            if T::EXACT { int(&y) } else { snap(y.to_f64(), 64).map_or(OFF, |s| int(&s)) }
        }
    }
}
fn emit(cx: &mut Ctx, mut e: Value, r: Result<Value, String>) {
    match r {
        Ok(v) => e["r"] = v,
        Err(m) => e["panic"] = json!(m),
    }
    cx.emit(&e);
}
type V = Vec<i64>;
fn vecs(v: &Value) -> V {
    v.as_array().unwrap().iter().map(|c| c.as_i64().unwrap()).collect()
}

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            type B<const N: usize> = Aabb<T, N, Point<T, N>>;
            fn pt<const N: usize>(x: &Xf, p: &[i64]) -> Point<T, N> {
                Point::from_vals(std::array::from_fn(|i| <T as Sc>::mk(&x.fwd(i, p[i]))))
            }
            fn pj<const N: usize>(x: &Xf, p: &Point<T, N>) -> Value {
                json!((0..N).map(|i| coord(x, i, &p.coords[i])).collect::<Vec<_>>())
            }
            fn bj<const N: usize>(x: &Xf, b: &B<N>) -> Value {
                json!([pj(x, &b.min), pj(x, &b.max)])
            }
            fn bx<const N: usize>(x: &Xf, b: &Value) -> B<N> {
                Aabb::new(pt(x, &vecs(&b[0])), pt(x, &vecs(&b[1])))
            }
            pub fn tree<const N: usize>(cx: &mut Ctx, x: &Xf, ops: &Value) {
                let d = || json!({"k":"tree","t":T::NAME,"x":x.id,"dim":N,"ops":ops});
                let r = cx.run(d, || {
                    let mut t: Option<AabbTree<T, N, Point<T, N>, usize>> = None;
                    let mut out = vec![];
                    for op in ops.as_array().unwrap() {
                        let ds = vecs(&op["d"]);
                        let mut n = 0usize;
                        match op["o"].as_str().unwrap() {
                            "build" => {
                                let items: Vec<_> =
                                    ds.iter().enumerate().map(|(i, d)| (bx::<N>(x, &op["b"][i]), *d as usize)).collect();
                                t = Some(if ds.len() % 2 == 0 {
                                    let (tr, look) = AabbTree::build_with_lookup(items.clone());
                                    // the lookup lists the boxes in the order given
                                    n = items.len() - look.iter().zip(&items).filter(|(a, b)| bj(x, a) == bj(x, &b.0)).count();
                                    if look.len() != items.len() {
                                        n = 99;
                                    }
                                    tr
                                } else {
                                    AabbTree::build(items)
                                });
                            }
                            "ins" => t.as_mut().unwrap().insert(bx(x, &op["b"][0]), ds[0] as usize),
                            "inv" => n = t.as_mut().unwrap().invalidate(&(ds[0] as usize)),
                            _ => {
                                if let Some(c) = t.as_mut().unwrap().compact() {
                                    n = 1;
                                    t = Some(c);
                                }
                            }
                        }
                        let tr = t.as_ref().unwrap();
                        let q = bx::<N>(x, &op["q"]);
                        let (mut a, mut l) = (vec![], vec![]);
                        tr.query(&q, &mut a);
                        tr.query_valid(&q, &mut l);
                        let g: Vec<Value> = tr.get_aabb(ds[0] as usize).iter().map(|b| bj(x, b)).collect();
                        out.push(json!({"n":n,"all":a,"live":l,"rb":tr.needs_rebuild(),"box":g}));
                    }
                    json!(out)
                });
                emit(cx, d(), r);
            }
            pub fn alg<const N: usize>(cx: &mut Ctx, x: &Xf, p: &[V]) {
                let d = || json!({"k":"alg","t":T::NAME,"x":x.id,"dim":N,"p":p});
                let r = cx.run(d, || {
                    let q: Vec<Point<T, N>> = p.iter().map(|a| pt(x, a)).collect();
                    let a: B<N> = Aabb::from_points(&q[0], &q[1]);
                    let b: B<N> = Aabb::from_points(&q[2], &q[3]);
                    let apx = |o: Option<bool>| o.map_or("unk", |v| if v { "yes" } else { "no" });
                    // twice the centre, minus the shift once more, is the sum of the corners
                    let mid: Vec<i64> = (0..N)
                        .map(|i| match a.center(i).get() {
                            None => OFF,
                            Some(c) => {
                                let y = x.inv(i, &c) * 2;
                                if <T as Sc>::EXACT { int(&y) } else { snap(y.to_f64(), 64).map_or(OFF, |s| int(&s)) }
                            }
                        })
                        .collect();
                    json!({"span": bj(x, &a), "join": bj(x, &a.union(&b)), "meets": a.intersects(&b), "meetsr": b.intersects(&a),
                           "approx": apx(a.intersects_approx(&b)), "approxr": apx(b.intersects_approx(&a)), "long": a.longest_axis(),
                           "grow": bj(x, &a.inflated(&<T as Sc>::mk(&x.scale))), "mid": mid})
                });
                emit(cx, d(), r);
            }
            fn pair<const N: usize>(x: &Xf, b: (Point<T, N>, Point<T, N>)) -> Value {
                json!([pj(x, &b.0), pj(x, &b.1)])
            }
            pub fn bbox<const N: usize>(cx: &mut Ctx, x: &Xf, p: &[V]) {
                let d = || json!({"k":"bbox","t":T::NAME,"x":x.id,"dim":N,"p":p});
                let r = cx.run(d, || {
                    let (e, a) = if N == 2 {
                        let q: Vec<Point<T, 2>> = p.iter().map(|a| pt(x, a)).collect();
                        (pair(x, bbox2d(&q)), if x.id < 10 { pair(x, bbox_approx2d(&q)) } else { json!([]) })
                    } else {
                        let q: Vec<Point<T, 3>> = p.iter().map(|a| pt(x, a)).collect();
                        (pair(x, bbox3d(&q)), if x.id < 10 { pair(x, bbox_approx3d(&q)) } else { json!([]) })
                    };
                    // the approximate box is exact where the coordinates are doubles
                    json!({"exact": e, "approx": a})
                });
                emit(cx, d(), r);
            }
        }
    };
}
imp!(f, CgarF64);
imp!(r, CgarRational);
imp!(l, LazyExact);

fn maps() -> (Vec<Xf>, Vec<Xf>) {
    let mut xe = xf_exact();
    // beyond the range of doubles
    xe.push(Xf { id: 14, scale: pow2(1030), shift: [rat(1, 1), rat(-1, 1), rat(0, 1)] });
    xe.push(Xf { id: 15, scale: pow2(-1080), shift: [rat(0, 1), rat(0, 1), rat(0, 1)] });
    (xf_double(), xe)
}
macro_rules! all_types {
    ($cx:expr, $i:expr, $xd:expr, $xe:expr, $f:ident, $n:literal, $p:expr) => {{
        let k = $i;
        f::$f::<$n>($cx, &$xd[k % $xd.len()], $p);
        let n = $xd.len() + $xe.len();
        for (s, which) in [(k / 2, 0), (k / 3, 1)] {
            let j = s % n;
            let x = if j < $xd.len() { &$xd[j] } else { &$xe[j - $xd.len()] };
            if which == 0 { r::$f::<$n>($cx, x, $p) } else { l::$f::<$n>($cx, x, $p) }
        }
    }};
}

pub fn run_tree(cx: &mut Ctx) {
    let (xd, xe) = maps();
    if let Some(f) = cx.input.clone() {
        let text = std::fs::read_to_string(f).unwrap();
        for (k, line) in text.lines().enumerate() {
            let p: Value = serde_json::from_str(line).unwrap();
            let ops = &p["ops"];
            if ops.as_array().unwrap().len() <= 6 {
                // exhaustive short histories: one scalar type each, in turn
                let x = &xd[k % xd.len()];
                match k % 3 {
                    0 => f::tree::<2>(cx, x, ops),
                    1 => r::tree::<2>(cx, x, ops),
                    _ => l::tree::<2>(cx, x, ops),
                }
            } else if ops[0]["q"][0].as_array().unwrap().len() == 2 {
                all_types!(cx, k, xd, xe, tree, 2, ops);
            } else {
                all_types!(cx, k, xd, xe, tree, 3, ops);
            }
        }
        return;
    }
    // larger trees: many boxes at once, then churn
    let mut g = Rng::new(cx.seed);
    for k in 0..cx.scale(60, 400) {
        let dim = 2 + k % 2;
        let side = *g.pick(&[3i64, 8, 30]);
        let n = *g.pick(&[20usize, 40, 90]);
        let style = g.below(3);
        let bxs = |g: &mut Rng| {
            let lo: V = (0..dim).map(|i| if style == 1 && i > 0 { 0 } else { g.range(0, side) }).collect();
            let w = *g.pick(&[0i64, 1, 3, side]);
            let hi: V = lo.iter().map(|c| c + g.range(0, w)).collect();
            json!([lo, hi])
        };
        let mut ops = vec![];
        let b: Vec<Value> = (0..n).map(|_| bxs(&mut g)).collect();
        let ds: Vec<usize> = (0..n).map(|i| if style == 2 { i / 2 } else { i }).collect();
        ops.push(json!({"o":"build","b":b,"d":ds,"q":bxs(&mut g)}));
        for _ in 0..30 {
            let o = *g.pick(&["ins", "inv", "inv", "inv", "compact", "inv"]);
            let o = if o == "compact" && g.chance(1, 2) { "inv" } else { o };
            ops.push(json!({"o":o,"b":[bxs(&mut g)],"d":[g.below(n)],"q":bxs(&mut g)}));
        }
        let ops = json!(ops);
        if dim == 2 {
            all_types!(cx, k, xd, xe, tree, 2, &ops);
        } else {
            all_types!(cx, k, xd, xe, tree, 3, &ops);
        }
    }
}

pub fn run_box(cx: &mut Ctx) {
    let (xd, xe) = maps();
    let mut k = 0;
    // all pairs of boxes on a 3x3 lattice, given by any opposite corners
    let grid: Vec<V> = (0..9).map(|i| vec![i % 3, i / 3]).collect();
    for a in &grid {
        for b in &grid {
            for c in &grid {
                for e in &grid {
                    let p = [a.clone(), b.clone(), c.clone(), e.clone()];
                    all_types!(cx, k, xd, xe, alg, 2, &p);
                    k += 1;
                }
            }
        }
    }
    let mut g = Rng::new(cx.seed);
    for i in 0..cx.scale(3000, 20000) {
        let m = *g.pick(&[1, 2, 4, 50]);
        let p: Vec<V> = (0..4).map(|_| (0..3).map(|_| g.range(-m, m)).collect()).collect();
        all_types!(cx, i + g.below(3), xd, xe, alg, 3, &p);
        let n = 1 + g.below(6);
        let p: Vec<V> = (0..n).map(|_| (0..3).map(|_| g.range(-m, m)).collect()).collect();
        if i % 2 == 0 {
            all_types!(cx, i + g.below(3), xd, xe, bbox, 3, &p);
        } else {
            let p: Vec<V> = p.iter().map(|v| v[..2].to_vec()).collect();
            all_types!(cx, i + g.below(3), xd, xe, bbox, 2, &p);
        }
    }
}
