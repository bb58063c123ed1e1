//! Smoothing of vertices and remeshing.
use crate::mesh::ints;
use crate::pred::limbs;
use crate::sc::*;
use crate::solid::shear;
use crate::util::*;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh_processing::remesh::RemeshOptions;
use rug::Rational;
use serde_json::{Value, json};

const FINE: i64 = 100;
/// Turns of the lattice, so that flat meshes need not lie along the axes; edge lengths keep their order.
const TURNS: [[[i64; 3]; 3]; 3] = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0, -1, 0], [0, 0, -1], [1, 0, 0]]];
fn back(t: &[[i64; 3]; 3], q: &[Rational]) -> Vec<Rational> {
    (0..3).map(|j| (0..3).map(|i| q[i].clone() * t[i][j]).fold(Rational::new(), |a, b| a + b)).collect()
}

macro_rules! imp {
    ($m:ident, $md:ident) => {
        pub mod $m {
            use super::*;
            use crate::mesh::$md::{M, T, apply, raw, tri};
            fn place(x: &Xf, k: usize, p: &Point<T, 3>) -> Vec<Vec<i64>> {
                let q: Option<Vec<Rational>> = (0..3).map(|i| p.coords[i].get().map(|r| x.inv(i, &r))).collect();
                match q {
                    None => vec![limbs(999_999_999_999); 3],
                    Some(q) => back(&TURNS[k], &q).into_iter().map(|r| limbs((r * FINE).round().to_f64() as i64)).collect(),
                }
            }
            fn faces(m: &M) -> Vec<[usize; 3]> {
                (0..m.faces.len()).filter_map(|f| tri(m, f)).map(|t| t.map(|v| v + 1)).collect()
            }
            fn built(x: &Xf, k: usize, ops: &Value) -> M {
                let mut m = M::new();
                let mut turned = ops[0].clone();
                let ps: Vec<Vec<i64>> = ops[0]["t"].as_array().unwrap().iter().map(|p| shear(&TURNS[k], &ints(p))).collect();
                turned["t"] = json!(ps);
                apply(x, &mut m, &mut None, &turned);
                for op in &ops.as_array().unwrap()[1..] {
                    let mut op = op.clone();
                    if op["p"].as_array().unwrap().len() == 3 {
                        op["p"] = json!(shear(&TURNS[k], &ints(&op["p"])));
                    }
                    apply(x, &mut m, &mut None, &op);
                }
                m
            }
            fn same(a: &Point<T, 3>, b: &Point<T, 3>) -> bool {
                (0..3).all(|i| a.coords[i].get() == b.coords[i].get())
            }
            pub fn smooth(cx: &mut Ctx, x: &Xf, k: usize, b: &Value) {
                let mut c = json!({"k":"smooth","t":T::NAME,"x":x.id,"turn":k,"ops":b["ops"],"smooth":b["smooth"],"F":[],"p":[],"st":[],"sweep":[[],[]],"fail":[]});
                let r = cx.run(|| c.clone(), || {
                    let mut m = built(x, k, &b["ops"]);
                    let f = faces(&m);
                    let p: Vec<_> = m.vertices.iter().map(|v| place(x, k, &v.position)).collect();
                    let mut st = vec![];
                    // exact coordinates grow with every move, so fewer of them
                    let fresh = m.clone();
                    let most = if T::EXACT { 3 } else { 99 };
                    for s in b["smooth"].as_array().unwrap().iter().take(most) {
                        let v = s["v"].as_u64().unwrap() as usize - 1;
                        let a = ints(&s["a"]);
                        let far = T::mk(&(Rational::from(&x.scale * s["far"].as_i64().unwrap())));
                        let old: Vec<_> = m.vertices.iter().map(|v| v.position.clone()).collect();
                        let r = m.smooth_tangential(v, T::mk(&Rational::from((a[0], a[1]))), &(far.clone() * far));
                        let n = (0..old.len()).filter(|&u| u != v && !same(&old[u], &m.vertices[u].position)).count() + (faces(&m) != f) as usize;
                        let here = m.vertices[v].position.clone();
                        let found = m.clone().get_or_insert_vertex(&here).0 + 1;
                        let far_off = (0..3).any(|i| (x.inv(i, &old[v].coords[i].get().unwrap()) - x.inv(i, &here.coords[i].get().unwrap())).abs() > 1);
                        let still = far_off && m.clone().get_or_insert_vertex(&old[v]).0 == v;
                        st.push(json!({"v":v + 1,"a":a,"far":s["far"],"r":r,"p":place(x, k, &here),"n":n,"found":found,"still":still as i64}));
                    }
                    // a sweep is the vertices one after the other
                    let far = T::mk(&Rational::from(&x.scale * b["smooth"][0]["far"].as_i64().unwrap()));
                    let (mut s, mut t) = if T::EXACT { (fresh.clone(), fresh) } else { (m.clone(), m) };
                    if T::EXACT && s.vertices.len() > 9 {
                        return (f, p, st, json!([]), json!([]));
                    }
                    let n = s.smooth_vertices(1, &far);
                    let mut k2 = 0;
                    for v in 0..t.vertices.len() {
                        if !t.vertices[v].removed && t.smooth_tangential(v, T::mk(&Rational::from((1, 2))), &(far.clone() * far.clone())) {
                            k2 += 1;
                        }
                    }
                    let list = |m: &M, n: usize| json!([n, m.vertices.iter().map(|v| place(x, k, &v.position)).collect::<Vec<_>>()]);
                    (f, p, st, list(&s, n), list(&t, k2))
                });
                match r {
                    Ok((f, p, st, s, t)) => {
                        c["F"] = json!(f);
                        c["p"] = json!(p);
                        c["st"] = json!(st);
                        c["sweep"] = json!([s, t]);
                    }
                    Err(e) => c["fail"] = json!([e]),
                }
                cx.emit(&c);
            }
            pub fn remesh(cx: &mut Ctx, x: &Xf, k: usize, b: &Value, times: usize) {
                let flat = b["ops"][0]["t"].as_array().unwrap().iter().all(|p| p[2] == 0);
                let mut c = json!({"k":"remesh","t":T::NAME,"x":x.id,"turn":k,"ops":b["ops"],"len":b["len"],"times":times,"flat":flat,"F":[],"dead0":0,"p0":[],"p":[],"found":[],"m":{},"fail":[]});
                let r = cx.run(|| c.clone(), || {
                    let mut m = built(x, k, &b["ops"]);
                    let f = faces(&m);
                    let p0: Vec<_> = m.vertices.iter().map(|v| place(x, k, &v.position)).collect();
                    let dead0 = m.vertices.iter().filter(|v| v.removed).count();
                    let mut o = RemeshOptions::new(T::mk(&Rational::from(&x.scale * b["len"].as_i64().unwrap())));
                    o.max_iterations = times;
                    m.isotropic_remesh(&o).unwrap();
                    let p: Vec<_> = m.vertices.iter().map(|v| place(x, k, &v.position)).collect();
                    let mut copy = m.clone();
                    let found: Vec<usize> = m.vertices.iter().map(|v| copy.get_or_insert_vertex(&v.position).0 + 1).collect();
                    let mut r = raw(x, &m);
                    r["p"] = json!([]);
                    (f, dead0, p0, p, found, r)
                });
                match r {
                    Ok((f, dead0, p0, p, found, m)) => {
                        c["dead0"] = json!(dead0);
                        c["p0"] = json!(p0);
                        c["F"] = json!(f);
                        c["p"] = json!(p);
                        c["found"] = json!(found);
                        c["m"] = m;
                    }
                    Err(e) => c["fail"] = json!([e]),
                }
                cx.emit(&c);
            }
        }
    };
}
imp!(f, f3);
imp!(r, r3);
imp!(l, l3);

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = crate::mesh::maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    for (i, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let k = i / 3 % 3;
        let times = b["times"].as_u64().unwrap() as usize;
        let (a, e) = (&xd[i / 9 % xd.len()], &xe[i / 9 % xe.len()]);
        match i % 3 {
            0 => f::smooth(cx, a, k, &b),
            1 => r::smooth(cx, e, k, &b),
            _ => l::smooth(cx, e, k, &b),
        }
        f::remesh(cx, a, k, &b, times);
    }
}
