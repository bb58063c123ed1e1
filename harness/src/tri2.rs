//! Triangulations of point sets and of face jobs.
use crate::mesh::{coord, canon, ints};
use crate::sc::*;
use crate::util::*;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::{Mesh, Triangle};
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::operations::triangulation::delaunay::{Delaunay, triangles_inside_for_job};
use serde_json::{Value, json};

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            fn pts(x: &Xf, p: &[Vec<i64>]) -> Vec<Point<T, 2>> {
                p.iter().map(|q| Point::from_vals([T::mk(&x.fwd(0, q[0])), T::mk(&x.fwd(1, q[1]))])).collect()
            }
            fn back2(x: &Xf, p: &[Point<T, 2>]) -> Value {
                json!(p.iter().map(|q| vec![coord(x, 0, &q.coords[0]), coord(x, 1, &q.coords[1])]).collect::<Vec<_>>())
            }
            fn tris(t: &[Triangle]) -> Value {
                json!(t.iter().map(|t| canon([t.0 + 1, t.1 + 1, t.2 + 1])).collect::<Vec<_>>())
            }
            fn job(x: &Xf, b: &(Vec<Vec<i64>>, Vec<[usize; 2]>)) -> FaceJobUV<T> {
                FaceJobUV { face_id: 0, verts_global: (0..b.0.len()).collect(), points_uv: pts(x, &b.0), segments: b.1.clone() }
            }
            fn case(k: &str, x: &Xf, b: &(Vec<Vec<i64>>, Vec<[usize; 2]>)) -> Value {
                let c: Vec<[usize; 2]> = b.1.iter().map(|e| [e[0] + 1, e[1] + 1]).collect();
                json!({"k":k,"t":T::NAME,"x":x.id,"p":b.0,"c":c,"T":[],"pts":[],"keep":[],"fail":[]})
            }
            fn put(cx: &mut Ctx, mut c: Value, x: &Xf, r: Result<Delaunay<T>, String>) {
                match r {
                    Ok(d) => {
                        c["pts"] = back2(x, &d.points);
                        c["T"] = tris(&d.triangles);
                    }
                    Err(e) => c["fail"] = json!([e]),
                }
                cx.emit(&c);
            }
            pub fn one(cx: &mut Ctx, x: &Xf, b: &(Vec<Vec<i64>>, Vec<[usize; 2]>), is_job: bool) {
                let c = case("dt", x, b);
                let r = cx.run(|| c.clone(), || Delaunay::<T>::build(&pts(x, &b.0)));
                put(cx, c, x, r);
                let c = case("cdt", x, b);
                let r = cx.run(|| c.clone(), || {
                    let j = job(x, b);
                    Delaunay::<T>::build_with_constraints_bowyer_watson(&j.points_uv, &j.segments, &Mesh::<T, 3>::new(), &j)
                });
                if is_job {
                    if let Ok(d) = &r {
                        let mut k = case("inside", x, b);
                        k["T"] = tris(&d.triangles);
                        match cx.run(|| k.clone(), || triangles_inside_for_job(&d.points, &d.triangles, &b.1)) {
                            Ok(s) => k["keep"] = json!(s.iter().map(|i| i + 1).collect::<std::collections::BTreeSet<_>>()),
                            Err(e) => k["fail"] = json!([e]),
                        }
                        cx.emit(&k);
                    }
                }
                put(cx, c, x, r);
            }
            pub fn batch(cx: &mut Ctx, x: &Xf, bs: &[(Vec<Vec<i64>>, Vec<[usize; 2]>)]) {
                let d = || json!({"k":"batch","t":T::NAME,"x":x.id,"jobs":bs.len()});
                let r = cx.run(d, || {
                    let js: Vec<FaceJobUV<T>> = bs.iter().map(|b| job(x, b)).collect();
                    Delaunay::<T>::build_batch_with_constraints_bowyer_watson(&js, &Mesh::<T, 3>::new())
                });
                for (i, b) in bs.iter().enumerate() {
                    let r = match &r {
                        Ok(v) => v.get(i).cloned().ok_or_else(|| "no result for the job".to_string()),
                        Err(e) => Err(e.clone()),
                    };
                    put(cx, case("batch", x, b), x, r);
                }
            }
        }
    };
}
imp!(f, CgarF64);
imp!(r, CgarRational);
imp!(l, LazyExact);

pub fn run(cx: &mut Ctx) {
    let xd = xf_double();
    let xe: Vec<Xf> = xf_double().into_iter().chain(xf_exact().into_iter().filter(|x| x.id == 10 || x.id == 11)).collect();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    let mut rng = Rng::new(cx.seed);
    let mut held: Vec<(Vec<Vec<i64>>, Vec<[usize; 2]>)> = vec![];
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let is_job = b["job"] == 1;
        let p: Vec<Vec<i64>> = b["p"].as_array().unwrap().iter().map(ints).collect();
        let c: Vec<[usize; 2]> = b["c"].as_array().unwrap().iter().map(|e| [e[0].as_u64().unwrap() as usize - 1, e[1].as_u64().unwrap() as usize - 1]).collect();
        // the points in another order, for jobs with the corners of the face still first
        let from = if is_job { 3 } else { 0 };
        let mut tail: Vec<usize> = (from..p.len()).collect();
        rng.shuffle(&mut tail);
        let order: Vec<usize> = (0..from).chain(tail).collect();
        let mut at = vec![0; p.len()];
        for (new, &old) in order.iter().enumerate() {
            at[old] = new;
        }
        let b = (order.iter().map(|&o| p[o].clone()).collect::<Vec<_>>(), c.iter().map(|e| [at[e[0]], at[e[1]]]).collect::<Vec<_>>());
        let (a, e) = (&xd[k / 3 % xd.len()], &xe[k / 3 % xe.len()]);
        match k % 3 {
            0 => f::one(cx, a, &b, is_job),
            1 => r::one(cx, e, &b, is_job),
            _ => l::one(cx, e, &b, is_job),
        }
        held.push(b);
        if held.len() == 5 {
            match k / 5 % 3 {
                0 => f::batch(cx, a, &held),
                1 => r::batch(cx, e, &held),
                _ => l::batch(cx, e, &held),
            }
            held.clear();
        }
    }
}
