//! Where the surfaces of two solids made of cubes meet.
use crate::sc::*;
use crate::solid::{self, SHEARS, Solid};
use crate::util::*;
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::intersection_segment::{IntersectionEndPoint, IntersectionSegment};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use rug::Rational;
use serde_json::{Value, json};

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            /// In half lattice units with the shear undone; nothing when it is not such a point.
            fn half(p: &Point<T, 3>, x: &Xf, k: usize) -> Value {
                let q: Vec<Rational> = (0..3)
                    .filter_map(|i| {
                        let r = x.inv(i, &p.coords[i].get()?);
                        if T::EXACT { Some(r) } else { snap(r.to_f64(), 8) }
                    })
                    .collect();
                if q.len() < 3 {
                    return json!([]);
                }
                let b = &crate::boolean::BACK[k];
                let h: Vec<i64> = (0..3)
                    .filter_map(|i| {
                        let v = (0..3).fold(Rational::new(), |s, j| s + Rational::from(&q[j] * (2 * b[i][j])));
                        if v.denom() == &1 { v.numer().to_i64() } else { None }
                    })
                    .collect();
                if h.len() < 3 { json!([]) } else { json!(h) }
            }
            fn corner(m: &Mesh<T, 3>, v: usize, x: &Xf, k: usize) -> Value {
                if v < m.vertices.len() { half(&m.vertices[v].position, x, k) } else { json!([]) }
            }
            fn face(m: &Mesh<T, 3>, f: usize, x: &Xf, k: usize) -> Value {
                if f < m.faces.len() && !m.faces[f].removed { json!(m.face_vertices(f).map(|v| corner(m, v, x, k))) } else { json!([]) }
            }
            /// What an end point says of itself: the corners it names, weights, and faces.
            fn end(m: &Mesh<T, 3>, e: &IntersectionEndPoint<T, 3>, x: &Xf, k: usize) -> Value {
                let named: Vec<Value> = e.vertex_hint.iter().flatten().filter(|v| **v != usize::MAX).map(|v| corner(m, *v, x, k)).collect();
                let faces: Vec<Value> = e.faces_hint.iter().flatten().filter(|f| **f != usize::MAX).map(|f| face(m, *f, x, k)).collect();
                match (e.half_edge_hint, &e.half_edge_u_hint, &e.barycentric_hint, e.faces_hint) {
                    (Some(h), Some(u), _, _) => {
                        let (a, b) = (m.half_edges[m.half_edges[h].twin].vertex, m.half_edges[h].vertex);
                        json!({"k":"edge","c":[corner(m, a, x, k), corner(m, b, x, k)],"w":[solid::frac(u)],"n":named,"f":faces})
                    }
                    (_, _, Some(b), Some(f)) => {
                        json!({"k":"face","c":face(m, f[0], x, k),"w":[solid::frac(&b.0), solid::frac(&b.1), solid::frac(&b.2)],"n":named,"f":faces})
                    }
                    _ => json!({"k":"vertex","c":named,"w":[],"n":named,"f":faces}),
                }
            }
            fn list(m: &Mesh<T, 3>, s: &[IntersectionSegment<T, 3>], x: &Xf, k: usize) -> Vec<Value> {
                s.iter()
                    .map(|s| {
                        json!({"p":[half(&s.segment.a, x, k), half(&s.segment.b, x, k)],"f":face(m, s.initial_face_reference, x, k),
                               "e":[end(m, &s.a, x, k), end(m, &s.b, x, k)]})
                    })
                    .collect()
            }
            pub fn meet(cx: &mut Ctx, x: &Xf, k: usize, a: &(Value, Solid), b: &(Value, Solid)) {
                let mut c = json!({"k":"cross","ty":T::NAME,"x":x.id,"sh":k,"st":[a.0, b.0],"A":[],"B":[],"fail":[]});
                let r = cx.run(|| c.clone(), || {
                    let (ma, mb) = (solid::$m::build::<3>(x, &SHEARS[k], &a.1), solid::$m::build::<3>(x, &SHEARS[k], &b.1));
                    let (sa, sb) = ma.get_mesh_intersections_3(&mb);
                    (list(&ma, &sa, x, k), list(&mb, &sb, x, k))
                });
                match r {
                    Ok((sa, sb)) => {
                        c["A"] = json!(sa);
                        c["B"] = json!(sb);
                    }
                    Err(e) => c["fail"] = json!([e]),
                }
                cx.emit(&c);
            }
        }
    };
}
imp!(f, CgarF64);
imp!(r, CgarRational);
imp!(l, LazyExact);

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = crate::mesh::maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    let mut rng = Rng::new(cx.seed);
    for (i, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let s = crate::boolean::operands(&b);
        let k = rng.below(3);
        for j in 1..s.len() {
            match i % 3 {
                0 => f::meet(cx, &xd[i / 3 % xd.len()], k, &s[0], &s[j]),
                1 => r::meet(cx, &xe[i / 3 % xe.len()], k, &s[0], &s[j]),
                _ => l::meet(cx, &xe[i / 3 % xe.len()], k, &s[0], &s[j]),
            }
        }
    }
}
