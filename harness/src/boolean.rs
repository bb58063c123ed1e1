//! Union, intersection and difference of solids made of cubes, one after the other.
use crate::sc::*;
use crate::solid::{self, SHEARS, Solid, shear};
use crate::util::*;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::boolean::BooleanOp;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use serde_json::{Value, json};

/// Inverses of the shears.
pub const BACK: [[[i64; 3]; 3]; 3] = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, -1, 0], [0, 1, 0], [0, -1, 1]], [[8, -2, -7], [-3, 1, 3], [-1, 0, 1]]];

fn op(k: &str) -> BooleanOp {
    match k {
        "union" => BooleanOp::Union,
        "intersection" => BooleanOp::Intersection,
        _ => BooleanOp::Difference,
    }
}

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            /// The denominator of the lattice positions of the vertices, 0 if too large, and the faces over it.
            fn surface(m: &Mesh<T, 3>, x: &Xf, k: usize) -> (i64, Vec<Value>) {
                let mut d = rug::Integer::from(2);
                let mut q = vec![];
                for v in &m.vertices {
                    for i in 0..3 {
                        let r = v.position.coords[i].get().map(|r| x.inv(i, &r));
                        match if T::EXACT { r } else { r.and_then(|r| snap(r.to_f64(), 8)) } {
                            Some(r) if r.denom() <= &8 => {
                                d.lcm_mut(r.denom());
                                q.push(r);
                            }
                            _ => return (0, vec![]),
                        }
                    }
                }
                if d > 8 {
                    return (0, vec![]);
                }
                let d = d.to_i64().unwrap();
                let q: Vec<i64> = q.into_iter().map(|q| (q * d).numer().to_i64().unwrap()).collect();
                let f = (0..m.faces.len())
                    .filter(|f| !m.faces[*f].removed)
                    .map(|f| json!(m.face_vertices(f).map(|v| shear(&BACK[k], &q[3 * v..3 * v + 3]))))
                    .collect();
                (d, f)
            }
            /// Judges the result of every step, and that the operands still bound what they did.
            pub fn combine(cx: &mut Ctx, x: &Xf, k: usize, steps: &[(Value, Solid)]) {
                let all: Vec<Value> = steps.iter().map(|s| s.0.clone()).collect();
                let mut m = match cx.run_quiet(|| solid::$m::build::<3>(x, &SHEARS[k], &steps[0].1)) {
                    Ok(m) => m,
                    Err(_) => return,
                };
                for i in 1..steps.len() {
                    let mut c = json!({"k":"bool","ty":T::NAME,"x":x.id,"sh":k,"st":all[..=i],"D":2,"F":[],"fail":[]});
                    let r = cx.run(|| c.clone(), || {
                        let mut b = solid::$m::build::<3>(x, &SHEARS[k], &steps[i].1);
                        let n = m.corefine_and_boolean(&mut b, op(steps[i].0["op"].as_str().unwrap()));
                        (surface(&n, x, k), surface(&m, x, k), surface(&b, x, k), n)
                    });
                    match r {
                        Ok(((d, f), left, right, n)) => {
                            let mut own = steps[i].0.clone();
                            own["op"] = json!("start");
                            for (st, (d, f)) in [(&all[..i], left), (&[own], right)] {
                                if d != 0 {
                                    cx.emit(&json!({"k":"operand","ty":T::NAME,"x":x.id,"sh":k,"st":st,"D":d,"F":f,"fail":[],"of":c["st"]}));
                                }
                            }
                            c["D"] = json!(d);
                            c["F"] = json!(f);
                            cx.emit(&c);
                            if d == 0 {
                                return;
                            }
                            m = n;
                        }
                        Err(e) => {
                            c["fail"] = json!([e]);
                            cx.emit(&c);
                            return;
                        }
                    }
                }
            }
        }
    };
}
imp!(f, CgarF64);
imp!(r, CgarRational);
imp!(l, LazyExact);

/// The operands of a computation with the steps that bring them in.
pub fn operands(b: &Value) -> Vec<(Value, Solid)> {
    b["st"]
    .as_array()
    .unwrap()
    .iter()
    .map(|s| {
        let by = crate::mesh::ints(&s["s"]);
        let mut t = solid::load(&json!({"dim":b["dim"],"V":s["V"],"T":s["T"]}).to_string());
        for q in t.p.iter_mut() {
            for (a, d) in q.iter_mut().zip(&by) {
                *a += d;
            }
        }
        (json!({"op":s["op"],"V":s["V"],"s":s["s"]}), t)
    })
    .collect()
}

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = crate::mesh::maps();
    // far from the origin the approximations that lazily computed positions are hashed by tell nothing
    let xl: Vec<Xf> = crate::mesh::maps().1.into_iter().filter(|x| x.id != 11).collect();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    let mut rng = Rng::new(cx.seed);
    for (i, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let steps = operands(&b);
        let k = rng.below(3);
        match i % 3 {
            0 => f::combine(cx, &xd[i / 3 % xd.len()], k, &steps),
            1 => r::combine(cx, &xe[i / 3 % xe.len()], k, &steps),
            _ => l::combine(cx, &xl[i / 3 % xl.len()], k, &steps),
        }
    }
}
