//! Cleaning up after an edit history: merging duplicate vertices, dropping unused ones and removed faces.
use crate::mesh::*;
use crate::sc::*;
use crate::util::*;
use serde_json::{Value, json};

macro_rules! impc {
    ($m:ident, $N:literal) => {
        mod $m {
            use super::*;
            use crate::mesh::$m::*;
            /// every position once more, for corners that are given their own vertex
            fn copy(x: &Xf, m: &mut M, p: &[i64]) -> usize {
                m.add_vertex(pt(x, p))
            }
            pub fn hist(cx: &mut Ctx, x: &Xf, ops: &Value, seed: u64) {
                let mut rng = Rng::new(seed);
                let all = ops.as_array().unwrap();
                let cut = 2 + rng.below(all.len() - 1);
                let ops = json!(all[..cut.min(all.len())]);
                let mode = rng.below(5);
                let order: Vec<&str> = match rng.below(5) {
                    0 => vec!["dup"],
                    1 => vec!["unused"],
                    2 => vec!["faces"],
                    _ => vec!["dup", "unused", "faces"],
                };
                let d = || json!({"k":"meshc","t":T::NAME,"x":x.id,"dim":$N,"mode":mode,"do":order,"ops":ops});
                let built = cx.run(d, || {
                    let mut m = M::new();
                    let mut none: Option<Tree> = None;
                    for op in ops.as_array().unwrap() {
                        let a = apply(x, &mut m, &mut none, op);
                        if a["s"] == "lost" || !sane(&m) {
                            return None;
                        }
                    }
                    Some(m)
                });
                let Ok(Some(mut m)) = built else { return };
                let ps: Vec<Vec<i64>> = m.vertices.iter().map(|v| ints(&pj(x, &v.position))).collect();
                let ts: Vec<[usize; 3]> = (0..m.faces.len()).filter_map(|f| tri(&m, f)).collect();
                // give some corners vertices of their own, or add vertices nobody uses
                match mode {
                    1 | 2 => {
                        let mut n = M::new();
                        let keep: Vec<usize> = ps.iter().map(|p| copy(x, &mut n, p)).collect();
                        for t in &ts {
                            let own = mode == 1 || rng.below(3) == 0;
                            let c = t.map(|v| if own { copy(x, &mut n, &ps[v]) } else { keep[v] });
                            n.add_triangle(c[0], c[1], c[2]);
                        }
                        m = n;
                    }
                    3 => {
                        for _ in 0..3 {
                            let v = rng.below(ps.len());
                            copy(x, &mut m, &ps[v]);
                        }
                    }
                    _ => {}
                }
                let mut steps = vec![raw(x, &m)];
                let mut ans: Vec<usize> = vec![];
                let mut look = vec![];
                let (st, an, lk) = (&mut steps, &mut ans, &mut look);
                let r = cx.run(d, || {
                    for o in &order {
                        an.push(match *o {
                            "dup" => m.remove_duplicate_vertices(),
                            "unused" => {
                                m.remove_unused_vertices();
                                0
                            }
                            _ => {
                                m.remove_invalidated_faces();
                                0
                            }
                        });
                        st.push(raw(x, &m));
                    }
                    // positions are found again
                    let live: Vec<usize> = (0..m.vertices.len()).filter(|v| !m.vertices[*v].removed).collect();
                    for v in live {
                        let p = m.vertices[v].position.clone();
                        let (n, old) = m.get_or_insert_vertex(&p);
                        lk.push(json!([nm(v), nm(n), old as i64]));
                    }
                });
                let mut e = d();
                e["r"] = json!(steps);
                e["n"] = json!(ans);
                e["look"] = json!(look);
                e["fail"] = json!(r.err().into_iter().collect::<Vec<_>>());
                cx.emit(&e);
            }
        }
    };
}
impc!(f3, 3);
impc!(r3, 3);
impc!(l3, 3);
impc!(f2, 2);
impc!(r2, 2);
impc!(l2, 2);

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let ops = &b["ops"];
        let flat = ops[0]["t"][0].as_array().unwrap().len() == 2;
        let (a, e) = (&xd[k / 3 % xd.len()], &xe[k / 3 % xe.len()]);
        let s = cx.seed.wrapping_mul(1_000_003) + k as u64;
        match (k % 3, flat) {
            (0, false) => f3::hist(cx, a, ops, s),
            (1, false) => r3::hist(cx, e, ops, s),
            (_, false) => l3::hist(cx, e, ops, s),
            (0, true) => f2::hist(cx, a, ops, s),
            (1, true) => r2::hist(cx, e, ops, s),
            (_, true) => l2::hist(cx, e, ops, s),
        }
    }
}
