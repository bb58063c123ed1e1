//! Inserting vertices by position, at several scales around the merge tolerance.
use crate::sc::*;
use crate::util::*;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use rug::{Integer, Rational};
use serde_json::{Value, json};

const OFF: i64 = -999_999_999;

/// 8k + j stands for k * big + j * small
struct Two {
    id: usize,
    big: Rational,
    small: Rational,
    shift: Rational,
    /// coordinates too large for doubles to carry the small part
    wide: bool,
}
fn p2(e: i32) -> Rational {
    if e >= 0 { Rational::from(Integer::from(1) << e as u32) } else { Rational::from((Integer::from(1), Integer::from(1) << (-e) as u32)) }
}
fn scales() -> Vec<Two> {
    let t = |id, b, s, k: Rational, wide| Two { id, big: p2(b), small: p2(s), shift: k, wide };
    vec![
        t(0, 0, -22, rat(0, 1), false),
        t(1, 10, -30, rat(-3, 1), false),
        t(2, -8, -40, rat(1, 4), false),
        t(3, -19, -40, rat(0, 1), false),
        t(4, 45, -30, rat(0, 1), true),
        t(5, 70, -200, rat(0, 1), true),
        t(6, 900, -900, rat(0, 1), true),
        t(7, 0, -300, rat(1, 3), true),
    ]
}
impl Two {
    fn fwd(&self, c: i64) -> Rational {
        let k = (c + 4).div_euclid(8);
        Rational::from(&self.big * k) + Rational::from(&self.small * (c - 8 * k)) + &self.shift
    }
    fn inv(&self, v: &Rational) -> i64 {
        let y = Rational::from(v - &self.shift);
        let k = (Rational::from(&y / &self.big) + rat(1, 2)).floor();
        let j = Rational::from(&y - Rational::from(&self.big * &k)) / &self.small;
        match (k.numer().to_i64(), j.is_integer().then(|| j.numer().to_i64()).flatten()) {
            (Some(k), Some(j)) if k.abs() < 100 && j.abs() < 4 => 8 * k + j,
            _ => OFF,
        }
    }
}
trait Other: Sc {
    /// the same value, made another way
    fn other(r: &Rational) -> Self;
}
impl Other for CgarF64 {
    fn other(r: &Rational) -> Self {
        let v = r.to_f64();
        CgarF64(if v == 0.0 { -0.0 } else { v })
    }
}
impl Other for CgarRational {
    fn other(r: &Rational) -> Self {
        CgarRational(r.clone())
    }
}
impl Other for LazyExact {
    fn other(r: &Rational) -> Self {
        let t = LazyExact::from(rat(1, 3));
        &(&LazyExact::from(r.clone()) + &t) - &t
    }
}
macro_rules! imp {
    ($f:ident, $T:ty, $N:literal) => {
        fn $f(cx: &mut Ctx, x: &Two, ops: &Value) {
            let flat = x.wide && !<$T>::EXACT;
            let mut ops = ops.clone();
            if flat {
                for o in ops.as_array_mut().unwrap() {
                    for c in o["p"].as_array_mut().unwrap() {
                        *c = json!(8 * (c.as_i64().unwrap() + 4).div_euclid(8));
                    }
                }
            }
            let d = || json!({"k":"vset","t":<$T>::NAME,"x":x.id,"ops":ops});
            let mut steps: Vec<Value> = vec![];
            let st = &mut steps;
            let r = cx.run(d, || {
                let mut m = Mesh::<$T, $N>::new();
                for o in ops.as_array().unwrap() {
                    let p: Vec<i64> = o["p"].as_array().unwrap().iter().map(|c| c.as_i64().unwrap()).collect();
                    let alt = o["e"] == 1 && !x.wide;
                    let mk = |c: i64| if alt { <$T as Other>::other(&x.fwd(c)) } else { <$T as Sc>::mk(&x.fwd(c)) };
                    let q: Point<$T, $N> = Point::from_vals(std::array::from_fn(|i| mk(p[i])));
                    let (n, old) = if o["o"] == "add" { (m.add_vertex(q), false) } else { m.get_or_insert_vertex(&q) };
                    let v: Vec<Vec<i64>> = m
                        .vertices
                        .iter()
                        .map(|v| v.position.coords.iter().map(|c| c.get().map_or(OFF, |r| x.inv(&r))).collect())
                        .collect();
                    st.push(json!({"n": n as i64 + 1, "old": old, "V": v}));
                }
            });
            let mut e = d();
            e["r"] = json!(steps);
            e["fail"] = json!(r.err().into_iter().collect::<Vec<_>>());
            cx.emit(&e);
        }
    };
}
imp!(f2, CgarF64, 2);
imp!(f3, CgarF64, 3);
imp!(r2, CgarRational, 2);
imp!(r3, CgarRational, 3);
imp!(l2, LazyExact, 2);
imp!(l3, LazyExact, 3);

pub fn run(cx: &mut Ctx) {
    let xs = scales();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let ops = &b["ops"];
        let x = &xs[k / 3 % xs.len()];
        // a third is not a double
        let xf = if x.id == 7 { &xs[0] } else { x };
        match (k % 3, ops[0]["p"].as_array().unwrap().len()) {
            (0, 2) => f2(cx, xf, ops),
            (0, _) => f3(cx, xf, ops),
            (1, 2) => r2(cx, x, ops),
            (1, _) => r3(cx, x, ops),
            (_, 2) => l2(cx, x, ops),
            (_, _) => l3(cx, x, ops),
        }
    }
}
