//! Replays number programs on the exact scalar types.
use crate::sc::*;
use crate::util::*;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use cgar::operations::{Abs, Zero};
use rug::Rational;
use serde_json::{Value, json};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn eval(v: &Value, eps: &Rational) -> Rational {
    let mut r = Rational::new();
    let mut w = Rational::from(1);
    for c in v.as_array().unwrap() {
        r += Rational::from(&w * c.as_i64().unwrap());
        w *= eps;
    }
    r
}
fn value(op: &Value, eps: &Rational) -> Rational {
    eval(&op["n"], eps) / eval(&op["d"], eps)
}
fn h<X: Hash>(x: &X) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn ord(o: std::cmp::Ordering) -> i64 {
    o as i64
}
fn b(x: bool) -> i64 {
    x as i64
}

/// What only lazily evaluated numbers can be asked; 9 stands for no claim.
trait More: Scalar {
    fn quick(x: &Self, y: &Self) -> i64;
    fn slow(x: &Self, y: &Self) -> i64;
    fn lone(x: &Self, want: &Rational) -> [i64; 2];
}
impl More for CgarRational {
    fn quick(_: &Self, _: &Self) -> i64 {
        9
    }
    fn slow(x: &Self, y: &Self) -> i64 {
        ord(Self::cmp_ref(x, y))
    }
    fn lone(x: &Self, _: &Rational) -> [i64; 2] {
        [x.sign() as i64, 1]
    }
}
impl More for LazyExact {
    fn quick(x: &Self, y: &Self) -> i64 {
        x.cmp_fast(y).map_or(9, ord)
    }
    fn slow(x: &Self, y: &Self) -> i64 {
        LazyExact::cmp_exact(x, y) as i64
    }
    fn lone(x: &Self, want: &Rational) -> [i64; 2] {
        let held = x.as_f64_if_exact().is_none_or(|d| Rational::from_f64(d).is_some_and(|r| r == *want));
        [ord(x.cmp_zero()), b(held)]
    }
}

macro_rules! imp {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            fn leaf(v: &Rational, style: usize) -> T {
                let d = v.to_f64();
                let dy = Rational::from_f64(d).is_some_and(|x| x == *v);
                if style == 1 && dy {
                    if d == 0.0 { T::from(-0.0f64) } else { T::from(d) }
                } else if style == 2 && v.is_integer() && v.numer().to_i32().is_some() {
                    T::from(v.numer().to_i32().unwrap())
                } else {
                    T::from(v.clone())
                }
            }
            fn iv(x: &T, want: &Rational) -> i64 {
                match x.double_interval() {
                    None => 1,
                    Some((lo, hi)) => {
                        if lo.is_nan() || hi.is_nan() {
                            return 1; // no claim
                        }
                        let l = match Rational::from_f64(lo) { Some(l) => l <= *want, None => lo < 0.0 };
                        let u = match Rational::from_f64(hi) { Some(u) => *want <= u, None => hi > 0.0 };
                        b(l && u)
                    }
                }
            }
            pub fn program(cx: &mut Ctx, p: &Value, eps: &Rational, eid: usize, style: usize, skip: bool) {
                let ops = p["ops"].as_array().unwrap();
                let d = || json!({"k":"prog","t":T::NAME,"e":eid,"y":style,"skip":skip,"ops":p["ops"]});
                let res = cx.run(d, || {
                    let mut regs: Vec<T> = vec![];
                    let mut want: Vec<Rational> = vec![];
                    let mut r: Vec<Value> = vec![];
                    for op in ops {
                        let o = op["o"].as_str().unwrap();
                        let i = (op["i"].as_i64().unwrap() - 1).max(0) as usize;
                        let j = (op["j"].as_i64().unwrap() - 1).max(0) as usize;
                        let nv: Option<T> = match o {
                            // style 3 mixes the kinds of leaf within one program
                            "leaf" => Some(leaf(&value(op, eps), if style == 3 { regs.len() % 2 } else { style })),
                            "+" => Some(if style == 0 { &regs[i] + &regs[j] } else { regs[i].clone() + regs[j].clone() }),
                            "-" => Some(if style == 0 { &regs[i] - &regs[j] } else { regs[i].clone() - regs[j].clone() }),
                            "*" => Some(if style == 0 { &regs[i] * &regs[j] } else { regs[i].clone() * regs[j].clone() }),
                            "/" => Some(if style == 0 { &regs[i] / &regs[j] } else { regs[i].clone() / regs[j].clone() }),
                            "min" => Some(Scalar::min(regs[i].clone(), regs[j].clone())),
                            "max" => Some(Scalar::max(regs[i].clone(), regs[j].clone())),
                            "+=" => {
                                let mut x = regs[i].clone();
                                x += &regs[j];
                                Some(x)
                            }
                            "-=" => {
                                let mut x = regs[i].clone();
                                x -= &regs[j];
                                Some(x)
                            }
                            "neg" => Some(-regs[i].clone()),
                            "abs" => Some(regs[i].abs()),
                            "dup" => Some(regs[i].clone()),
                            "rep" => {
                                let mut x = regs[i].clone();
                                for _ in 0..op["k"].as_i64().unwrap() {
                                    x = &x + &regs[j];
                                }
                                Some(x)
                            }
                            _ => None,
                        };
                        if let Some(v) = nv {
                            regs.push(v);
                            want.push(value(op, eps));
                            r.push(json!([]));
                            continue;
                        }
                        if skip {
                            r.push(json!([]));
                            continue;
                        }
                        let (x, y) = (&regs[i], &regs[j]);
                        // the quick answer comes first, while nothing is known exactly
                        let quick = if o == "cmp" { T::quick(x, y) } else { 9 };
                        r.push(match o {
                            "sgn" => json!([x.sign(), b(Zero::is_zero(x)), b(x.is_positive()), b(x.is_negative()), b(x.is_positive_or_zero()), b(x.is_negative_or_zero()), T::lone(x, &want[i])[0], T::lone(x, &want[i])[1]]),
                            "cmp" => json!([
                                x.partial_cmp(y).map_or(9, ord), ord(T::cmp_ref(x, y)),
                                b(x == y), b(x < y), b(x <= y), b(x > y), b(x >= y), quick, T::slow(x, y)
                            ]),
                            "hash" => json!([b(h(x) == h(y))]),
                            "force" => json!([b(x.get().unwrap() == want[i])]),
                            "iv" => json!([iv(x, &want[i])]),
                            _ => json!([9]),
                        });
                    }
                    // after the program: sign of every register, and its exact value, last first
                    let mut fin: Vec<Value> = vec![];
                    for (x, w) in regs.iter().zip(&want).rev() {
                        let s = x.sign();
                        fin.push(json!([s, b(x.get().unwrap() == *w)]));
                    }
                    fin.reverse();
                    (r, fin)
                });
                let mut e = d();
                match res {
                    Ok((r, fin)) => {
                        e["r"] = json!(r);
                        e["fin"] = json!(fin);
                    }
                    Err(m) => e["panic"] = json!(m),
                }
                cx.emit(&e);
            }
        }
    };
}
imp!(r, CgarRational);
imp!(l, LazyExact);

pub fn epsilons() -> Vec<Rational> {
    let three = {
        let mut t = Rational::from(1);
        for _ in 0..40 {
            t /= 3;
        }
        t
    };
    vec![pow2(-40), pow2(-53), pow2(-60), three, pow2(-200), pow2(-400), pow2(-52), pow2(-1000)]
}

pub fn run(cx: &mut Ctx) {
    let text = std::fs::read_to_string(cx.input.as_ref().expect("--in")).unwrap();
    let eps = epsilons();
    for (k, line) in text.lines().enumerate() {
        let p: Value = serde_json::from_str(line).unwrap();
        // short programs get every kind of leaf, long ones a rotating selection
        let short = p["ops"].as_array().unwrap().len() <= 7;
        let n = if cx.thorough { eps.len() } else if short { 6 } else { 3 };
        for q in 0..n {
            let e = (k + q * 3) % eps.len();
            l::program(cx, &p, &eps[e], e, if short { q % 4 } else { (k + q) % 4 }, q % 3 == 2);
        }
        let e = k % eps.len();
        r::program(cx, &p, &eps[e], e, k % 3, false);
    }
}
