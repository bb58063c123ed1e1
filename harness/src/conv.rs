//! Replays chains of conversions between the scalar types.
use crate::util::*;
use cgar::geometry::matrix::Matrix;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::vector::Vector;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{FromRef, RefInto, Scalar};
use cgar::operations::Abs;
use num_traits::ToPrimitive;
use rug::{Integer, Rational};
use serde_json::{Value, json};
use std::io::{BufRead, BufReader};

fn limbs(v: &Integer) -> Value {
    let neg = *v < 0;
    let mut v = v.clone().abs();
    let mut out = vec![];
    while v != 0 {
        let (q, r) = v.div_rem(Integer::from(10000));
        let r = r.to_i64().unwrap();
        out.push(if neg { -r } else { r });
        v = q;
    }
    json!(out)
}
fn frac(r: &Rational) -> Value {
    json!([limbs(r.numer()), limbs(r.denom())])
}
/// m * 2^e with the full number of digits in m
fn float(v: f64, bits: u32) -> Value {
    if !v.is_finite() {
        return json!({"m": [], "e": -9999});
    }
    let r = Rational::from_f64(v).unwrap();
    if r == 0 {
        return json!({"m": [], "e": 0});
    }
    let mut m = r.numer().clone();
    let mut e = -((r.denom().significant_bits() - 1) as i64);
    while m.clone().abs().significant_bits() > bits && m.is_even() {
        m >>= 1;
        e += 1;
    }
    let k = m.clone().abs().significant_bits();
    if k < bits {
        m <<= bits - k;
        e -= (bits - k) as i64;
    }
    json!({"m": limbs(&m), "e": e})
}
fn whole(v: Option<Integer>) -> Value {
    v.map_or(json!([]), |x| json!([limbs(&x)]))
}

enum Any {
    D(CgarF64),
    Q(CgarRational),
    Z(LazyExact),
}
/// everything a number says about itself
fn seen<T: Scalar>(x: &T, ty: &str, via: &str) -> Value {
    let up = T::from_num_den(7, 2);
    let (a, b) = (Scalar::min(x.clone(), up.clone()), Scalar::max(x.clone(), up.clone()));
    let low = x.partial_cmp(&up) != Some(std::cmp::Ordering::Greater);
    let near = x.partial_cmp(&up) == Some(std::cmp::Ordering::Equal);
    let ax = x.abs();
    json!({
        "ty": ty, "via": via, "dbl": {"m": [], "e": 0}, "val": [[], [1]],
        "f64": x.to_f64().map_or(float(f64::NAN, 53), |v| float(v, 53)),
        "f32": x.to_f32().map_or(float(f64::NAN, 24), |v| float(v as f64, 24)),
        "i64": whole(x.to_i64().map(Integer::from)), "u64": whole(x.to_u64().map(Integer::from)),
        "iv": x.double_interval().map_or(json!([]), |(l, h)| json!([float(l, 53), float(h, 53)])),
        "fast": x.as_f64_fast().map_or(json!([]), |v| json!([float(v, 53)])),
        "sign": x.sign(),
        "abs": ax == *x || ax == -x.clone() && x.sign() <= 0,
        "least": near || if low { a == *x && b == up } else { a == up && b == *x },
    })
}
impl Any {
    fn see(&self, via: &str) -> Value {
        match self {
            Any::D(x) => {
                let mut o = seen(x, "double", via);
                o["dbl"] = float(x.0, 53);
                o
            }
            Any::Q(x) => {
                let mut o = seen(x, "rational", via);
                o["val"] = frac(&x.0);
                o
            }
            Any::Z(x) => {
                let mut o = seen(x, "lazy", via);
                o["val"] = frac(&x.exact().0);
                o
            }
        }
    }
    fn to(&self, ty: &str, way: &str, axis: usize) -> Any {
        match ty {
            "double" => Any::D(self.by::<CgarF64>(way, axis)),
            "rational" => Any::Q(self.by::<CgarRational>(way, axis)),
            _ => Any::Z(self.by::<LazyExact>(way, axis)),
        }
    }
    fn by<U>(&self, way: &str, axis: usize) -> U
    where
        U: Scalar,
        CgarF64: RefInto<U>,
        CgarRational: RefInto<U>,
        LazyExact: RefInto<U>,
    {
        match self {
            Any::D(x) => step::<CgarF64, U>(x, way, axis),
            Any::Q(x) => step::<CgarRational, U>(x, way, axis),
            Any::Z(x) => step::<LazyExact, U>(x, way, axis),
        }
    }
}
fn step<T, U>(x: &T, way: &str, axis: usize) -> U
where
    T: Scalar + RefInto<U>,
    U: Scalar + From<T> + FromRef<T>,
{
    let at = |i: usize| if i == axis { x.clone() } else { T::from(i as i32 + 11) };
    match way {
        "from" => U::from(x.clone()),
        "from-ref" => U::from_ref(x),
        "ref-into" => x.ref_into(),
        "point" => Point::<T, 3>::new([at(0), at(1), at(2)]).cast::<U>()[axis].clone(),
        "vector" => Vector::<T, 3>::new([at(0), at(1), at(2)]).cast::<U>()[axis].clone(),
        _ => Matrix::<T, 1, 3>::new([[at(0), at(1), at(2)]]).cast::<U>()[0][axis].clone(),
    }
}
fn value(g: &mut Rng) -> Rational {
    let sgn = if g.chance(1, 2) { -1 } else { 1 };
    if g.chance(1, 60) {
        // an everyday size written with more digits than a double can count
        let big = Integer::from(Integer::u_pow_u(7, 366 + g.below(6) as u32));
        let small = Integer::from(&big + (g.next() >> 20)) * g.range(1, 40);
        return Rational::from((small, big)) * sgn;
    }
    let r = match g.below(8) {
        0 => rat(g.range(-40, 40), 1),
        1 => rat(g.range(-40, 40), *g.pick(&[2, 3, 4, 5, 7, 8])),
        2 => Rational::from(Integer::from(g.next() >> g.below(12))) / Rational::from(1), // up to 64 bits
        3 => Rational::from(Integer::from((g.next() >> 11) | 1)) * pow2(g.range(-110, 20) as i32), // a double
        4 => Rational::from(Integer::from((g.next() >> 10) | 1)) * pow2(g.range(-110, 10) as i32), // half way between doubles
        5 => rat(g.range(1, 50), 3) * pow2(g.range(-60, 55) as i32),
        6 => {
            // next to a power of two
            let k = g.range(-40, 63) as i32;
            pow2(k) + Rational::from(g.range(-2, 2)) * pow2(k - 52 - g.range(0, 3) as i32)
        }
        _ => Rational::from(Integer::from((g.next() >> 11) | 1)) * pow2(g.range(-60, 0) as i32) + rat(g.range(-1, 1), 1) * pow2(-100),
    };
    r * sgn
}
/// positive numbers and the operations that join them, none of which cancels digits
fn recipe(g: &mut Rng) -> Vec<(char, Rational)> {
    let n = 2 + g.below(4);
    let mut at = Rational::from(1);
    (0..n)
        .map(|i| {
            let r = rat(g.range(1, 400), g.range(1, 90));
            let mut op = if i == 0 { '+' } else { *g.pick(&['+', '*', '/', '-', 'm', '=']) };
            if op == '-' && at < Rational::from(&r * 2) {
                op = '+';
            }
            at = join(&at, op, &r, i == 0);
            (op, r)
        })
        .collect()
}
fn join(a: &Rational, op: char, b: &Rational, first: bool) -> Rational {
    match op {
        _ if first => b.clone(),
        '+' | '=' => Rational::from(a + b),
        '-' => Rational::from(a - b),
        '/' => Rational::from(a / b),
        _ => Rational::from(a * b),
    }
}
/// the doubles that stand for a lazily computed number before and after its digits are known
fn cook(recipe: &[(char, Rational)], axis: usize) -> Value {
    let (mut v, mut x) = (Rational::from(1), LazyExact::from(1));
    for (i, (op, r)) in recipe.iter().enumerate() {
        v = join(&v, *op, r, i == 0);
        let y = LazyExact::from(r.clone());
        x = match op {
            _ if i == 0 => y,
            '+' => &x + &y,
            '-' => &x - &y,
            '*' => &x * &y,
            '/' => &x / &y,
            '=' => {
                x += &y;
                x
            }
            _ => {
                let n = -x;
                -(n * y)
            }
        };
    }
    let z = Any::Z(x);
    let mut ds: Vec<f64> = vec![];
    let mut iv = vec![];
    for round in 0..2 {
        for way in ["from", "from-ref", "ref-into", "point", "vector", "matrix"] {
            if let Any::D(d) = z.to("double", way, axis) {
                ds.push(d.0);
            }
        }
        if let Any::Z(x) = &z {
            ds.push(x.ball_center_f64());
            ds.extend(x.as_f64_fast());
            iv.push(x.double_interval().map_or(json!([]), |(l, h)| json!([float(l, 53), float(h, 53)])));
            if round == 0 {
                x.exact();
            }
        }
    }
    json!({"v": frac(&v), "ds": ds.iter().map(|d| float(*d, 53)).collect::<Vec<_>>(), "iv": iv, "how": recipe.iter().map(|(o, r)| format!("{o}{r}")).collect::<Vec<_>>().join(" ")})
}

pub fn run(cx: &mut Ctx) {
    let path = cx.input.clone().expect("--in");
    let lines: Vec<Value> = BufReader::new(std::fs::File::open(path).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    for beh in lines {
        let ty = beh["ty"].as_str().unwrap().to_string();
        let start = beh["start"].as_str().unwrap().to_string();
        let reps = cx.scale(1, 4);
        for _ in 0..reps {
            let axis = cx.rng.below(3);
            // the number and the call that makes it
            let g = &mut cx.rng;
            let mut pair = (0i32, 1i32);
            let v = match start.as_str() {
                "whole" => {
                    pair.0 = *g.pick(&[i32::MIN, i32::MIN + 1, -65537, -1, 0, 1, 3, 46341, i32::MAX - 1, i32::MAX]);
                    rat(pair.0 as i64, 1)
                }
                "fraction" => {
                    pair = (*g.pick(&[i32::MIN, -17, -3, -1, 0, 1, 2, 5, 1000003, i32::MAX]), *g.pick(&[-7, -2, -1, 1, 2, 3, 10, 65536, i32::MAX]));
                    Rational::from((pair.0, pair.1))
                }
                "double" => Rational::from_f64(value(g).to_f64()).unwrap(),
                _ => value(g),
            };
            let d = v.to_f64();
            // a lazily computed number whose parts have not been added up yet
            let part = if start == "number" && ty == "lazy" && beh["path"][0][0] == "rational" && g.chance(1, 2) { Some(value(g)) } else { None };
            let base = json!({"start": start, "ty": ty, "path": beh["path"], "v": frac(&v), "text": v.to_string(), "axis": axis, "mix": [], "part": part.as_ref().map_or(String::new(), |p| p.to_string()), "s": [], "fail": []});
            let mixed = if ty == "lazy" { Some(recipe(g)) } else { None };
            fn mk<T: Scalar>(start: &str, pair: (i32, i32), d: f64, v: &Rational) -> T {
                match start {
                    "whole" => T::from(pair.0),
                    "fraction" => T::from_num_den(pair.0, pair.1),
                    "double" => T::from(d),
                    _ => T::from(v.clone()),
                }
            }
            let out = cx.run(|| base.clone(), || {
                let mut steps = vec![];
                let mut x = match ty.as_str() {
                    "double" => Any::D(mk(&start, pair, d, &v)),
                    "rational" => Any::Q(mk(&start, pair, d, &v)),
                    _ => Any::Z(mk(&start, pair, d, &v)),
                };
                if let Some(p) = &part {
                    let rest = Rational::from(&v - p);
                    let z = LazyExact::from(p.clone()) + LazyExact::from(rest);
                    x = Any::Z(z).to("rational", "from-ref", axis);
                    steps.push(x.see("sum"));
                } else {
                    steps.push(x.see(&start));
                }
                for st in beh["path"].as_array().unwrap() {
                    let way = st[1].as_str().unwrap();
                    x = x.to(st[0].as_str().unwrap(), way, axis);
                    steps.push(x.see(way));
                }
                (steps, mixed.as_ref().map_or(vec![], |m| vec![cook(m, axis)]))
            });
            let mut o = base;
            match out {
                Ok((s, m)) => {
                    o["s"] = json!(s);
                    o["mix"] = json!(m);
                }
                Err(e) => o["fail"] = json!([e]),
            }
            cx.emit(&o);
        }
    }
}
