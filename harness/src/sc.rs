//! Scalars under test and the exact affine maps that carry a lattice
//! configuration of the specification to concrete coordinates and back.
use crate::util::*;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use rug::Rational;

pub trait Sc: Sized + Clone {
    const NAME: &'static str;
    const EXACT: bool;
    fn mk(r: &Rational) -> Self;
    /// value as a rational; for doubles the small rational it stands for
    fn get(&self) -> Option<Rational>;
}
impl Sc for CgarF64 {
    const NAME: &'static str = "f64";
    const EXACT: bool = false;
    fn mk(r: &Rational) -> Self {
        CgarF64(r.to_f64())
    }
    fn get(&self) -> Option<Rational> {
        Rational::from_f64(self.0)
    }
}
impl Sc for CgarRational {
    const NAME: &'static str = "rational";
    const EXACT: bool = true;
    fn mk(r: &Rational) -> Self {
        CgarRational(r.clone())
    }
    fn get(&self) -> Option<Rational> {
        Some(self.0.clone())
    }
}
impl Sc for LazyExact {
    const NAME: &'static str = "lazy";
    const EXACT: bool = true;
    fn mk(r: &Rational) -> Self {
        LazyExact::from(r.clone())
    }
    fn get(&self) -> Option<Rational> {
        Some(self.exact().0)
    }
}

/// x -> scale * x + shift[axis], with exact inverse.
#[derive(Clone, Debug)]
pub struct Xf {
    pub id: usize,
    pub scale: Rational,
    pub shift: [Rational; 3],
}
impl Xf {
    pub fn fwd(&self, axis: usize, x: i64) -> Rational {
        Rational::from(&self.scale * x) + &self.shift[axis]
    }
    pub fn fwd_r(&self, axis: usize, x: &Rational) -> Rational {
        Rational::from(&self.scale * x) + &self.shift[axis]
    }
    pub fn inv(&self, axis: usize, y: &Rational) -> Rational {
        (Rational::from(y - &self.shift[axis])) / &self.scale
    }
}

/// Exact-in-f64 maps, usable with every scalar type.
pub fn xf_double() -> Vec<Xf> {
    let z = || Rational::new();
    vec![
        Xf { id: 0, scale: rat(1, 1), shift: [z(), z(), z()] },
        Xf { id: 1, scale: rat(1, 2), shift: [rat(-3, 1), rat(5, 2), rat(7, 4)] },
        Xf { id: 2, scale: rat(8, 1), shift: [rat(100, 1), rat(-200, 1), rat(50, 1)] },
        Xf { id: 3, scale: rat(3, 1), shift: [rat(-11, 1), rat(-12, 1), rat(-13, 1)] },
    ]
}
/// Maps only exact scalars can carry without rounding.
pub fn xf_exact() -> Vec<Xf> {
    vec![
        Xf { id: 10, scale: rat(1, 3), shift: [rat(1, 7), rat(-2, 11), rat(5, 13)] },
        Xf { id: 11, scale: rat(1_000_003, 1), shift: [rat(1_000_000_007, 1), rat(-999_999_937, 1), rat(123_456_789, 1)] },
        Xf { id: 12, scale: pow2(-70), shift: [rat(1, 1), rat(1, 3), rat(-1, 1)] },
        Xf { id: 13, scale: rat(1, 1_000_000_007), shift: [rat(3, 1), rat(-5, 9), rat(1, 1_000_003)] },
    ]
}

/// The coordinate a result of the code stands for on the lattice side.
pub fn back<T: Sc>(x: &Xf, axis: usize, v: &T) -> serde_json::Value {
    match v.get() {
        None => serde_json::json!([0, 0]),
        Some(r) => {
            let y = x.inv(axis, &r);
            if T::EXACT {
                rj(&y)
            } else {
                match snap(y.to_f64(), 20000) {
                    Some(s) => rj(&s),
                    None => serde_json::json!([0, 0]),
                }
            }
        }
    }
}
