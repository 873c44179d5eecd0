//! `Tag<N>`: an f64 like `SimF` whose element operations know to which caller (N) they belong, or
//! (N = RE) are themselves users of rayon and of the library.
use num::traits::real::Real;
use num::{Num, NumCast, One, ToPrimitive, Zero};
use rust_light::tensor::{functional, Numeric, RcTensor};
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
#[repr(C, align(64))]
pub struct Tag<const N: usize>(pub f64);

#[inline(never)]
fn op(n: usize) {
    crate::num::op();
    crate::scen3::element_operation(n);
}

macro_rules! bin { ($($tr:ident $f:ident $op:tt),*) => { $(
    impl<const N: usize> $tr for Tag<N> { type Output = Tag<N>;
        #[inline(never)] fn $f(self, o: Tag<N>) -> Tag<N> { op(N); Tag(self.0 $op o.0) } }
)* } }
bin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
// read-modify-write with a preemption point in the middle
impl<const N: usize> AddAssign for Tag<N> {
    #[inline(never)]
    fn add_assign(&mut self, o: Tag<N>) {
        let v = self.0;
        op(N);
        simrt::point();
        self.0 = v + o.0;
    }
}
impl<const N: usize> SubAssign for Tag<N> {
    #[inline(never)]
    fn sub_assign(&mut self, o: Tag<N>) {
        let v = self.0;
        op(N);
        simrt::point();
        self.0 = v - o.0;
    }
}
impl<const N: usize> MulAssign for Tag<N> {
    #[inline(never)]
    fn mul_assign(&mut self, o: Tag<N>) {
        let v = self.0;
        op(N);
        simrt::point();
        self.0 = v * o.0;
    }
}
impl<const N: usize> Neg for Tag<N> {
    type Output = Tag<N>;
    #[inline(never)]
    fn neg(self) -> Tag<N> {
        op(N);
        Tag(-self.0)
    }
}
impl<const N: usize> Zero for Tag<N> {
    fn zero() -> Self {
        Tag(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl<const N: usize> One for Tag<N> {
    fn one() -> Self {
        Tag(1.0)
    }
}
impl<const N: usize> Num for Tag<N> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl<const N: usize> ToPrimitive for Tag<N> {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl<const N: usize> NumCast for Tag<N> {
    fn from<V: ToPrimitive>(n: V) -> Option<Self> {
        n.to_f64().map(Tag)
    }
}
impl<const N: usize> From<f32> for Tag<N> {
    fn from(v: f32) -> Self {
        Tag(v as f64)
    }
}
macro_rules! un { ($($f:ident),*) => { $( #[inline(never)] fn $f(self) -> Self { op(N); Tag(f64::$f(self.0)) } )* } }
macro_rules! bi { ($($f:ident),*) => { $( #[inline(never)] fn $f(self, o: Self) -> Self { op(N); Tag(f64::$f(self.0, o.0)) } )* } }
impl<const N: usize> Real for Tag<N> {
    fn min_value() -> Self {
        Tag(f64::MIN)
    }
    fn min_positive_value() -> Self {
        Tag(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Self {
        Tag(f64::EPSILON)
    }
    fn max_value() -> Self {
        Tag(f64::MAX)
    }
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians,
        cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    bi!(powf, log, max, min, hypot, atan2);
    fn is_sign_positive(self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.0.is_sign_negative()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        op(N);
        Tag(self.0 * a.0 + b.0)
    }
    fn powi(self, n: i32) -> Self {
        op(N);
        Tag(self.0.powi(n))
    }
    fn abs_sub(self, o: Self) -> Self {
        op(N);
        Tag(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn sin_cos(self) -> (Self, Self) {
        let (a, b) = self.0.sin_cos();
        (Tag(a), Tag(b))
    }
}
impl<const N: usize> Numeric for Tag<N> {}


impl<const N: usize> crate::num::Elem for Tag<N> {
    const NAME: &'static str = "tag";
    const LIMIT: f64 = 9e15;
    fn from_f(v: f64) -> Self {
        Tag(v)
    }
    fn to_f(self) -> f64 {
        self.0
    }
    fn abs_t(t: &RcTensor<Self>) -> RcTensor<Self> {
        t.abs()
    }
    fn relu_t(t: &RcTensor<Self>) -> RcTensor<Self> {
        functional::relu(t.clone())
    }
    fn tanh_t(t: &RcTensor<Self>) -> RcTensor<Self> {
        functional::tanh(t.clone())
    }
}
