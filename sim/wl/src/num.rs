//! Element types of the workloads.
use num::traits::real::Real;
use num::{Num, NumCast, One, ToPrimitive, Zero};
use rust_light::tensor::{functional, Numeric, RcTensor};
use std::ops::*;

/// Payload of an injected panic.
pub struct Injected;

thread_local! { static CALLER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

pub use simrt::{fault_arm as arm, fault_disarm as disarm, ops};
/// mark the current thread as one that called the library (statistics only)
pub fn caller() {
    CALLER.with(|c| c.set(true));
}

#[inline(never)]
pub fn op() {
    if simrt::op() {
        simrt::probe(if CALLER.with(|c| c.get()) { 7 } else { 6 });
        std::panic::panic_any(Injected);
    }
}

/// An f64 whose arithmetic the simulator sees.  The alignment marks its buffers for the allocator.
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
#[repr(C, align(64))]
pub struct SimF(pub f64);

macro_rules! bin { ($($tr:ident $f:ident $op:tt),*) => { $(
    impl $tr for SimF { type Output = SimF;
        #[inline(never)] fn $f(self, o: SimF) -> SimF { op(); SimF(self.0 $op o.0) } }
)* } }
bin!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
// read-modify-write with a preemption point in the middle
impl AddAssign for SimF {
    #[inline(never)]
    fn add_assign(&mut self, o: SimF) {
        let v = self.0;
        op();
        simrt::point();
        self.0 = v + o.0;
    }
}
impl SubAssign for SimF {
    #[inline(never)]
    fn sub_assign(&mut self, o: SimF) {
        let v = self.0;
        op();
        simrt::point();
        self.0 = v - o.0;
    }
}
impl MulAssign for SimF {
    #[inline(never)]
    fn mul_assign(&mut self, o: SimF) {
        let v = self.0;
        op();
        simrt::point();
        self.0 = v * o.0;
    }
}
impl Neg for SimF {
    type Output = SimF;
    #[inline(never)]
    fn neg(self) -> SimF {
        op();
        SimF(-self.0)
    }
}
impl Zero for SimF {
    fn zero() -> Self {
        SimF(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for SimF {
    fn one() -> Self {
        SimF(1.0)
    }
}
impl Num for SimF {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl ToPrimitive for SimF {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for SimF {
    fn from<N: ToPrimitive>(n: N) -> Option<Self> {
        n.to_f64().map(SimF)
    }
}
impl From<f32> for SimF {
    fn from(v: f32) -> Self {
        SimF(v as f64)
    }
}
macro_rules! un { ($($f:ident),*) => { $( #[inline(never)] fn $f(self) -> Self { op(); SimF(f64::$f(self.0)) } )* } }
macro_rules! bi { ($($f:ident),*) => { $( #[inline(never)] fn $f(self, o: Self) -> Self { op(); SimF(f64::$f(self.0, o.0)) } )* } }
impl Real for SimF {
    fn min_value() -> Self {
        SimF(f64::MIN)
    }
    fn min_positive_value() -> Self {
        SimF(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Self {
        SimF(f64::EPSILON)
    }
    fn max_value() -> Self {
        SimF(f64::MAX)
    }
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians,
        cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    bi!(powf, log, max, min, hypot, atan2);
    fn is_sign_positive(self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.0.is_sign_negative()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        op();
        SimF(self.0 * a.0 + b.0)
    }
    fn powi(self, n: i32) -> Self {
        op();
        SimF(self.0.powi(n))
    }
    fn abs_sub(self, o: Self) -> Self {
        op();
        SimF(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn sin_cos(self) -> (Self, Self) {
        let (a, b) = self.0.sin_cos();
        (SimF(a), SimF(b))
    }
}
impl Numeric for SimF {}

/// What the workloads need from an element type.
pub trait Elem: Numeric + Neg<Output = Self> + 'static + std::panic::RefUnwindSafe + std::panic::UnwindSafe {
    const NAME: &'static str;
    /// integers of at most this magnitude are exact, whatever the order of additions
    const LIMIT: f64;
    fn from_f(v: f64) -> Self;
    fn to_f(self) -> f64;
    fn abs_t(t: &RcTensor<Self>) -> RcTensor<Self>;
    fn relu_t(t: &RcTensor<Self>) -> RcTensor<Self>;
    fn tanh_t(t: &RcTensor<Self>) -> RcTensor<Self>;
}
macro_rules! real_elem { ($t:ty, $n:expr, $lim:expr, $from:expr, $to:expr) => {
    impl Elem for $t {
        const NAME: &'static str = $n;
        const LIMIT: f64 = $lim;
        fn from_f(v: f64) -> Self { $from(v) }
        fn to_f(self) -> f64 { $to(self) }
        fn abs_t(t: &RcTensor<Self>) -> RcTensor<Self> { t.abs() }
        fn relu_t(t: &RcTensor<Self>) -> RcTensor<Self> { functional::relu(t.clone()) }
        fn tanh_t(t: &RcTensor<Self>) -> RcTensor<Self> { functional::tanh(t.clone()) }
    }
} }
real_elem!(SimF, "simf", 9e15, SimF, |x: SimF| x.0);
real_elem!(f64, "f64", 9e15, |v: f64| v, |x: f64| x);
real_elem!(f32, "f32", 16e6, |v: f64| v as f32, |x: f32| x as f64);
macro_rules! int_elem { ($t:ty, $n:expr, $lim:expr) => {
impl Elem for $t {
    const NAME: &'static str = $n;
    const LIMIT: f64 = $lim;
    fn from_f(v: f64) -> Self {
        v as $t
    }
    fn to_f(self) -> f64 {
        self as f64
    }
    fn abs_t(_: &RcTensor<Self>) -> RcTensor<Self> {
        unreachable!()
    }
    fn relu_t(_: &RcTensor<Self>) -> RcTensor<Self> {
        unreachable!()
    }
    fn tanh_t(_: &RcTensor<Self>) -> RcTensor<Self> {
        unreachable!()
    }
}
} }
int_elem!(i64, "i64", 4e18);
int_elem!(i32, "i32", 2e9);
