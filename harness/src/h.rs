//! Shared helpers: symbolic points, intervals and sets, and branch-free membership oracles.
use crate::v::*;
use chronologic::*;
use std::ops::*;

pub const MAX: i64 = i64::MAX;                       // ticks of +oo
pub const FIN: i64 = i64::MAX - 1;                   // largest finite tick
/// bound of the ticks of windows: every finite tick
pub const WIDE: i64 = FIN;
/// the same without the first and the last finite ticks, where a set of points is written in two ways (up to the last
/// finite tick, or unbounded): used where the property is about the written form (equality, reported changes)
pub const NEAR: i64 = FIN - 1;

/// a point type of the crate, built from and reduced to ticks
pub trait Pt: TimePoint + TimeConvex<TimePoint = Self> + std::hash::Hash + 'static
    + BitOr<TimeInterval<Self>, Output = TimeSet<Self>> + BitOr<Self, Output = TimeSet<Self>>
    + BitAnd<TimeInterval<Self>, Output = TimeInterval<Self>> + BitAnd<Self, Output = TimeInterval<Self>>
    + Not<Output = TimeSet<Self>>
    + Add<TimeValue, Output = Self> + Sub<TimeValue, Output = Self> + AddAssign<TimeValue> + SubAssign<TimeValue>
{ fn mk(t: i64) -> Self; fn tk(self) -> i64; }
impl Pt for TimeValue { #[inline(always)] fn mk(t: i64) -> Self { TimeValue::from_ticks(t) } #[inline(always)] fn tk(self) -> i64 { self.as_ticks() } }
impl Pt for Timestamp { #[inline(always)] fn mk(t: i64) -> Self { Timestamp::from_origin(TimeValue::from_ticks(t)) } #[inline(always)] fn tk(self) -> i64 { self.since_origin().as_ticks() } }

pub fn tv(t: i64) -> TimeValue { TimeValue::from_ticks(t) }
pub fn ts(t: i64) -> Timestamp { Timestamp::from_origin(TimeValue::from_ticks(t)) }
/// any point, infinities included
pub fn pt<T: Pt>() -> T { T::mk(range(-MAX, MAX)) }
/// any finite point
pub fn fpt<T: Pt>() -> T { T::mk(range(-FIN, FIN)) }

/// the points of a window written as explicit pieces (lower, upper), both inclusive
#[derive(Clone, Copy)]
pub struct Pieces<const N: usize> { pub n: usize, pub b: [(i64, i64); N] }
pub const NP: usize = 10;
pub type P = Pieces<NP>;
pub fn none() -> P { Pieces { n: 0, b: [(0, 0); NP] } }
pub fn one(a: i64, b: i64) -> P { let mut p = none(); p.n = 1; p.b[0] = (a, b); p }

impl P {
    /// is the finite tick x in the window?  (no branch on symbolic data)
    pub fn has(&self, x: i64) -> bool { let mut r = false; let mut i = 0; while i < self.n { r |= (self.b[i].0 <= x) & (x <= self.b[i].1); i += 1; } r }
    pub fn push(&mut self, a: i64, b: i64) { check(self.n < NP, "too many pieces"); self.b[self.n] = (a, b); self.n += 1; }
    /// strictly ordered, non-empty, separated by at least one missing tick, bounds not on the wrong infinity
    pub fn canonical(&self) -> bool {
        let mut r = true; let mut i = 0;
        while i < self.n { let (a, b) = self.b[i]; r &= (a <= b) & (a < MAX) & (b > -MAX) & (a >= -MAX);
            if i > 0 { r &= (self.b[i - 1].1 as i128) + 1 < a as i128; } i += 1; }
        r }
    pub fn same(&self, o: &P) -> bool { if self.n != o.n { return false } let mut r = true; let mut i = 0; while i < self.n { r &= (self.b[i].0 == o.b[i].0) & (self.b[i].1 == o.b[i].1); i += 1; } r }
    pub fn obs(&self) { observe(self.n as i64); let mut i = 0; while i < self.n { observe(self.b[i].0); observe(self.b[i].1); i += 1; } }
}

/// n symbolic pieces in canonical position; bounds within +-lim, the outer ones possibly infinite when `inf`
pub fn pieces(n: usize, lim: i64, inf: bool) -> P {
    let mut p = none();
    let mut i = 0;
    while i < n {
        let a = if i == 0 && inf { range(-MAX, lim) } else { range(-lim, lim) };
        let b = if i + 1 == n && inf { range(-lim, MAX) } else { range(-lim, lim) };
        if i == 0 && inf { assume((a == -MAX) | (a >= -lim)); }
        if i + 1 == n && inf { assume((b == MAX) | (b <= lim)); }
        assume(a <= b);
        if i > 0 { assume(p.b[i - 1].1 < a - 1); }
        p.b[i] = (a, b); p.n = i + 1;
        i += 1;
    }
    p
}
/// the set with exactly these pieces (built through the public API)
pub fn set<T: Pt>(p: &P) -> TimeSet<T> {
    let mut v = Vec::with_capacity(p.n); let mut i = 0;
    while i < p.n { v.push(itv::<T>(p.b[i])); i += 1; }
    v.into_iter().collect()
}
/// the interval with these bounds (must be valid: not empty)
pub fn itv<T: Pt>(b: (i64, i64)) -> TimeInterval<T> { unsafe { TimeInterval::new_unchecked(T::mk(b.0), T::mk(b.1)) } }
/// interval from 0 or 1 pieces
pub fn itv01<T: Pt>(p: &P) -> TimeInterval<T> { if p.n == 0 { TimeInterval::empty() } else { itv(p.b[0]) } }
/// read back the pieces of a window through its iterator
pub fn read<T: Pt, I: Iterator<Item = TimeInterval<T>>>(it: I) -> P { let mut p = none(); for i in it { p.push(i.lower_bound().tk(), i.upper_bound().tk()); } p }
pub fn reads<T: Pt>(s: &TimeSet<T>) -> P { read(s.iter()) }
pub fn readi<T: Pt>(i: &TimeInterval<T>) -> P { if i.is_empty() { none() } else { one(i.lower_bound().tk(), i.upper_bound().tk()) } }
/// saturating addition of possibly infinite ticks (not defined on opposite infinities)
pub fn sadd(a: i64, b: i64) -> i64 { if a == MAX || a == -MAX { a } else if b == MAX || b == -MAX { b } else { sat(a as i128 + b as i128) } }
pub fn sat(v: i128) -> i64 { if v >= MAX as i128 { MAX } else if v <= -(MAX as i128) { -MAX } else { v as i64 } }
pub fn fin(a: i64) -> bool { (a != MAX) & (a != -MAX) }

/// any bound, infinite or not
pub fn bnd() -> i64 { range(-MAX, MAX) }
/// any bound, infinite or finite except the first and the last finite ticks
pub fn near() -> i64 { let t = range(-MAX, MAX); assume((t == MAX) | (t == -MAX) | ((t >= -NEAR) & (t <= NEAR))); t }
/// calls f::<TimeValue>() or f::<Timestamp>() according to the first parameter
macro_rules! typed { ($f:ident) => { if param(0) == 0 { $f::<TimeValue>() } else { $f::<Timestamp>() } } }
