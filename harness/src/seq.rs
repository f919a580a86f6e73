//! C24: periodic sequences of dates
use crate::{h::*, v::*};
use chronologic::*;

/// the sequence, as seen through its iterator
fn with<R>(kind: i64, t: i64, p: i64, f: impl FnOnce(&mut dyn Seq) -> R) -> R {
    match kind { 0 => f(&mut ts(t).forward_sequence(tv(p))), 1 => f(&mut ts(t).backward_sequence(tv(p))), 2 => f(&mut ts(t).forward_periods(tv(p))), _ => f(&mut ts(t).backward_periods(tv(p))) }
}
trait Seq { fn step(&mut self) -> Option<i64>; fn jump(&mut self, n: usize) -> Option<i64>; fn hint(&self) -> (usize, Option<usize>); fn number(&self) -> usize; fn end(&self) -> Option<i64>; }
impl<I: Iterator<Item = Timestamp> + Clone> Seq for I {
    fn step(&mut self) -> Option<i64> { self.next().map(|t| t.tk()) }
    fn jump(&mut self, n: usize) -> Option<i64> { self.nth(n).map(|t| t.tk()) }
    fn hint(&self) -> (usize, Option<usize>) { self.size_hint() }
    fn number(&self) -> usize { self.clone().count() }
    fn end(&self) -> Option<i64> { self.clone().last().map(|t| t.tk()) }
}
/// any date and period; the date before the first one has to be finite
fn start(kind: i64) -> (i64, i64, i64) {
    let t = range(-FIN, FIN); let p = if param(1) > 0 { param(1) } else { range(1, FIN) };
    // the first date
    let first = if kind < 2 { t as i128 } else { let q = (t as i128).wrapping_div(p as i128); let r = t as i128 - q * p as i128;
        if kind == 2 { if r > 0 { (q + 1) * p as i128 } else { q * p as i128 } } else if r < 0 { (q - 1) * p as i128 } else { q * p as i128 } };
    let before = if kind & 1 == 0 { first - p as i128 } else { first + p as i128 };
    assume((first > -(MAX as i128)) & (first < MAX as i128) & (before > -(MAX as i128)) & (before < MAX as i128));
    (t, p, first as i64)
}
fn date(kind: i64, first: i64, p: i64, k: i128) -> Option<i64> {
    let v = if kind & 1 == 0 { first as i128 + (p as i128).wrapping_mul(k) } else { first as i128 - (p as i128).wrapping_mul(k) };
    if v >= MAX as i128 || v <= -(MAX as i128) { None } else { Some(v as i64) }
}
// the first dates. params: kind, period (0: any), number
#[no_mangle] pub extern "C" fn q_steps() {
    let kind = param(0); let (t, p, first) = start(kind);
    with(kind, t, p, |s| { let mut k = 0; let mut over = false;
        while k < param(2) { let r = s.step(); observe(r.unwrap_or(MAX)); let e = if over { None } else { date(kind, first, p, k as i128) }; if e.is_none() { over = true }
            check(r == e, "each date is one period after the previous one, up to infinity"); k += 1; }
        cover_if(over, "ended"); cover_if(!over, "not ended"); })
}
// the last dates, announced length. params: kind, period, steps before
#[no_mangle] pub extern "C" fn q_length() {
    let kind = param(0); let (t, p, first) = start(kind);
    with(kind, t, p, |s| { let mut k = 0; while k < param(2) { s.step(); k += 1; }
        let (lo, hi) = s.hint(); let n = s.number(); observe(n as i64); check(lo == n && hi == Some(n), "the announced length is the count");
        let k = param(2) as i128; let c = n as i128;
        check(date(kind, first, p, k + c).is_none(), "no more date than announced");
        let last = if c > 0 { date(kind, first, p, k + c - 1) } else { None }; if c > 0 { check(last.is_some(), "as many dates as announced"); }
        check(s.end() == last, "the last date is that of full iteration"); cover_if(n == 0, "ended"); cover_if(n > 0, "not ended"); })
}
// jumping. params: kind, period, steps before, steps after
#[no_mangle] pub extern "C" fn q_nth() {
    let kind = param(0); let (t, p, first) = start(kind); let n: u64 = if sbool() { range(0, MAX) as u64 } else { (1u64 << 63) + range(0, MAX) as u64 };
    with(kind, t, p, |s| { let mut k = 0; while k < param(2) { s.step(); k += 1; }
        let r = s.jump(n as usize); observe(r.unwrap_or(MAX)); let mut k = k as i128 + n as i128; let mut e = date(kind, first, p, k); if date(kind, first, p, param(2) as i128 - 1).is_none() && param(2) > 0 { e = None }
        check(r == e, "jumping to the n-th date is n + 1 steps"); let mut over = e.is_none();
        let mut c = 0; while c < 2 { k += 1; let r = s.step(); let e = if over { None } else { date(kind, first, p, k) }; if e.is_none() { over = true } check(r == e, "jumping leaves the same remainder"); c += 1; }
        cover_if(r.is_some(), "reached"); cover_if(r.is_none(), "beyond"); })
}
