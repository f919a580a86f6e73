//! C01-C04: durations and dates
use crate::{h::*, v::*};
use chronologic::*;

#[inline(always)] fn opposite(a: i64, b: i64) -> bool { ((a == MAX) & (b == -MAX)) | ((a == -MAX) & (b == MAX)) }

// ---- C01. params: variant
#[no_mangle] pub extern "C" fn c01_arith() {
    let a = range(-MAX, MAX); let b = range(-MAX, MAX);
    let k = param(0);
    let sub = k >= 10; let b2 = if sub { -b } else { b };
    let bad = opposite(a, b2);
    cover_if(bad, "opposite infinities");
    may_panic(bad);
    let r = match k {
        0 => (tv(a) + tv(b)).as_ticks(),
        1 => { let mut x = tv(a); x += tv(b); x.as_ticks() }
        2 => (ts(a) + tv(b)).tk(),
        3 => { let mut x = ts(a); x += tv(b); x.tk() }
        4 => (tv(a) + ts(b)).tk(),
        5 => [tv(a), tv(b)].into_iter().sum::<TimeValue>().as_ticks(),
        10 => (tv(a) - tv(b)).as_ticks(),
        11 => { let mut x = tv(a); x -= tv(b); x.as_ticks() }
        12 => (ts(a) - tv(b)).tk(),
        13 => { let mut x = ts(a); x -= tv(b); x.tk() }
        14 => (ts(a) - ts(b)).as_ticks(),
        _ => (tv(a) - ts(b)).tk(),
    };
    may_panic(false);
    check(!bad, "adding opposite infinities must be refused");
    observe(r);
    let e = sadd(a, b2);
    cover_if(fin(a) & fin(b) & !fin(r), "saturated"); cover_if(fin(r), "finite");
    check(r == e, "exact, saturating, absorbing arithmetic");
}
#[no_mangle] pub extern "C" fn c01_sum3() {
    let v = [range(-MAX, MAX), range(-MAX, MAX), range(-MAX, MAX)];
    // the running sum may itself saturate: the order of the list is the order of addition
    let s0 = v[0]; let bad1 = opposite(s0, v[1]);
    let s1 = if bad1 { 0 } else { sadd(s0, v[1]) }; let bad = bad1 | opposite(s1, v[2]);
    may_panic(bad);
    let r = v.iter().map(|&t| tv(t)).sum::<TimeValue>().as_ticks();
    may_panic(false);
    check(!bad, "adding opposite infinities must be refused");
    observe(r); check(r == sadd(s1, v[2]), "sum");
    check(std::iter::empty::<TimeValue>().sum::<TimeValue>().as_ticks() == 0, "empty sum");
    cover("sum");
}
#[no_mangle] pub extern "C" fn c01_unary() {
    let a = range(-MAX, MAX);
    let (t, s) = (tv(a), ts(a));
    check((-t).as_ticks() == -a, "negation of a duration"); check((-s).tk() == -a, "negation of a date");
    let after = if fin(a) { a + 1 } else { a }; let before = if fin(a) { a - 1 } else { a };
    check(t.just_after().as_ticks() == after, "next duration"); check(s.just_after().tk() == after, "next date");
    check(t.just_before().as_ticks() == before, "previous duration"); check(s.just_before().tk() == before, "previous date");
    check(t.is_finite() == fin(a), "finite"); check(s.is_finite() == fin(a), "finite date");
    check(t.is_future_infinite() == (a == MAX), "+oo"); check(t.is_past_infinite() == (a == -MAX), "-oo");
    check(s.is_future_infinite() == (a == MAX), "+oo date"); check(s.is_past_infinite() == (a == -MAX), "-oo date");
    check(t.is_zero() == (a == 0), "zero"); check(t.is_positive() == (a >= 0), "positive"); check(t.is_negative() == (a <= 0), "negative");
    check(t.is_strictly_positive() == (a > 0), "strictly positive"); check(t.is_strictly_negative() == (a < 0), "strictly negative");
    let b = range(-MAX, MAX);
    check((tv(a) < tv(b)) == (a < b), "order of durations"); check((ts(a) < ts(b)) == (a < b), "order of dates");
    check((tv(a) == tv(b)) == (a == b), "equality of durations"); check((ts(a) == ts(b)) == (a == b), "equality of dates");
    cover_if(!fin(a), "infinite"); cover_if(fin(a), "finite");
}

// ---- C02. params: unit, integer type
const UNITS: [i128; 7] = [31_556_952, 2_629_746, 604_800, 86_400, 3_600, 60, 1];
fn expect_secs(n: i128, unit: usize) -> i64 { let s = n * UNITS[unit]; if s > (1i128 << 33) - 1 { MAX } else if s < -((1i128 << 33) - 1) { -MAX } else { (s as i64) * (1i64 << 30) } }
/// r is n * 2^30 / per truncated towards zero, or the infinity of the sign of n when that does not fit
fn is_sub(r: i64, n: i128, per: i128) -> bool {
    let m = if n < 0 { -n } else { n }; let e = if n < 0 { -(r as i128) } else { r as i128 };
    let exact = (e >= 0) & (e * per <= m << 30) & (m << 30 < (e + 1) * per) & (e < MAX as i128);
    let over = (e == MAX as i128) & (m << 30 >= (MAX as i128) * per);
    exact | over }
fn clamp(n: i128) -> i128 { if n > i64::MAX as i128 { i64::MAX as i128 } else if n < i64::MIN as i128 { i64::MIN as i128 } else { n } }
#[inline(always)] fn right(r: i64, n: i128, unit: i64) -> bool {
    let n = clamp(n);
    match unit { 0..=6 => r == expect_secs(n, unit as usize), 7 => is_sub(r, n, 1_000), 8 => is_sub(r, n, 1_000_000), 9 => is_sub(r, n, 1_000_000_000), _ => r == sat(n) } }
macro_rules! unit { ($v:expr, $u:expr) => { match $u { 0 => $v.years(), 1 => $v.months(), 2 => $v.weeks(), 3 => $v.days(), 4 => $v.hours(), 5 => $v.mins(), 6 => $v.secs(), 7 => $v.millis(), 8 => $v.micros(), 9 => $v.nanos(), _ => $v.ticks() } } }
#[no_mangle] pub extern "C" fn c02_from() {
    let n = sym(); let u = param(0);
    let r = match u { 0 => TimeValue::from_years(n), 1 => TimeValue::from_months(n), 2 => TimeValue::from_weeks(n), 3 => TimeValue::from_days(n), 4 => TimeValue::from_hours(n), 5 => TimeValue::from_mins(n), 6 => TimeValue::from_secs(n), 7 => TimeValue::from_millis(n), 8 => TimeValue::from_micros(n), 9 => TimeValue::from_nanos(n), _ => TimeValue::from_ticks(n) };
    observe(r.as_ticks());
    check(right(r.as_ticks(), n as i128, u), "unit conversion");
    cover_if(r.is_future_infinite() | (u == 7) | (u == 8), "saturated"); cover_if(r.is_finite(), "finite");
}
#[no_mangle] pub extern "C" fn c02_int() {
    let u = param(0);
    macro_rules! small { ($t:ty) => {{ let n = range(<$t>::MIN as i64, <$t>::MAX as i64); (unit!((n as $t), u), n as i128) }} }
    let (r, e) = match param(1) {
        0 => small!(i8), 1 => small!(u8), 2 => small!(i16), 3 => small!(u16), 4 => small!(i32), 5 => small!(u32),
        6 => { let n = sym(); (unit!(n, u), n as i128) }
        7 => { let n = if sbool() { range(0, i64::MAX) } else { range(i64::MIN, -1) } as u64; (unit!(n, u), n as i128) }
        8 => { let n = sym(); (unit!((n as isize), u), n as i128) }
        9 => { let n = if sbool() { range(0, i64::MAX) } else { range(i64::MIN, -1) } as u64; (unit!((n as usize), u), n as i128) }
        10 => { let n = sym(); (unit!((n as i128), u), n as i128) }
        11 => { let n = range(0, i64::MAX); (unit!((n as u128), u), n as i128) }
        // beyond 64 bits
        12 => { let v = ((sym() as i128) << 64) | (sym() as u64 as i128); assume((v > i64::MAX as i128) | (v < i64::MIN as i128)); (unit!(v, u), clamp(v)) }
        _ => { let v = ((sym() as u64 as u128) << 64) | (sym() as u64 as u128); assume(v > i64::MAX as u128); (unit!(v, u), i64::MAX as i128) }
    };
    observe(r.as_ticks());
    check(right(r.as_ticks(), e, u), "unit conversion of an integer"); cover_if(r.is_finite(), "finite");
}

// ---- C03. params: what, kind of period
#[no_mangle] pub extern "C" fn c03_round() {
    let (what, p) = (param(0), param(1));
    let p = if p > 0 { p } else { range(1, -p) };            // concrete period, or any period up to -p
    let lim = if param(2) > 0 { param(2) } else { FIN };
    let a = range(-lim, lim);
    let q = (a as i128).div_euclid(p as i128); let down = q * p as i128;
    let up = if down == a as i128 { down } else { down + p as i128 };
    let e = if what & 1 == 0 { down } else { up };
    assume((e > -(MAX as i128)) & (e < MAX as i128));         // the multiple is representable
    let r = match what { 0 => tv(a).floor(tv(p)).as_ticks(), 1 => tv(a).ceil(tv(p)).as_ticks(), 2 => ts(a).floor(tv(p)).tk(), _ => ts(a).ceil(tv(p)).tk() };
    observe(r);
    check(r as i128 == e, "rounding to a multiple of the period");
    cover_if((a < 0) & (down != a as i128), "negative non-multiple"); cover_if((a > 0) & (down == a as i128), "positive multiple");
}
#[no_mangle] pub extern "C" fn c03_inf() {
    let p = range(1, FIN); let s = if sbool() { MAX } else { -MAX };
    check(tv(s).floor(tv(p)).as_ticks() == s, "floor of infinite"); check(tv(s).ceil(tv(p)).as_ticks() == s, "ceil of infinite");
    check(ts(s).floor(tv(p)).tk() == s, "floor of infinite date"); check(ts(s).ceil(tv(p)).tk() == s, "ceil of infinite date");
    cover("inf");
}
#[no_mangle] pub extern "C" fn c03_unit() {
    let u = param(0); let a = range(-MAX, MAX);
    let unit = match u { 0..=6 => expect_secs(1, u as usize) as i128, 7 => 1_073_741, 8 => 1_073, 9 => 1, _ => 1 };
    let r = unit!(tv(a), u).as_ticks(); observe(r);
    if !fin(a) { check(r == a, "infinite stays infinite"); cover("infinite"); return; }
    let m = if a < 0 { -(a as i128) } else { a as i128 };
    let t = m / unit * unit;
    check(r as i128 == if a < 0 { -t } else { t }, "truncation towards zero to a unit");
    cover_if(a < 0, "negative"); cover_if(a > 0, "positive");
}
