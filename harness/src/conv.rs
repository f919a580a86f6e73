//! C04: conversions from and to the standard and chrono time types
use crate::{h::*, v::*};
use chronologic::*;
use chrono::{DateTime, FixedOffset, NaiveDateTime, Utc};

const TPS: i128 = 1 << 30;           // ticks per second
const NPS: i128 = 1_000_000_000;     // nanoseconds per second

/// r is the tick count of `sec` seconds and 0 <= `ns` < 1e9 nanoseconds, truncated towards zero, infinite out of the range
fn is_ticks(r: i64, sec: i64, ns: i64) -> bool {
    // whole seconds count exactly; only the sub-second part is truncated (towards zero for the whole value)
    if sec > (1 << 33) - 1 { return r == MAX }
    if sec < -(1 << 33) { return r == -MAX }
    let s = sec as i128 * TPS; let r = r as i128;
    if sec >= 0 { let f = r - s; (f >= 0) & (f * NPS <= ns as i128 * TPS) & ((f + 1) * NPS > ns as i128 * TPS) }
    else {
        // negative: the value is -( -sec*1e9 - ns ) nanoseconds
        let f = r - s; let e = (f >= 0) & (f * NPS >= ns as i128 * TPS) & ((f - 1) * NPS < ns as i128 * TPS);
        // just below the smallest finite value
        if sec == -(1 << 33) { if r == -(MAX as i128) { return ns as i128 * TPS <= NPS } }
        e
    }
}
// ---- from the other types. params: kind, ...
#[no_mangle] pub extern "C" fn c04_from_std() {
    let s: u64 = if sbool() { range(0, i64::MAX) as u64 } else { (1u64 << 63) + range(0, i64::MAX) as u64 }; let ns = range(0, 999_999_999);
    let r = TimeValue::from(std::time::Duration::new(s, ns as u32)).as_ticks(); observe(r);
    let sec = if s >= 1 << 62 { 1i64 << 62 } else { s as i64 };
    check(is_ticks(r, sec, ns), "same duration, truncated to a tick"); cover_if(r == MAX, "infinite"); cover_if(r != MAX, "finite");
}
#[no_mangle] pub extern "C" fn c04_from_chrono() {
    let lim = i64::MAX / 1000; let s = range(-lim, lim - 1); let ns = range(0, 999_999_999);
    let d = match chrono::Duration::new(s, ns as u32) { Some(d) => d, None => { assume(false); return } };
    let r = TimeValue::from(d).as_ticks(); observe(r);
    check(is_ticks(r, s, ns), "same duration, truncated to a tick"); cover_if(!fin(r), "infinite"); cover_if(fin(r) & (s < 0), "negative"); cover_if(fin(r) & (s >= 0), "positive");
}
// ---- to the other types
/// (sec, ns) is within one nanosecond of t ticks
fn near(t: i64, total_ns: i128) -> bool { let d = total_ns * TPS - t as i128 * NPS; (d < TPS) & (d > -TPS) }
#[no_mangle] pub extern "C" fn c04_parts() {
    let t = range(-FIN, FIN); let v = tv(t); let (s, m, u, n) = (v.as_secs(), v.subsec_millis() as i64, v.subsec_micros() as i64, v.subsec_nanos() as i64);
    observe(s); observe(n);
    check((n >= 0) & (n < 1_000_000_000), "0 <= nanoseconds < 1s"); check((u >= 0) & (u < 1_000_000), "0 <= microseconds < 1s"); check((m >= 0) & (m < 1_000), "0 <= milliseconds < 1s");
    check(near(t, s as i128 * NPS + n as i128), "seconds and nanoseconds give the value");
    check((u * 1000 <= n) & (n < u * 1000 + 1000), "microseconds agree with nanoseconds"); check((m * 1000 <= u) & (u < m * 1000 + 1000), "milliseconds agree with microseconds");
    cover("parts");
}
#[no_mangle] pub extern "C" fn c04_order() {
    let (t, q) = (range(-FIN, FIN), range(-FIN, FIN)); assume(t <= q); let (a, b) = (tv(t), tv(q));
    let k = param(0);
    if k == 0 { check(a.as_secs() <= b.as_secs(), "seconds keep the order"); check((a.as_secs() < b.as_secs()) | (a.subsec_nanos() <= b.subsec_nanos()), "nanoseconds keep the order"); }
    else if k == 1 { check(a.to_duration() <= b.to_duration(), "chrono durations keep the order"); }
    else { may_panic(t < 0); let (x, y) = (std::time::Duration::from(a), std::time::Duration::from(b)); may_panic(false); check(x <= y, "standard durations keep the order"); }
    cover("order");
}
#[no_mangle] pub extern "C" fn c04_to_std() {
    let t = range(-FIN, FIN); may_panic(t < 0); let d = std::time::Duration::from(tv(t)); may_panic(false);
    check(t >= 0, "a negative duration is refused"); let (s, n) = (d.as_secs() as i64, d.subsec_nanos() as i64); observe(s); observe(n);
    check(near(t, s as i128 * NPS + n as i128), "within one nanosecond"); cover("standard");
}
#[no_mangle] pub extern "C" fn c04_to_chrono() {
    let t = range(-FIN, FIN); let d: chrono::Duration = if param(0) == 0 { tv(t).into() } else { tv(t).to_duration() };
    let (s, n) = (d.num_seconds(), d.subsec_nanos() as i64); observe(s); observe(n);
    check(near(t, s as i128 * NPS + n as i128), "within one nanosecond"); cover("chrono");
}
// ---- dates. params: kind, span (0: any day within the range of the type, otherwise a range of days around 1970)
#[no_mangle] pub extern "C" fn c04_from_date() {
    let kind = param(0); let ns = range(0, 999_999_999);
    let (lo, hi) = if param(1) == 0 { (-8_334_601_228_800 + 86400, 8_210_266_876_799 - 86400) } else { (param(1), param(2)) };
    let s = range(lo, hi);
    let d = match DateTime::<Utc>::from_timestamp(s, ns as u32) { Some(d) => d, None => { check(false, "chrono date"); return } };
    let r: Timestamp = match kind { 0 => d.into(), 1 => d.naive_utc().into(), _ => d.with_timezone(&FixedOffset::east_opt(7200).unwrap()).into() };
    let r = r.since_origin().as_ticks(); observe(r);
    check(is_ticks(r, s, ns), "same date, truncated to a tick"); cover("date");
}
#[no_mangle] pub extern "C" fn c04_to_date() {
    let (lo, hi) = if param(1) == 0 { (-FIN, FIN) } else { (param(1), param(2)) }; let t = range(lo, hi);
    let (s, n) = if param(0) == 0 { let d: NaiveDateTime = ts(t).into(); let d = d.and_utc(); (d.timestamp(), d.timestamp_subsec_nanos() as i64) } else { let d = ts(t).to_datetime(); (d.timestamp(), d.timestamp_subsec_nanos() as i64) };
    observe(s); observe(n);
    check(near(t, s as i128 * NPS + n as i128), "within one nanosecond"); cover("date");
}
