//! C25: textual rendering
//! Under the engine an integer is written as a marker followed by the rank of its logged value (the digits written by
//! the standard library are trusted); natively the digits are there. Texts are compared after that.
use crate::{h::*, v::*};
use chronologic::*;
use std::fmt::{self, Write};
const MARK: u8 = 1;
const NLOG: usize = 90;
static mut LOG: [(i64, i64); NLOG] = [(0, 0); NLOG];
static mut LEN: usize = 0;
/// called by the engine instead of the formatting of an integer
#[no_mangle] pub extern "C" fn __vfmt(v: i64, signed: bool, f: &mut fmt::Formatter) -> bool {
    // how it is written: width, precision and flags
    let shape = f.width().map_or(0, |w| 1 + w as i64) + 1000 * f.precision().map_or(0, |w| 1 + w as i64) + 1_000_000 * (f.sign_plus() as i64 + 2 * f.sign_aware_zero_pad() as i64 + 4 * f.alternate() as i64 + 8 * (f.fill() as i64));
    let v = if signed { v } else { assume(v >= 0); v };
    unsafe { if LEN >= NLOG { check(false, "too many numbers"); } let k = LEN; LOG[k] = (v, shape); LEN += 1; f.write_char(MARK as char).is_err() || f.write_char((0x20 + k as u8) as char).is_err() }
}
#[repr(C)] pub struct Digits { p: *const u8, n: usize }
/// called by the engine instead of writing the digits of an integer at the end of a buffer (`to_string` of an integer)
#[no_mangle] pub extern "C" fn __vdigits(v: u64, buf: *mut u8, n: usize) -> Digits {
    assume(v <= MAX as u64);
    unsafe { if LEN >= NLOG || n < 3 { check(false, "too many numbers"); } let k = LEN; LOG[k] = (v as i64, PLAIN); LEN += 1; *buf.add(n - 2) = MARK; *buf.add(n - 1) = 0x20 + k as u8; Digits { p: buf.add(n - 2), n: 2 } }
}
/// the number written in s from i on: value, shape and end; None when there is none
fn number(s: &[u8], i: usize) -> Option<(i64, i64, usize)> {
    if i >= s.len() { return None }
    if s[i] == MARK { let (v, sh) = unsafe { LOG[(s[i + 1] - 0x20) as usize] }; return Some((v, sh, i + 2)) }
    if s[i] == b'-' && i + 1 < s.len() && s[i + 1] == MARK { let (v, sh) = unsafe { LOG[(s[i + 2] - 0x20) as usize] }; return Some((-v, sh, i + 3)) }
    let neg = s[i] == b'-'; let mut k = if neg { i + 1 } else { i }; let b = k; let mut v = 0i128;
    while k < s.len() && s[k] >= b'0' && s[k] <= b'9' { v = v * 10 + (s[k] - b'0') as i128; k += 1; if v > u64::MAX as i128 { return None } }
    if k == b { return None } Some((if neg { -v } else { v } as i64, unsafe { PLAIN }, k))
}
static mut PLAIN: i64 = 8_000_000 * (' ' as i64);
fn same(a: &str, b: &str, m: &'static str) {
    let (a, b) = (a.as_bytes(), b.as_bytes()); let (mut i, mut j) = (0, 0);
    loop {
        if i >= a.len() || j >= b.len() { check(i >= a.len() && j >= b.len(), m); return }
        if a[i] == MARK || b[j] == MARK {
            match (number(a, i), number(b, j)) { (Some((v, s, p)), Some((w, t, q))) => { check(v == w, m); check(s == t, m); i = p; j = q; } _ => { check(false, m); return } }
        } else { if a[i] != b[j] { check(false, m); return } i += 1; j += 1; }
    }
}
const UNITS: [(i64, i64, &str); 6] = [(31_556_952, 271, "y"), (2_629_746, 11, "mo"), (86_400, 30, "d"), (3600, 23, "h"), (60, 59, "min"), (1, 59, "s")];
/// a non negative finite duration given by its units (years to seconds) and the ticks of its last second
struct Dur { q: [i64; 6], n: [i64; 3], t: i64 }
/// every finite duration of 0 or more is one of these exactly once: its units are taken from the largest one on.
/// params: 1: in the last year or before; 2: ticks of the last second (-1: any); 3: mask of the units which take any count; 4: count of the others
fn any_dur() -> Dur {
    let last = param(1) == 1; let mut q = [0; 6]; let mut i = 0;
    while i < 6 { q[i] = if param(3) >> i & 1 == 1 { range(0, UNITS[i].1) } else { param(4) }; i += 1; }
    let f = if param(2) < 0 { range(0, (1 << 30) - 1) } else { param(2) };
    // a year is 12 months, a month is less than 31 days
    let days = q[2] * 86400 + q[3] * 3600 + q[4] * 60 + q[5]; assume(days < UNITS[1].0);
    // the last year (272, begun in the second case) is not complete
    if last { q[0] = 272; assume(q[1] <= 2); }
    let secs = q[0] * UNITS[0].0 + q[1] * UNITS[1].0 + days; if last { assume(secs < 1 << 33); } let t = (secs << 30) + f; if last { assume(t <= FIN); }
    // the nanoseconds of its last second
    let n = [range(0, 999), range(0, 999), range(0, 999)]; assume(n[0] * 1_000_000 + n[1] * 1000 + n[2] == tv(f).subsec_nanos() as i64);
    Dur { q, n, t }
}
impl Dur { fn text(&self) -> String {
    let mut s = String::new(); let mut i = 0; while i < 6 { if self.q[i] > 0 { let _ = write!(s, "{}{} ", self.q[i], UNITS[i].2); } i += 1; }
    let [m, u, n] = self.n;
    if m > 0 { let _ = write!(s, "{}ms ", m); } if u > 0 { let _ = write!(s, "{}us ", u); } if n > 0 { let _ = write!(s, "{}ns ", n); }
    if s.pop().is_none() { s.push('0'); }
    s
} }
fn raw(t: i64) -> String { let mut s = String::new(); let _ = if t == MAX { s.write_str("+oo") } else if t == -MAX { s.write_str("-oo") } else { write!(s, "{}", t) }; s }
fn obs(s: &str) { observe(s.as_bytes().iter().filter(|c| **c >= b'a' && **c <= b'z').count() as i64); }
// finite durations, by their units. params: kind (0 the duration, 1 its opposite, 2 a date before 1970, 3 format_timepoint, 4 of the opposite), last year
#[no_mangle] pub extern "C" fn c25_units() {
    let k = param(0); let d = any_dur(); if k == 1 || k == 4 || k == 2 { assume(d.t > 0); }
    let g = match k { 0 => format!("{}", tv(d.t)), 1 => format!("{}", tv(-d.t)), 2 => format!("{}", ts(-d.t)), 3 => tv(d.t).format_timepoint(""), _ => tv(-d.t).format_timepoint("") };
    let mut e = String::new(); if k == 1 || k == 4 { e.push_str("- "); } e.push_str(&d.text()); if k == 2 { e.push_str(" before 1970-01-01 00:00:00 UTC"); }
    obs(&g); same(&g, &e, "the counts of the units, from the largest one, and the sign"); cover_if(d.q[0] > 0, "years"); cover_if(d.t < 1 << 30, "less than a second"); cover_if(d.t == 0, "zero");
}
// points. params: kind, low, high
#[no_mangle] pub extern "C" fn c25_point() {
    let (lo, hi) = if param(1) == 0 && param(2) == 0 { (-MAX, MAX) } else { (param(1), param(2)) }; let t = range(lo, hi);
    match param(0) {
        0 => { same(&format!("{:?}", tv(t)), &raw(t), "the number of ticks"); }
        1 => { let mut e = String::from("t="); e.push_str(&raw(t)); same(&format!("{:?}", ts(t)), &e, "the ticks of the date"); }
        2 => { assume(!fin(t)); same(&format!("{}", tv(t)), &raw(t), "infinite"); same(&format!("{}", ts(t)), &raw(t), "infinite"); }
        3 => { // dates from 1970 on
            let d = chrono::DateTime::<chrono::Utc>::from_timestamp(t >> 30, ts(t).to_datetime().timestamp_subsec_nanos()).unwrap(); let mut e = String::new(); let _ = write!(e, "{}", d); same(&format!("{}", ts(t)), &e, "the calendar date"); }
        _ => { let d = chrono::DateTime::<chrono::Utc>::from_timestamp(t >> 30, 0).unwrap(); let mut e = String::new(); let _ = write!(e, "{}", d.format("%Y-%m-%d %H:%M:%S")); same(&ts(t).format_timepoint("%Y-%m-%d %H:%M:%S"), &e, "the calendar date"); }
    }
    cover_if(t < 0, "negative"); cover_if(t > 0, "positive"); cover_if(t == 0, "zero"); cover_if(t == MAX, "infinite");
}
/// a window: pieces given by their bounds, points written by w
fn window(p: &P, w: &mut dyn FnMut(&mut String, i64)) -> String {
    let mut s = String::new(); if p.n == 0 { s.push_str("{}"); } let mut i = 0;
    while i < p.n { let (a, b) = p.b[i]; if i > 0 { s.push('U'); }
        if a == b { s.push('{'); w(&mut s, a); s.push('}'); }
        else { if a == -MAX { s.push_str("]-oo"); } else { s.push('['); w(&mut s, a); } s.push(','); if b == MAX { s.push_str("+oo["); } else { w(&mut s, b); s.push(']'); } }
        i += 1; }
    s
}
// windows. params: type, rendering (0 Debug, 1 Display, 2 format_timeset; 11, 12: bounds of a few ticks), m, kind (0 set, 1 interval)
fn c25<T: Pt + fmt::Debug + fmt::Display + TimePointFormat>(point: bool) {
    let (how, m) = (param(1) % 10, param(2) as usize); let fine = param(1) >= 10;
    // displayed as units (or dates): whole numbers of hours, less than a day (dates: of seconds, after 1970)
    let small = how > 0; let p = if small { let lim = 15; let mut p = pieces(m, lim, true); let k = if fine { 1 } else if point { 1 << 30 } else { TimeValue::from_hours(1).as_ticks() }; let mut i = 0;
        while i < p.n { if point { assume(p.b[i].0 >= 0 || p.b[i].0 == -MAX) } let f = |x: i64| if fin(x) { x * k } else { x }; p.b[i] = (f(p.b[i].0), f(p.b[i].1)); i += 1; } p } else { pieces(m, WIDE, true) };
    let s = set::<T>(&p); let i = if param(3) == 1 { Some(itv01::<T>(&p)) } else { None };
    let g = match (how, i) { (0, None) => format!("{:?}", s), (0, Some(i)) => format!("{:?}", i), (1, None) => format!("{}", s), (1, Some(i)) => format!("{}", i), (_, None) => s.format_timeset("%S s"), (_, Some(i)) => i.format_timeset("%S s") };
    let mut w = |s: &mut String, t: i64| { let _ = match how { 0 => write!(s, "{:?}", T::mk(t)), 1 => write!(s, "{}", T::mk(t)), _ => s.write_str(&T::mk(t).format_timepoint("%S s")) }; };
    let e = window(&p, &mut w); obs(&e); observe(e.len() as i64 & 0);
    same(&g, &e, "the bounds of every piece, in order"); cover("rendered");
}
#[no_mangle] pub extern "C" fn c25_window() { if param(0) == 0 { c25::<TimeValue>(false) } else { c25::<Timestamp>(true) } }
// C27: graphs, constraints and schedulers, told by the texts of the intervals and dates (C25).
// params: text (0 debug of the graph, 1 display of the graph, 2 debug of the constraints, 3 display of the constraints), n
#[no_mangle] pub extern "C" fn c27_graph() {
    use crate::graph::*; use chronologic::graph::*;
    let (how, n) = (param(0), param(1) as usize); let unit = if how & 1 == 1 { 1 << 30 } else { 1 };
    let mut m = closed(n, if how & 1 == 1 { 59 } else { LIM }); let mut i = 0; while i < n { let mut j = 0; while j < n { if m.m[i][j] != -MAX { m.m[i][j] *= unit; } j += 1; } i += 1; }
    let g = graph(&m); let mut e = String::new();
    let mut pair = |s: &mut String, i: usize, j: usize, debug: bool| { // whatever the direction it is read in
        let k = itv::<TimeValue>((m.m[i][j], -m.m[j][i])); let _ = if debug { write!(s, "({}->{})={:?}", i, j, k) } else { write!(s, "t{} - t{} in {}", j, i, k) }; };
    match how {
        0 => { e.push('\n'); let mut i = 0; while i < n { e.push('['); let mut j = 0; while j < n { let _ = write!(e, " {:>7}", raw(m.m[i][j])); j += 1; } e.push_str(" ]\n"); i += 1; } same(&format!("{:?}", g), &e, "the table of the lower bounds"); }
        1 => { let mut k = 0; let _ = writeln!(e, "[graph with {} instants]", n); for c in g.iter() { e.push_str("   "); pair(&mut e, TimeConstraint::from(&c) as usize, c.to() as usize, false); e.push('\n'); k += 1; } let _ = writeln!(e, "[with {} constraints]", k);
            same(&format!("{}", g), &e, "every constraint, and their number"); }
        _ => { let mut i = 0; while i < n { let mut j = 0; while j < n { if i != j { if let Some(c) = g.constraint(i as u32, j as u32) { let mut e = String::new(); pair(&mut e, i, j, how == 2); same(&if how == 2 { format!("{:?}", c) } else { format!("{}", c) }, &e, "the instants and the interval of the constraint"); } } j += 1; } i += 1; } }
    }
    obs(&e); cover("rendered");
}
// params: text (0 debug, 1 display, 2 format_timeset), n, pieces, range of the bounds in seconds (display)
#[no_mangle] pub extern "C" fn c27_sched() {
    use chronologic::graph::*;
    let (how, n, m) = (param(0), param(1) as usize, param(2) as usize);
    let g = TimeGraph::with_size(n as u32); let mut s = TimeScheduler::new(&g); let mut e = String::new(); let mut i = 0;
    while i < n {
        let w = if how == 0 { WIDE } else { param(3) }; let mut p = pieces(m, w, true);
        if how > 0 { let mut k = 0; while k < p.n { let f = |x: i64| if fin(x) { (x - w - 1) << 30 } else { x }; p.b[k] = (f(p.b[k].0), f(p.b[k].1)); k += 1; } }
        let w = if m == 0 { TimeSet::<Timestamp>::all() } else { set::<Timestamp>(&p) }; if m > 0 { let _ = s.retain(i as u32, w.clone()); }
        let _ = match how { 0 => writeln!(e, "t{} in {:?}", i, w), 1 => writeln!(e, "t{} in {}", i, w), _ => writeln!(e, "t{} in {}", i, w.format_timeset("d")) }; i += 1; }
    if how == 2 && n == 0 { e.push_str("empty time scheduler (no instant)"); }
    let t = match how { 0 => format!("{:?}", s), 1 => format!("{}", s), _ => s.format_timeset("d") };
    same(&t, &e, "the dates of every instant, in order"); obs(&e); cover("rendered");
}
