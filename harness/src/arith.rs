//! C14, C15: translation and scaling
use crate::{h::*, v::*};
use chronologic::*;
use chronologic::iter::*;
use std::ops::*;

// ------------------------------------------------------------------ C14
/// bounds of the sums of two pieces, beyond the range of ticks when they overflow
fn lo2(a: i64, b: i64) -> i128 { if (a == -MAX) | (b == -MAX) { -(MAX as i128) * 4 } else { a as i128 + b as i128 } }
fn hi2(a: i64, b: i64) -> i128 { if (a == MAX) | (b == MAX) { (MAX as i128) * 4 } else { a as i128 + b as i128 } }
/// some sum of pieces has no finite representable point
fn out_of_range(a: &P, b: &P) -> bool { let mut r = false; let mut i = 0; while i < a.n { let mut j = 0; while j < b.n { r |= (lo2(a.b[i].0, b.b[j].0) >= MAX as i128) | (hi2(a.b[i].1, b.b[j].1) <= -(MAX as i128)); j += 1; } i += 1; } r }
fn is_sum(a: &P, b: &P, x: i64) -> bool { let mut i = 0; while i < a.n { let mut j = 0; while j < b.n { if lo2(a.b[i].0, b.b[j].0) <= x as i128 && x as i128 <= hi2(a.b[i].1, b.b[j].1) { return true } j += 1; } i += 1; } false }
fn neg(p: &P) -> P { let mut q = none(); let mut i = p.n; while i > 0 { i -= 1; q.push(-p.b[i].1, -p.b[i].0); } q }

/// translation; op even: sum, odd: difference.  b is the shift (a single finite point for the operations on durations)
pub fn transl<T: Pt>(op: usize, a: &P, b: &P) -> P {
    let d = tv(b.b[0].0); let i = || itv01::<T>(a); let s = || set::<T>(a); let j = || itv01::<TimeValue>(b);
    match op {
        0 => readi(&(i() + d)), 1 => readi(&(i() - d)),
        2 => { let mut x = i(); x += d; readi(&x) } 3 => { let mut x = i(); x -= d; readi(&x) }
        4 => readi(&(d + i())),
        6 => reads(&(s() + d)), 7 => reads(&(s() - d)),
        8 => { let mut x = s(); x += d; reads(&x) } 9 => { let mut x = s(); x -= d; reads(&x) }
        10 => read(s().into_iter().translation(d)),
        12 => read(i().into_iter().translation(d)),
        // intervals of durations
        20 => readi(&(i() + j())), 21 => readi(&(i() - j())),
        22 => { let mut x = i(); x += j(); readi(&x) } 23 => { let mut x = i(); x -= j(); readi(&x) }
        24 => reads(&(s() + j())), 25 => reads(&(s() - j())),
        26 => { let mut x = s(); x += j(); reads(&x) } 27 => { let mut x = s(); x -= j(); reads(&x) }
        28 => read(s().into_iter().translation(&j())),
        30 => read(i().into_iter().translation(&j())),
        // sets of durations
        40 => reads(&(s() + set::<TimeValue>(b))), 41 => reads(&(s() - set::<TimeValue>(b))),
        42 => { let mut x = s(); x += set::<TimeValue>(b); reads(&x) } _ => { let mut x = s(); x -= set::<TimeValue>(b); reads(&x) }
    }
}
fn shift(op: usize, n: usize, lim: i64) -> P { if op < 20 { let d = range(-FIN, FIN); one(d, d) } else { pieces(n, if lim > 0 { lim } else { WIDE }, lim == 0) } }
// params: type, op, m, n, limit of the bounds (0: any)
fn c14<T: Pt>() {
    let op = param(1) as usize; let lim = param(4); let a = pieces(param(2) as usize, if lim > 0 { lim } else { WIDE }, lim == 0); let b = shift(op, param(3) as usize, lim);
    let e = if op & 1 == 1 { neg(&b) } else { b };
    let o = out_of_range(&a, &e); may_panic(o);
    let r = transl::<T>(op, &a, &b);
    may_panic(false);
    r.obs(); let x = range(-FIN, FIN);
    check(r.has(x) == is_sum(&a, &e, x), "the points are exactly the sums");
    check((r.n == 0) | (a.n > 0) & (b.n > 0), "an empty operand gives the empty window");
    cover_if(r.n > 0, "some"); cover_if(r.n > 1, "several"); cover_if(r.n == 0, "nothing");
}
#[no_mangle] pub extern "C" fn c14_transl() { typed!(c14) }
// d - interval of durations or of dates; dates and intervals. params: op, m
#[no_mangle] pub extern "C" fn c14_dates() {
    let op = param(0); let m = param(1) as usize;
    let a = pieces(m, WIDE, true); let b = if op >= 30 { pieces(param(2) as usize, WIDE, true) } else { let d = range(-FIN, FIN); one(d, d) };
    let (d, t) = (tv(b.b[0].0), ts(b.b[0].0));
    let span = || itv01::<TimeValue>(&a); let slot = || itv01::<Timestamp>(&a); let spans = || set::<TimeValue>(&a);
    // sign of the window, sign of the point
    let e = match op { 0 | 1 | 3 | 13 | 15 | 17 => neg(&a), _ => a };
    let f = match op { 5 | 12 | 20 | 30 => neg(&b), _ => b };
    let o = out_of_range(&e, &f); may_panic(o);
    let r = match op {
        0 => readi(&(d - span())), 1 => readi(&(d - slot())),
        2 => readi(&(t + span())), 3 => readi(&(t - span())),
        4 => readi(&(span() + t)), 5 => readi(&(span() - t)),
        12 => readi(&(slot() - t)), 13 => readi(&(t - slot())),
        14 => reads(&(t + spans())), 15 => reads(&(t - spans())),
        16 => reads(&(spans() + t)), 18 => readi(&(d + slot())),
        20 => reads(&(spans() - t)),
        _ => readi(&(slot() - itv01::<Timestamp>(&b))),
    };
    may_panic(false);
    r.obs(); let x = range(-FIN, FIN);
    check(r.has(x) == is_sum(&e, &f, x), "the points are exactly the sums or differences");
    check((r.n == 0) | (a.n > 0) & (b.n > 0), "an empty operand gives the empty window");
    cover_if(r.n > 0, "some"); cover_if(r.n == 0, "nothing");
}
// there and back. params: type, kind, m
fn c14b<T: Pt>() {
    let a = pieces(param(2) as usize, WIDE, true); let d = range(-FIN, FIN); let s = if param(1) == 1 { -d } else { d };
    let mut i = 0; while i < a.n { let (l, u) = a.b[i];
        if fin(l) { assume((l as i128 + s as i128 > -(MAX as i128)) & ((l as i128 + s as i128) < MAX as i128)); }
        if fin(u) { assume((u as i128 + s as i128 > -(MAX as i128)) & ((u as i128 + s as i128) < MAX as i128)); } i += 1; }
    let r = match param(1) {
        0 => { let t = set::<T>(&a) + tv(d); check((a.n == 0) | (t.is_low_bounded() == fin(a.b[0].0)), "infinite bounds stay infinite"); reads(&(t - tv(d))) }
        1 => { let mut i = itv01::<T>(&a); i -= tv(d); i += tv(d); readi(&i) }
        _ => { let mut t = set::<T>(&a); t += tv(d); t -= tv(d); reads(&t) }
    };
    r.obs(); check(r.same(&a), "shifting there and back restores the window"); cover("back");
}
#[no_mangle] pub extern "C" fn c14_back() { typed!(c14b) }

// ------------------------------------------------------------------ C15
/// is r the product of a by n (i128), saturated?
fn prod(a: i64, n: i128) -> i64 { if a == 0 || n == 0 { return 0 } if !fin(a) { return if (n < 0) == (a < 0) { MAX } else { -MAX } }
    if n > 1 << 64 || n < -(1 << 64) { return if (n < 0) == (a < 0) { MAX } else { -MAX } }
    sat((a as i128).wrapping_mul(n)) }
/// is r the quotient of a by n truncated towards zero (infinite when a is)?
fn is_quot(r: i64, a: i64, n: i128) -> bool {
    if !fin(a) { return r == if n < 0 { -a } else { a } }
    if n > MAX as i128 + 1 || n < -(MAX as i128 + 1) { return r == 0 }
    r as i128 == (a as i128).wrapping_div(n)
}
/// a factor of integer type `t` (0..12); concrete when param(k+1) is set, any value otherwise
macro_rules! with_int { ($t:expr, $n:ident, $w:ident, $body:expr) => { {
    let c = param(1); let lim = param(2);
    macro_rules! small { ($ty:ty, $lo:expr, $hi:expr) => { { let v: i64 = if c != 0 { c } else { let (l, h): (i64, i64) = ($lo, $hi); range(if lim > 0 && l < -lim { -lim } else { l }, if lim > 0 && h > lim { lim } else { h }) }; let $n = v as $ty; let $w = v as i128; $body } } }
    match $t {
        0 => small!(i8, -128, 127), 1 => small!(u8, 0, 255), 2 => small!(i16, -32768, 32767), 3 => small!(u16, 0, 65535),
        4 => small!(i32, i32::MIN as i64, i32::MAX as i64), 5 => small!(u32, 0, u32::MAX as i64),
        6 => small!(i64, i64::MIN, i64::MAX), 7 => small!(u64, 0, i64::MAX), 8 => small!(i128, i64::MIN, i64::MAX), 9 => small!(u128, 0, i64::MAX),
        10 => small!(isize, i64::MIN, i64::MAX), 11 => small!(usize, 0, i64::MAX),
        // beyond 64 bits signed
        12 => { let $w: i128 = (1i128 << 63) + range(0, i64::MAX) as i128; let $n = $w as u64; $body }
        13 => { let $w: i128 = (1i128 << 63) + range(0, i64::MAX) as i128; let $n = $w as usize; $body }
        14 => { let $w: i128 = (1i128 << 63) + range(0, i64::MAX) as i128; let $n = $w as u128; $body }
        15 => { let $w: i128 = (1i128 << 63) + range(0, i64::MAX) as i128; let $n = $w; $body }
        16 => { let $w: i128 = -(1i128 << 63) - range(0, i64::MAX) as i128; let $n = $w; $body }
        17 => { let $n = i128::MAX; let $w = i128::MAX; $body }
        18 => { let $n = i128::MIN + 1; let $w = i128::MIN + 1; $body }
        _ => { let $n = u128::MAX; let $w = i128::MAX; $body }
    } } } }
// durations. params: integer type, factor (0: any), limit of the factor, op (0 mul, 1 mul assign, 2 reversed mul, 3 div, 4 div assign), limit of the ticks
#[no_mangle] pub extern "C" fn c15_val() {
    let op = param(3); let lim = param(4); let a = if lim > 0 { range(-lim, lim) } else { range(-MAX, MAX) };
    with_int!(param(0), n, w, {
        if op < 3 {
            assume(fin(a) | (w != 0));
            let r = match op { 0 => tv(a) * n, 1 => { let mut x = tv(a); x *= n; x } _ => n * tv(a) }.as_ticks(); observe(r);
            check(r == prod(a, w), "product");
            cover_if(fin(r), "finite"); cover_if(!fin(r), "infinite");
        } else {
            assume(w != 0);
            let r = match op { 3 => tv(a) / n, _ => { let mut x = tv(a); x /= n; x } }.as_ticks(); observe(r);
            check(is_quot(r, a, w), "quotient"); cover_if(fin(r), "finite"); cover_if(!fin(r), "infinite");
        }
    })
}
// intervals and sets. params: integer type, factor (0: any), limit of the factor, op, pieces, kind (0 interval, 1 set), limit of the ticks
#[no_mangle] pub extern "C" fn c15_win() {
    let op = param(3); let kind = param(5); let lim = param(6);
    let p = pieces(param(4) as usize, if lim > 0 { lim } else { WIDE }, true);
    with_int!(param(0), n, w, {
        let mut e = none(); let mut over = false; let mut k = 0;
        if op < 4 {
            while k < p.n { let (l, u) = if w < 0 { p.b[p.n - 1 - k] } else { p.b[k] }; let (l, u) = if w < 0 { (u, l) } else { (l, u) };
                let (l, u) = (prod(l, w), prod(u, w)); if l == MAX || u == -MAX { over = true } e.push(l, u); k += 1; }
            if w == 0 && p.n > 0 { e = one(0, 0); }
            may_panic(over);
            let r = if kind == 0 { let i: TimeSpan = itv01(&p); readi(&match op { 0 => i * n, 1 => { let mut x = i; x *= n; x } _ => n * i }) }
                else { let s: TimeSpans = set(&p); match op { 0 => reads(&(s * n)), 1 => { let mut x = s; x *= n; reads(&x) } 2 => reads(&(n * s)), _ => read(s.into_iter().scaling(n)) } };
            may_panic(false); r.obs();
            if !over { check(r.same(&e), "each bound is multiplied, a negative factor exchanging them"); }
            cover_if(r.n > 0, "some"); cover_if(r.n == 0, "nothing");
        } else {
            assume(w != 0);
            let r = if kind == 0 { let i: TimeSpan = itv01(&p); readi(&match op { 4 => i / n, _ => { let mut x = i; x /= n; x } }) }
                else { let s: TimeSpans = set(&p); match op { 4 => reads(&(s / n)), _ => { let mut x = s; x /= n; reads(&x) } } };
            r.obs();
            // every piece of the quotient spans the quotients of successive pieces, which touch each other
            check((r.n == 0) == (p.n == 0), "empty exactly when the window is"); check(r.n <= p.n, "no more pieces");
            check(r.canonical(), "pieces remain ordered and separated");
            if p.n == 1 { let (l, u) = if w < 0 { (p.b[0].1, p.b[0].0) } else { p.b[0] }; check(is_quot(r.b[0].0, l, w), "lower bound of the quotient"); check(is_quot(r.b[0].1, u, w), "upper bound of the quotient"); }
            else if p.n > 1 {
                let (f, l) = if w < 0 { (p.b[p.n - 1].1, p.b[0].0) } else { (p.b[0].0, p.b[p.n - 1].1) };
                check(is_quot(r.b[0].0, f, w), "first bound of the quotient"); check(is_quot(r.b[r.n - 1].1, l, w), "last bound of the quotient");
                // each bound of the result is the quotient of some bound, and each quotient of a bound is in the result
                let x = range(-FIN, FIN); let mut k = 0; let mut hit = false;
                while k < p.n { if is_quot(x, p.b[k].0, w) || is_quot(x, p.b[k].1, w) { hit = true } k += 1; }
                if hit { check(r.has(x), "the quotients of the bounds are in the result"); }
                let mut k = 0; while k + 1 < r.n { let mut q = false; let mut h = 0; while h < p.n { let (l, u) = if w < 0 { (p.b[h].1, p.b[h].0) } else { p.b[h] }; let _ = l; if is_quot(r.b[k].1, u, w) { q = true } h += 1; } check(q, "an upper bound is the quotient of an upper bound"); k += 1; }
                let mut k = 1; while k < r.n { let mut q = false; let mut h = 0; while h < p.n { let (l, u) = if w < 0 { (p.b[h].1, p.b[h].0) } else { p.b[h] }; let _ = u; if is_quot(r.b[k].0, l, w) { q = true } h += 1; } check(q, "a lower bound is the quotient of a lower bound"); k += 1; }
            }
            cover_if(r.n > 0, "some"); cover_if(r.n > 1, "several"); cover_if(r.n == 0, "nothing");
        }
    })
}

// ------------------------------------------------------------------ C06
// translated and scaled sets are canonical. params: type, op, m, n, limit of the bounds
fn c06t<T: Pt>() {
    let op = param(1) as usize; let lim = param(4); let a = pieces(param(2) as usize, if lim > 0 { lim } else { WIDE }, lim == 0); let b = shift(op, param(3) as usize, lim);
    may_panic(out_of_range(&a, &if op & 1 == 1 { neg(&b) } else { b }));
    let r = transl::<T>(op, &a, &b);
    may_panic(false); r.obs(); check(r.canonical(), "pieces are ordered, non-empty and separated"); cover_if(r.n > 1, "several"); cover("done");
}
#[no_mangle] pub extern "C" fn c06_transl() { typed!(c06t) }
// params: integer type, factor, limit of the factor, op (0 mul, 1 mul assign, 2 reversed, 3 lazy, 4 div, 5 div assign), pieces
#[no_mangle] pub extern "C" fn c06_scale() {
    let op = param(3); let p = pieces(param(4) as usize, WIDE, true);
    with_int!(param(0), n, w, {
        if op >= 4 { assume(w != 0); }
        else { let mut over = false; let mut k = 0; while k < p.n { let (l, u) = if w < 0 { (p.b[k].1, p.b[k].0) } else { p.b[k] }; if prod(l, w) == MAX || prod(u, w) == -MAX { over = true } k += 1; } may_panic(over); }
        let s: TimeSpans = set(&p);
        let r = match op { 0 => reads(&(s * n)), 1 => { let mut x = s; x *= n; reads(&x) } 2 => reads(&(n * s)), 3 => read(s.into_iter().scaling(n)),
            4 => reads(&(s / n)), _ => { let mut x = s; x /= n; reads(&x) } };
        may_panic(false); r.obs(); check(r.canonical(), "pieces are ordered, non-empty and separated"); cover_if(r.n > 1, "several"); cover("done");
    })
}
// two operations in a row on a set, then read back: also the internal representation stays canonical, since the pieces are
// those the next operation starts from. params: type, first op, second op, m, n
fn c06s<T: Pt>() {
    let m = param(3) as usize; let n = param(4) as usize; let lim = 1i64 << 60;
    let (a, b) = (pieces(m, lim, true), pieces(n, lim, true)); let mut s = set::<T>(&a); let o = set::<T>(&b); let t = range(-lim, lim); let mut k = 1;
    while k < 3 {
        s = match param(k) { 0 => s | &o, 1 => s & &o, 2 => !s, 3 => -s, 4 => { s.truncate_before(T::mk(t)); s } 5 => { s.truncate_after(T::mk(t)); s } 6 => s + tv(t), 7 => s - tv(t),
            8 => { s |= T::mk(t); s } 9 => { s &= itv::<T>((-lim / 2, t.max(-lim / 2))); s } _ => { s |= itv::<T>((t, MAX)); s } };
        k += 1;
    }
    let r = reads(&s); r.obs(); check(r.canonical(), "pieces are ordered, non-empty and separated");
    check(s == set::<T>(&r), "the set is the one its pieces make"); cover("done");
}
#[no_mangle] pub extern "C" fn c06_seq() { typed!(c06s) }
