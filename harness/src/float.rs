//! C28: scaling by floating-point factors (fixed factors, any duration or window).
use crate::h::*;
use crate::v::*;
use chronologic::*;
use chronologic::iter::*;

/// m separated pieces, every bound of which is base + something in 0..=lim (or within +-lim if base is 0), the outer ones possibly infinite
fn windows(m: usize, base: i64, lim: i64) -> P {
    let mut p = none(); let lo = if base == 0 { -lim } else { 0 }; let mut i = 0;
    while i < m {
        let a = if i == 0 && choose(2) == 1 { -MAX } else { base + range(lo, lim) }; let b = if i + 1 == m && choose(2) == 1 { MAX } else { base + range(lo, lim) };
        if a != -MAX && b != MAX { assume(a <= b); } if i > 0 { assume(p.b[i - 1].1 < a - 1); }
        p.b[i] = (a, b); p.n = i + 1; i += 1; }
    p }
/// x * num / 2^den, truncated towards zero
fn scaled(x: i64, num: i64, den: i64) -> i64 { if num == 0 { 0 } else if !fin(x) { if (num < 0) == (x < 0) { MAX } else { -MAX } } else { x * num / (1i64 << den) } }
macro_rules! with_float { ($f:ident, $body:expr) => { { let (num, den, form) = (param(1), param(2), param(4));
    if param(0) == 0 { let $f = num as f64 / (1i64 << den) as f64; let $f = if form == 3 || form == 4 { 1. / $f } else { $f }; $body }
    else { let $f = num as f32 / (1i64 << den) as f32; let $f = if form == 3 || form == 4 { 1. / $f } else { $f }; $body } } } }
// params: type of the factor (0 f64, 1 f32), the factor as num / 2^den (its inverse is the divisor), what (0 duration, 1 interval, 2 set),
// form (0 a*f, 1 a*=f, 2 f*a, 3 a/f, 4 a/=f, 5 lazy), pieces, limit of the ticks
#[no_mangle] pub extern "C" fn c28_exact() {
    let (num, den, what, form, m, lim) = (param(1), param(2), param(3), param(4), param(5) as usize, param(6));
    if what == 0 {
        let a = match choose(3) { 0 => range(-lim, lim), 1 => MAX, _ => -MAX };
        let r = with_float!(f, match form { 0 => tv(a) * f, 1 => { let mut x = tv(a); x *= f; x } 2 => f * tv(a), 3 => tv(a) / f, _ => { let mut x = tv(a); x /= f; x } }).as_ticks();
        observe(r); check(r == scaled(a, num, den), "the product, truncated"); cover_if(fin(a), "finite"); cover_if(!fin(a), "infinite"); return; }
    let p = windows(m, 0, lim);
    let r = with_float!(f, if what == 1 { let i: TimeSpan = itv01(&p); readi(&match form { 0 => i * f, 1 => { let mut x = i; x *= f; x } 2 => f * i, 3 => i / f, _ => { let mut x = i; x /= f; x } }) }
        else { let s: TimeSpans = set(&p); match form { 0 => reads(&(s * f)), 1 => { let mut x = s; x *= f; reads(&x) } 2 => reads(&(f * s)), 3 => reads(&(s / f)), 4 => { let mut x = s; x /= f; reads(&x) } _ => read(s.into_iter().scaling(f)) } });
    r.obs(); check(r.canonical(), "pieces are ordered and separated"); check((r.n == 0) == (m == 0), "empty exactly when the window is"); check(r.n <= m, "no more pieces");
    let x = range(-FIN, FIN); let mut e = false; let mut k = 0; // (two neighbouring pieces may become one)
    while k < m { let (l, u) = p.b[k]; let (l, u) = if num < 0 { (u, l) } else { (l, u) }; e |= (scaled(l, num, den) <= x) & (x <= scaled(u, num, den)); k += 1; }
    check(r.has(x) == e, "exactly the span of the products of each piece"); cover("scaled"); cover_if(r.n < m, "joined"); cover_if(r.n == m, "not joined");
}
// durations which the float cannot tell apart. params: type, num, den, what (0 order of two durations, 2 set), form (0, 1 or 5), pieces, base, range above it
#[no_mangle] pub extern "C" fn c28_round() {
    let (num, den, what, form, m, base, lim) = (param(1), param(2), param(3), param(4), param(5) as usize, param(6), param(7));
    if what == 0 {
        let (a, b) = (base + range(0, lim), base + range(0, lim)); assume(a <= b);
        let (x, y) = with_float!(f, (tv(a) * f, tv(b) * f)); observe(x.as_ticks()); observe(y.as_ticks());
        check(if num < 0 { x >= y } else { x <= y }, "the order is kept, or reversed by a negative factor");
        if param(0) == 0 && base < 1 << 50 { check(x.as_ticks() == scaled(a, num, den), "the product, truncated"); } cover("scaled"); return; }
    if what == 3 { // beyond the finite range: num / 2^den >= 2 and |a| >= 2^62 + 2^40 (or half of it and factors of at least 4)
        let (a, l) = (base + range(0, lim), range(-1000, 1000)); let a = if choose(2) == 1 { -a } else { a }; let up = (a < 0) == (num < 0); let inf = if up { MAX } else { -MAX };
        let r = with_float!(f, match form { 0 => tv(a) * f, 1 => { let mut x = tv(a); x *= f; x } _ => f * tv(a) }).as_ticks(); observe(r); check(r == inf, "saturates with the sign of the product");
        let i: TimeSpan = if a < 0 { itv01(&one(a, l)) } else { itv01(&one(l, a)) };
        let i = with_float!(f, match form { 0 => readi(&(i * f)), 1 => { let mut x = i; x *= f; readi(&x) } _ => readi(&(f * i)) }); let e = scaled(l, num, den); i.obs();
        check(i.n == 1 && i.b[0] == (if up { (e, MAX) } else { (-MAX, e) }), "the bound saturates"); cover("saturated"); return; }
    let p = windows(m, base, lim); let s: TimeSpans = set(&p);
    let mut e = Vec::with_capacity(4); let mut k = 0; with_float!(f, while k < m { let q = if num < 0 { m - 1 - k } else { k }; let (l, u) = p.b[q]; let (l, u) = if num < 0 { (u, l) } else { (l, u) }; e.push(((tv(l) * f).as_ticks(), (tv(u) * f).as_ticks())); k += 1; });
    let r = with_float!(f, match form { 0 => reads(&(s * f)), 1 => { let mut x = s; x *= f; reads(&x) } _ => read(s.into_iter().scaling(f)) });
    r.obs(); check(r.canonical(), "pieces are ordered and separated");
    let mut k = 0; let x = range(-FIN, FIN); let mut h = false; while k < m { h |= (e[k].0 <= x) & (x <= e[k].1); k += 1; }
    check(r.has(x) == h, "exactly the span of the products of each piece"); cover("scaled"); cover_if(r.n < m, "joined");
}
