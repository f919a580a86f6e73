//! C05, C10-C12: constructors and predicates, lazy iterators, relations
use crate::{h::*, v::*};
use chronologic::*;
use chronologic::iter::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::*;

// ------------------------------------------------------------------ C10
/// walks an iterator to its end: order, separation, size hints, fusedness; returns its pieces
fn walk<T: Pt, I: Iterator<Item = TimeInterval<T>>>(mut it: I) -> P {
    let mut p = none(); let mut lo = [0usize; NP + 1]; let mut hi = [0usize; NP + 1];
    loop {
        let (l, h) = it.size_hint(); lo[p.n] = l; hi[p.n] = h.unwrap_or(usize::MAX);
        match it.next() { None => break, Some(i) => p.push(i.lower_bound().tk(), i.upper_bound().tk()) }
    }
    let mut k = 0; let mut ok = true;
    while k <= p.n { ok &= (lo[k] <= p.n - k) & (p.n - k <= hi[k]); k += 1; }
    check(ok, "size hints bracket the number of intervals to come");
    check(it.next().is_none(), "an exhausted iterator stays exhausted"); check(it.next().is_none(), "an exhausted iterator stays exhausted");
    check(it.size_hint().0 == 0, "nothing to come after the end");
    check(p.canonical(), "lazy intervals are non-empty, ordered and separated");
    p.obs(); p
}
// params: type, kind, m, n, k
fn c10<T: Pt>() where TimeInterval<T>: Add<TimeValue, Output = TimeInterval<T>> + Add<TimeSpan, Output = TimeInterval<T>>, TimeSet<T>: Add<TimeValue, Output = TimeSet<T>> + Add<TimeSpan, Output = TimeSet<T>> {
    let kind = param(1); let lim = if kind >= 20 && kind < 30 { 1 << 60 } else if kind == 13 { NEAR } else { WIDE };
    let a = pieces(param(2) as usize, lim, true); let b = pieces(param(3) as usize, lim, true); let c = pieces(param(4) as usize, lim, true);
    let (s, t, u) = (set::<T>(&a), set::<T>(&b), set::<T>(&c));
    let (r, e): (P, TimeSet<T>) = match kind {
        0 => (walk(s.iter().union(t.iter())), &s | &t),
        1 => (walk(s.iter().intersection(t.iter())), &s & &t),
        2 => (walk(s.iter().complementary()), !s),
        3 => (walk(s.iter().exclusion(t.iter())), s & !t),
        4 => (walk(s.iter()), s),
        5 => (walk((&s).into_iter()), s),
        6 => (walk(itv01::<T>(&a).into_iter()), itv01::<T>(&a).into()),
        7 => (walk(itv01::<T>(&a).iter()), itv01::<T>(&a).into()),
        // composed
        10 => (walk(s.iter().union(t.iter()).intersection(u.iter())), (&s | &t) & &u),
        11 => (walk(s.iter().union(t.iter()).complementary()), !(&s | &t)),
        12 => (walk(s.iter().intersection(t.iter()).complementary()), !(&s & &t)),
        13 => (walk(s.iter().complementary().complementary()), s),
        14 => (walk(s.iter().exclusion(t.iter()).union(u.iter())), (&s & !t) | &u),
        15 => (walk(s.iter().intersection(t.iter()).union(u.iter())), (&s & &t) | &u),
        16 => (walk(s.iter().union(t.iter()).union(u.iter())), (&s | &t) | &u),
        17 => (walk(s.iter().intersection(t.iter()).intersection(u.iter())), (&s & &t) & &u),
        18 => (walk(s.iter().complementary().union(t.iter())), !s | &t),
        // translated
        20 => { let d = range(-(1 << 60), 1 << 60); (walk(s.iter().translation(tv(d))), s + tv(d)) }
        _ => { let i: TimeSpan = itv01(&b); (walk(s.iter().translation(&i)), s + i) }
    };
    check(r.same(&reads(&e)), "the lazy iterator and the operators agree");
    cover_if(r.n > 1, "several"); cover_if(r.n == 0, "nothing");
}
#[no_mangle] pub extern "C" fn c10_iter() { typed!(c10) }

// ------------------------------------------------------------------ C11
/// is b included in a (both canonical)?
fn subset(a: &P, b: &P) -> bool {
    let mut r = true; let mut j = 0;
    while j < b.n { let mut f = false; let mut i = 0; while i < a.n { if a.b[i].0 <= b.b[j].0 && b.b[j].1 <= a.b[i].1 { f = true; break } i += 1; } r &= f; if !r { break } j += 1; }
    r
}
fn meet(a: &P, b: &P) -> bool {
    let r = false; let mut j = 0;
    while j < b.n { let mut i = 0; while i < a.n { if a.b[i].0 <= b.b[j].1 && b.b[j].0 <= a.b[i].1 { return true } i += 1; } j += 1; }
    r
}
fn opd(k: u64, point: bool) -> P { if point { let p = range(-FIN, FIN); one(p, p) } else { pieces(param(k) as usize, NEAR, true) } }
// params: type, kind, m, n     kind = 10 * left + right; 0 set, 1 interval, 2 point, 3 inclusive range
fn c11<T: Pt>() {
    let kind = param(1); let a = opd(2, kind / 10 == 2); let b = opd(3, kind % 10 == 2);
    let (sa, sb) = (set::<T>(&a), set::<T>(&b));
    macro_rules! rels { ($x:expr, $y:expr) => { { let (x, y) = ($x, $y); (x.contains(&y), Some((x.overlaps(&y), y.overlaps(&x)))) } } }
    macro_rules! ia { () => { itv01::<T>(&a) } } macro_rules! ib { () => { itv01::<T>(&b) } }
    macro_rules! rng { ($i:expr) => { { let i = $i; i.lower_bound()..=i.upper_bound() } } }
    let (c, o) = match kind {
        0 => rels!(sa, sb), 1 => rels!(sa, ib!()), 2 => rels!(sa, T::mk(b.b[0].0)),
        10 => rels!(ia!(), sb), 11 => rels!(ia!(), ib!()), 12 => rels!(ia!(), T::mk(b.b[0].0)),
        20 => rels!(T::mk(a.b[0].0), sb), 21 => rels!(T::mk(a.b[0].0), ib!()), 22 => rels!(T::mk(a.b[0].0), T::mk(b.b[0].0)),
        3 => (TimeContaining::contains(&sa, &rng!(ib!())), Some((sa.overlaps(&rng!(ib!())), rng!(ib!()).overlaps(&sa)))),
        13 => (TimeContaining::contains(&ia!(), &rng!(ib!())), Some((ia!().overlaps(&rng!(ib!())), rng!(ib!()).overlaps(&ia!())))),
        30 => (TimeContaining::contains(&rng!(ia!()), &sb), None),
        _ => (TimeContaining::contains(&rng!(ia!()), &ib!()), None),
    };
    observe(c as i64);
    check(c == subset(&a, &b), "contains exactly when every point is in");
    if let Some((o1, o2)) = o { observe(o1 as i64); check(o1 == meet(&a, &b), "overlaps exactly when a point is shared"); check(o2 == meet(&a, &b), "overlapping is symmetric"); }
    cover_if(c, "contained"); cover_if(!c, "not contained");
}
#[no_mangle] pub extern "C" fn c11_rel() { typed!(c11) }

// ------------------------------------------------------------------ C12
struct Rec { v: [u64; 64], n: usize }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64 | 256) } }
    fn write_u64(&mut self, x: u64) { check(self.n < 64, "hash recorder"); self.v[self.n] = x; self.n += 1; }
    fn write_i64(&mut self, x: i64) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
fn rec<H: Hash>(h: &H) -> Rec { let mut r = Rec { v: [0; 64], n: 0 }; h.hash(&mut r); r }
fn same_hash<H: Hash>(a: &H, b: &H) -> bool { let (a, b) = (rec(a), rec(b)); if a.n != b.n { return false } let mut r = true; let mut i = 0; while i < a.n { r &= a.v[i] == b.v[i]; i += 1; } r }
fn ends(p: &P) -> (i64, i64) { if p.n == 0 { (MAX, -MAX) } else { (p.b[0].0, p.b[p.n - 1].1) } }
// params: type, kind (as above, left set or interval), m, n
fn c12<T: Pt>() {
    let kind = param(1); let a = opd(2, false); let b = opd(3, kind % 10 == 2);
    let eq = a.same(&b); let ((al, au), (bl, bu)) = (ends(&a), ends(&b));
    let lt = (a.n > 0) & (b.n > 0) & (au < bl); let gt = (a.n > 0) & (b.n > 0) & (bu < al);
    let cmp = if lt { Some(Ordering::Less) } else if gt { Some(Ordering::Greater) } else if eq { Some(Ordering::Equal) } else { None };
    macro_rules! cmpall { ($x:expr, $y:expr) => { { let (x, y) = ($x, $y);
        check((x == y) == eq, "equal exactly when the points are equal"); check((x != y) == !eq, "different exactly when some point differs");
        check((x < y) == lt, "before exactly when all its points are before"); check((x > y) == gt, "after exactly when all its points are after");
        check((x <= y) == (lt | eq), "before or equal"); check((x >= y) == (gt | eq), "after or equal");
        check(x.partial_cmp(&y) == cmp, "comparison"); (x, y) } } }
    macro_rules! rev { ($x:expr, $y:expr) => { { let (x, y) = ($x, $y); check((y == x) == eq, "equality is symmetric"); check((y > x) == lt, "before is antisymmetric"); check((y < x) == gt, "after is antisymmetric"); } } }
    let (sa, sb) = (set::<T>(&a), set::<T>(&b));
    match kind {
        0 => { let (x, y) = cmpall!(sa, sb); if eq { check(same_hash(&x, &y), "equal windows have equal hashes"); cover("equal"); } rev!(x, y) }
        1 => { let (x, y) = cmpall!(sa, itv01::<T>(&b)); rev!(x, y) }
        2 => { cmpall!(sa, T::mk(b.b[0].0)); }
        3 => { let i = itv01::<T>(&b); cmpall!(sa, i.lower_bound()..=i.upper_bound()); }
        10 => { let (x, y) = cmpall!(itv01::<T>(&a), sb); rev!(x, y) }
        11 => { let (x, y) = cmpall!(itv01::<T>(&a), itv01::<T>(&b)); if eq { check(same_hash(&x, &y), "equal windows have equal hashes"); cover("equal"); } rev!(x, y) }
        12 => { cmpall!(itv01::<T>(&a), T::mk(b.b[0].0)); }
        _ => { let i = itv01::<T>(&b); cmpall!(itv01::<T>(&a), i.lower_bound()..=i.upper_bound()); }
    }
    cover_if(eq, "same"); cover_if(lt, "before"); cover_if(gt, "after"); cover_if(!(eq | lt | gt), "unrelated");
}
#[no_mangle] pub extern "C" fn c12_rel() { typed!(c12) }
// windows with the same points, obtained in different ways, are equal and have the same hash
fn c12h<T: Pt>() {
    let (a, b) = (near(), near()); let (l, u) = (near(), near());
    let i = TimeInterval::new(T::mk(a), T::mk(b)) & TimeInterval::new(T::mk(l), T::mk(u));
    let (m, n) = (if a > l { a } else { l }, if b < u { b } else { u });
    let mut j = TimeInterval::<T>::all(); j.truncate_before(T::mk(m)); j.truncate_after(T::mk(n));
    let k = TimeInterval::<T>::from(T::mk(m)..=T::mk(n));
    check(i == j, "equal"); check(same_hash(&i, &j), "equal hash"); check(i == k, "equal"); check(same_hash(&i, &k), "equal hash");
    let d = !!(i.clone()); check(d == i, "equal set"); check(i == d, "equal set"); check(same_hash(&d, &TimeSet::from(k)), "equal hash of sets");
    check(same_hash(&-(-i), &i), "equal hash"); observe(i.is_empty() as i64);
    cover_if(i.is_empty(), "empty"); cover_if(!i.is_empty(), "not empty");
}
#[no_mangle] pub extern "C" fn c12_hash() { typed!(c12h) }

// ------------------------------------------------------------------ C05
/// every answer of a window agrees with its points
fn answers<T: Pt, W: TimeWindow<TimePoint = T>>(w: &W, p: &P) {
    let empty = p.n == 0; let (l, u) = ends(p);
    check(w.is_empty() == empty, "is_empty"); check(w.is_singleton() == ((p.n == 1) & (l == u)), "is_singleton");
    check(w.is_low_bounded() == (!empty & fin(l)), "is_low_bounded"); check(w.is_up_bounded() == (!empty & fin(u)), "is_up_bounded");
    check(w.is_bounded() == (!empty & fin(l) & fin(u)), "is_bounded"); check(w.is_all() == ((p.n == 1) & (l == -MAX) & (u == MAX)), "is_all");
    check(w.convex_count() == p.n, "convex_count"); check(w.is_convex() == (p.n <= 1), "is_convex");
    check(read::<T, _>(w.iter()).same(p), "pieces");
    if !empty { check(w.lower_bound().tk() == l, "lower_bound"); check(w.upper_bound().tk() == u, "upper_bound"); }
    let e = w.convex_envelope();
    check(e.is_empty() == empty, "envelope of an empty window"); if !empty { check((e.lower_bound().tk() == l) & (e.upper_bound().tk() == u), "envelope"); }
}
/// the interval of the (finite) points between l and u
fn between(l: i64, u: i64) -> P { if (l <= u) & (l < MAX) & (u > -MAX) { one(l, u) } else { none() } }
// params: type, kind
fn c05<T: Pt>() {
    let kind = param(1); let (a, b) = (bnd(), bnd()); let (x, y) = (T::mk(a), T::mk(b));
    let e; 
    macro_rules! both { ($w:expr, $p:expr) => { { e = $p; let w = $w; answers::<T, _>(&w, &e); let i: TimeInterval<T> = w.clone().into(); answers::<T, _>(&i, &e); let s: TimeSet<T> = w.clone().into(); answers::<T, _>(&s, &e); } } }
    match kind {
        0 => both!(TimeInterval::new(x, y), between(a, b)),
        1 => both!(TimeInterval::singleton(x), between(a, a)),
        2 => both!(TimeInterval::after(x), between(a, MAX)),
        3 => both!(TimeInterval::before(x), between(-MAX, a)),
        4 => both!(TimeInterval::<T>::all(), one(-MAX, MAX)),
        5 => both!(TimeInterval::<T>::empty(), none()),
        6 => both!(TimeInterval::<T>::default(), none()),
        7 => both!(x..y, between(a, if fin(b) { b - 1 } else { b })),
        8 => both!(x..=y, between(a, b)),
        9 => both!(x.., between(a, MAX)),
        10 => both!(..x, between(-MAX, if fin(a) { a - 1 } else { a })),
        11 => both!(..=x, between(-MAX, a)),
        12 => { e = one(-MAX, MAX); answers::<T, _>(&TimeInterval::<T>::from(..), &e); }
        13 => { e = between(a, a); answers::<T, _>(&TimeInterval::<T>::from(x), &e); answers::<T, _>(&TimeSet::singleton(x), &e); answers::<T, _>(&TimeSet::from(x), &e); if fin(a) { answers::<T, _>(&x, &e); } }
        14 => { e = between(a, b); answers::<T, _>(&TimeInterval::<T>::from((x, y)), &e); answers::<T, _>(&TimeSet::convex(x, y), &e); }
        15 => { e = one(-MAX, MAX); answers::<T, _>(&TimeSet::<T>::all(), &e); answers::<T, _>(&TimeSet::<T>::empty(), &none()); }
        16 => { let i = TimeInterval::new(x, y); let p = between(a, b); e = if p.n == 0 { p } else { one(-p.b[0].1, -p.b[0].0) }; answers::<T, _>(&-i, &e); }
        _ => { // unchecked construction of a genuine interval
            assume((a <= b) & (a < MAX) & (b > -MAX)); e = one(a, b); answers::<T, _>(&itv::<T>((a, b)), &e); }
    }
    e.obs(); cover_if(e.n == 0, "empty"); cover_if(e.n == 1, "not empty");
}
#[no_mangle] pub extern "C" fn c05_build() { typed!(c05) }
// sets of k pieces answer according to their points; negation. params: type, k
fn c05s<T: Pt>() {
    let p = pieces(param(1) as usize, WIDE, true); let s = set::<T>(&p); p.obs();
    answers::<T, _>(&s, &p);
    let mut q = none(); let mut i = p.n; while i > 0 { i -= 1; q.push(-p.b[i].1, -p.b[i].0); }
    let mut n = -s; n.shrink_to_fit(); answers::<T, _>(&n, &q); cover("set");
}
#[no_mangle] pub extern "C" fn c05_set() { typed!(c05s) }
// centred and enlarged intervals. params: type, kind (0 centred, 1 enlarged)
fn c05c<T: Pt>() where T: Add<TimeValue, Output = T> + Sub<TimeValue, Output = T> {
    let d = range(-MAX, MAX);
    if param(1) == 0 {
        let o = range(-MAX, MAX);
        // an infinite date centred with an infinite width has no meaning
        assume(fin(o) | fin(d));
        match TimeInterval::centered(T::mk(o), tv(d)) {
            None => { check(d < 0, "refused only when the width is negative"); cover("refused"); }
            Some(i) => { check(d >= 0, "a negative width is refused"); let p = readi(&i); p.obs(); let x = range(-FIN, FIN);
                check(p.has(x) == (fin(o) & (x as i128 - o as i128 <= if d == MAX { i128::MAX } else { d as i128 }) & (o as i128 - x as i128 <= if d == MAX { i128::MAX } else { d as i128 })), "the points at most that far");
                check((p.n == 0) == i.is_empty(), "empty"); check(i.is_empty() == !fin(o), "centred on nothing"); answers::<T, _>(&i, &p); cover("centred"); }
        }
    } else {
        let p = pieces(param(2) as usize, FIN, true); assume(fin(d)); let i = itv01::<T>(&p);
        let x = range(-FIN, FIN);
        let (lo, hi) = if p.n == 0 { (MAX as i128, -(MAX as i128)) } else { (if fin(p.b[0].0) { p.b[0].0 as i128 - d as i128 } else { p.b[0].0 as i128 }, if fin(p.b[0].1) { p.b[0].1 as i128 + d as i128 } else { p.b[0].1 as i128 }) };
        let inside = (lo <= x as i128) & (x as i128 <= hi);
        match i.enlarge(tv(d)) {
            None => { check(!inside, "refused only when nothing remains"); cover("refused"); }
            Some(j) => { let q = readi(&j); q.obs(); check(q.has(x) == inside, "enlarged by that much on both sides"); check(!j.is_empty(), "something remains"); answers::<T, _>(&j, &q); cover("enlarged"); }
        }
    }
}
#[no_mangle] pub extern "C" fn c05_centre() { typed!(c05c) }
#[no_mangle] pub extern "C" fn c05_duration() {
    let p = pieces(param(0) as usize, FIN, true); let i: TimeSlot = itv01(&p);
    let e = if p.n == 0 { 0 } else if fin(p.b[0].0) & fin(p.b[0].1) { sat(p.b[0].1 as i128 - p.b[0].0 as i128) } else { MAX };
    let r = i.duration().as_ticks(); observe(r); check(r == e, "duration"); cover("duration");
}
