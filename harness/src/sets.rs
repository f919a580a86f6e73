//! C05-C09, C13: windows as sets of points
use crate::{h::*, v::*};
use chronologic::*;
use chronologic::iter::*;
use std::ops::*;


// ------------------------------------------------------------------ binary operators
pub const SS: usize = 9; pub const SI: usize = 9;
/// union; op selects the variant. set x set: 0.., set x convex: 20.., convex x convex: 40..
pub fn union<T: Pt>(op: usize, a: &P, b: &P) -> P {
    let read = |s: TimeSet<T>| reads(&s);
    match op {
        0 => read(set::<T>(a) | set::<T>(b)),
        1 => read(set::<T>(a) | &set::<T>(b)),
        2 => read(&set::<T>(a) | set::<T>(b)),
        3 => read(&set::<T>(a) | &set::<T>(b)),
        4 => { let mut s = set::<T>(a); s |= set::<T>(b); read(s) }
        5 => { let mut s = set::<T>(a); s |= &set::<T>(b); read(s) }
        6 => crate::h::read(set::<T>(a).into_iter().union(set::<T>(b).into_iter())),
        7 => crate::h::read((&set::<T>(a)).into_iter().union(set::<T>(b))),
        8 => crate::h::read(set::<T>(a).iter().union(&set::<T>(b))),
        9 => read(vec![set::<T>(a), set::<T>(b)].into_iter().collect()),
        20 => read(set::<T>(a) | itv01::<T>(b)),
        21 => read(&set::<T>(a) | itv01::<T>(b)),
        22 => { let mut s = set::<T>(a); s |= itv01::<T>(b); read(s) }
        23 => crate::h::read(set::<T>(a).into_iter().union(itv01::<T>(b))),
        24 => crate::h::read(set::<T>(a).into_iter().union(&itv01::<T>(b))),
        25 => crate::h::read(itv01::<T>(b).into_iter().union(set::<T>(a))),
        26 => { let i = itv01::<T>(b); read(set::<T>(a) | (i.lower_bound()..=i.upper_bound())) }
        27 => { let i = itv01::<T>(b); crate::h::read(set::<T>(a).into_iter().union(i.lower_bound()..=i.upper_bound())) }
        40 => read(itv01::<T>(a) | itv01::<T>(b)),
        41 => read(&itv01::<T>(a) | itv01::<T>(b)),
        42 => { let i = itv01::<T>(b); read(itv01::<T>(a) | (i.lower_bound()..=i.upper_bound())) }
        // one finite point b
        60 => read(set::<T>(a) | T::mk(b.b[0].0)),
        61 => { let mut s = set::<T>(a); s |= T::mk(b.b[0].0); read(s) }
        62 => read(itv01::<T>(a) | T::mk(b.b[0].0)),
        63 => read(T::mk(b.b[0].0) | itv01::<T>(a)),
        64 => read(T::mk(b.b[0].0) | T::mk(a.b[0].0)),
        _ => read(&set::<T>(a) | T::mk(b.b[0].0)),
    }
}
pub fn inter<T: Pt>(op: usize, a: &P, b: &P) -> P {
    let read = |s: TimeSet<T>| reads(&s);
    match op {
        0 => read(set::<T>(a) & set::<T>(b)),
        1 => read(set::<T>(a) & &set::<T>(b)),
        2 => read(&set::<T>(a) & set::<T>(b)),
        3 => read(&set::<T>(a) & &set::<T>(b)),
        4 => { let mut s = set::<T>(a); s &= set::<T>(b); read(s) }
        5 => { let mut s = set::<T>(a); s &= &set::<T>(b); read(s) }
        6 => crate::h::read(set::<T>(a).into_iter().intersection(set::<T>(b).into_iter())),
        7 => crate::h::read((&set::<T>(a)).into_iter().intersection(set::<T>(b))),
        8 => crate::h::read(set::<T>(a).iter().intersection(&set::<T>(b))),
        20 => read(set::<T>(a) & itv01::<T>(b)),
        21 => read(&set::<T>(a) & itv01::<T>(b)),
        22 => { let mut s = set::<T>(a); s &= itv01::<T>(b); read(s) }
        23 => crate::h::read(set::<T>(a).into_iter().intersection(itv01::<T>(b))),
        24 => crate::h::read(set::<T>(a).into_iter().intersection(&itv01::<T>(b))),
        25 => crate::h::read(itv01::<T>(b).into_iter().intersection(set::<T>(a))),
        26 => { let i = itv01::<T>(b); read(set::<T>(a) & (i.lower_bound()..=i.upper_bound())) }
        27 => { let i = itv01::<T>(b); crate::h::read(set::<T>(a).into_iter().intersection(i.lower_bound()..=i.upper_bound())) }
        40 => readi(&(itv01::<T>(a) & itv01::<T>(b))),
        41 => readi(&(&itv01::<T>(a) & itv01::<T>(b))),
        42 => { let i = itv01::<T>(b); readi(&(itv01::<T>(a) & (i.lower_bound()..=i.upper_bound()))) }
        43 => { let mut s = itv01::<T>(a); s &= itv01::<T>(b); readi(&s) }
        60 => read(set::<T>(a) & T::mk(b.b[0].0)),
        61 => { let mut s = set::<T>(a); s &= T::mk(b.b[0].0); read(s) }
        62 => readi(&(itv01::<T>(a) & T::mk(b.b[0].0))),
        63 => readi(&(T::mk(b.b[0].0) & itv01::<T>(a))),
        64 => readi(&(T::mk(b.b[0].0) & T::mk(a.b[0].0))),
        65 => { let mut s = itv01::<T>(a); s &= T::mk(b.b[0].0); readi(&s) }
        _ => read(&set::<T>(a) & T::mk(b.b[0].0)),
    }
}
/// complement (op < 20, b unused), lazy exclusion (op >= 20)
pub fn compl<T: Pt>(op: usize, a: &P, b: &P) -> P {
    match op {
        0 => reads(&!set::<T>(a)),
        1 => reads(&!itv01::<T>(a)),
        2 => reads(&!T::mk(a.b[0].0)),
        3 => read(set::<T>(a).into_iter().complementary()),
        4 => read(itv01::<T>(a).into_iter().complementary()),
        5 => reads(&set::<T>(a).iter().complementary().collect::<TimeSet<T>>()),
        20 => read(set::<T>(a).into_iter().exclusion(set::<T>(b).into_iter())),
        21 => read(set::<T>(a).iter().exclusion(itv01::<T>(b).into_iter())),
        22 => read(itv01::<T>(a).into_iter().exclusion((&set::<T>(b)).into_iter())),
        _ => reads(&set::<T>(a).iter().exclusion(set::<T>(b).iter()).collect::<TimeSet<T>>()),
    }
}
/// symbolic operands of a binary operation; sizes from the job parameters 2 and 3
fn operand(k: u64, point: bool) -> P {
    if point { let p = range(-FIN, FIN); return one(p, p) }
    pieces(param(k) as usize, WIDE, true)
}
fn operands(op: usize) -> (P, P) { (operand(2, op == 64), operand(3, op >= 60)) }

// C07. params: type, op, m, n
fn c07<T: Pt>() {
    let op = param(1) as usize; let (a, b) = operands(op);
    let r = union::<T>(op, &a, &b); r.obs();
    let x = range(-FIN, FIN);
    check(r.has(x) == (a.has(x) | b.has(x)), "a point is in the union exactly when it is in an operand");
    cover_if(r.n < a.n + b.n, "merged"); cover_if(r.n == a.n + b.n, "separated");
}
#[no_mangle] pub extern "C" fn c07_union() { typed!(c07) }
// collecting intervals in any order, possibly empty or overlapping. params: type, k, kind
fn c07c<T: Pt>() {
    let k = param(1) as usize; let mut v: Vec<TimeInterval<T>> = Vec::with_capacity(k); let mut b = [(0i64, 0i64); 4]; let mut i = 0;
    while i < k { let l = bnd(); let u = bnd();
        // either a genuine interval or the empty one
        assume(((l <= u) & (l < MAX) & (u > -MAX)) | ((l == MAX) & (u == -MAX)));
        b[i] = (l, u); v.push(if l == MAX { TimeInterval::empty() } else { itv::<T>(b[i]) }); i += 1; }
    let r = if param(2) == 0 { reads(&v.into_iter().collect::<TimeSet<T>>()) } else { reads(&v.into_iter().map(|i| TimeSet::from(i)).collect::<TimeSet<T>>()) };
    r.obs();
    let x = range(-FIN, FIN); let mut e = false; let mut i = 0;
    while i < k { e |= (b[i].0 <= x) & (x <= b[i].1); i += 1; }
    check(r.has(x) == e, "collecting is the union of the collected windows");
    check(r.canonical() | (param(3) == 0), "collected set is canonical");
    cover_if(r.n == k, "all apart"); cover_if(r.n == 0, "all empty"); cover_if((r.n == 1) & (k > 1), "merged");
}
#[no_mangle] pub extern "C" fn c07_collect() { typed!(c07c) }

// C08. params: type, op, m, n
fn c08<T: Pt>() {
    let op = param(1) as usize; let (a, b) = operands(op);
    let r = inter::<T>(op, &a, &b); r.obs();
    let x = range(-FIN, FIN);
    check(r.has(x) == (a.has(x) & b.has(x)), "a point is in the intersection exactly when it is in both operands");
    if op >= 40 && op != 60 && op != 61 && op != 66 {
        let e = (a.n == 0) | (b.n == 0) || (a.b[0].1 < b.b[0].0) | (b.b[0].1 < a.b[0].0);
        check((r.n == 0) == e, "disjoint intervals intersect in the empty window");
    } else {
        let mut e = false; let mut i = 0;
        while i < a.n { let mut j = 0; while j < b.n { e |= (a.b[i].0 <= b.b[j].1) & (b.b[j].0 <= a.b[i].1); j += 1; } i += 1; }
        check((r.n != 0) == e, "the intersection is empty exactly when no point is shared");
    }
    cover_if(r.n == 0, "disjoint"); cover_if(r.n > 0, "some");
}
#[no_mangle] pub extern "C" fn c08_inter() { typed!(c08) }

// C09. params: type, op, m, n
fn c09<T: Pt>() {
    let op = param(1) as usize; let a = operand(2, op == 2); let b = if op >= 20 { operand(3, false) } else { none() };
    let r = compl::<T>(op, &a, &b); r.obs();
    let x = range(-FIN, FIN);
    if op >= 20 { check(r.has(x) == (a.has(x) & !b.has(x)), "exclusion keeps exactly the points of the first which are not in the second"); }
    else { check(r.has(x) == !a.has(x), "the complement contains exactly the other points"); }
    check(r.canonical(), "no piece without a point: a window without any point is empty");
    cover_if(r.n == 0, "nothing"); cover_if(r.n > 1, "several");
}
#[no_mangle] pub extern "C" fn c09_compl() { typed!(c09) }
fn c09d<T: Pt>() {
    let a = pieces(param(1) as usize, NEAR, true); let s = set::<T>(&a);
    let d = !!s.clone(); reads(&d).obs();
    check(d == s, "complementing twice gives back the set"); check(reads(&d).same(&a), "complementing twice gives back the pieces");
    if a.n == 1 { check(!!itv::<T>(a.b[0]) == s, "complementing an interval twice"); }
    if a.n == 0 { check((!TimeSet::<T>::empty()).is_all(), "the complement of nothing is everything"); check((!TimeSet::<T>::all()).is_empty(), "the complement of everything is nothing");
        check((!TimeInterval::<T>::all()).is_empty(), "the complement of the full interval"); check((!TimeInterval::<T>::empty()).is_all(), "the complement of the empty interval");
        check(TimeSet::<T>::empty().into_iter().complementary().next() == Some(TimeInterval::all()), "lazy complement of nothing"); check(TimeInterval::<T>::all().into_iter().complementary().next().is_none(), "lazy complement of everything"); }
    cover("twice");
}
#[no_mangle] pub extern "C" fn c09_twice() { typed!(c09d) }

// C13. params: type, kind (0 interval before,1 interval after,2 set before,3 set after), m
fn c13<T: Pt>() {
    let kind = param(1); let a = pieces(param(2) as usize, WIDE, true); let t = near();
    let (r, changed) = match kind {
        0 => { let mut i = itv01::<T>(&a); let c = i.truncate_before(T::mk(t)); (readi(&i), c) }
        1 => { let mut i = itv01::<T>(&a); let c = i.truncate_after(T::mk(t)); (readi(&i), c) }
        2 => { let mut s = set::<T>(&a); let c = s.truncate_before(T::mk(t)); (reads(&s), c) }
        _ => { let mut s = set::<T>(&a); let c = s.truncate_after(T::mk(t)); (reads(&s), c) }
    };
    r.obs(); observe(changed as i64);
    let x = range(-FIN, FIN);
    check(r.has(x) == (a.has(x) & if kind & 1 == 0 { x >= t } else { x <= t }), "truncation removes exactly the points beyond the bound");
    // a point is removed when some piece reaches beyond the bound (at a finite point)
    let lo = if a.n == 0 { MAX } else { a.b[0].0 }; let hi = if a.n == 0 { -MAX } else { a.b[a.n - 1].1 };
    // the first (last) finite point of the window
    let lo = if lo == -MAX { -FIN } else { lo }; let hi = if hi == MAX { FIN } else { hi };
    let removed = (a.n > 0) & if kind & 1 == 0 { lo < t } else { hi > t };
    check(changed == removed, "truncation reports a change exactly when a point was removed");
    cover_if(removed & (r.n > 0), "partly removed"); cover_if(removed & (r.n == 0), "all removed"); cover_if(!removed, "nothing removed");
}
#[no_mangle] pub extern "C" fn c13_trunc() { typed!(c13) }

// C06. params: type, family, op, m, n: every operation on canonical sets gives a canonical set
fn c06<T: Pt>() {
    let (fam, op) = (param(1), param(2) as usize);
    let p = |k: u64, point: bool| if point { let p = range(-FIN, FIN); one(p, p) } else { pieces(param(k) as usize, WIDE, true) };
    let r = match fam {
        0 => union::<T>(op, &p(3, op == 64), &p(4, op >= 60)),
        1 => inter::<T>(op, &p(3, op == 64), &p(4, op >= 60)),
        2 => compl::<T>(op, &p(3, op == 2), &if op >= 20 { p(4, false) } else { none() }),
        3 => { let mut s = set::<T>(&p(3, false)); let t = T::mk(bnd()); if op == 0 { s.truncate_before(t); } else { s.truncate_after(t); } reads(&s) }
        _ => { let s = set::<T>(&p(3, false)); reads(&-s) }
    };
    r.obs();
    check(r.canonical(), "pieces are ordered, non-empty and separated");
    cover("done");
}
#[no_mangle] pub extern "C" fn c06_step() { typed!(c06) }
