//! C22, C23: schedulers.  The dates of n instants and the graph between them are a network over n + 1 instants, the last
//! one being the origin of dates
use crate::{graph::{*, reads as _}, h::*, v::*};
use chronologic::*;
use chronologic::graph::*;

/// bounds of the dates the scheduler reports
fn dates(s: &TimeScheduler, n: usize) -> Vec<P> { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(match s.scheduling(i as u32) { Some(d) => crate::h::reads(d), None => { check(false, "every instant has dates"); none() } }); i += 1; } v }
/// the network without its origin
fn durations(m: &Mat) -> Mat { let mut d = *m; d.resize(m.n - 1); d }
fn expect(m: &Mat, i: usize) -> P { let o = m.n - 1; one(m.m[o][i], -m.m[i][o]) }
fn convex(m: &Mat, d: &[P], msg: &'static str) { let mut i = 0; while i < d.len() { check(d[i].same(&expect(m, i)), msg); i += 1; } }
fn same(a: &[P], b: &[P]) -> bool { let mut r = a.len() == b.len(); let mut i = 0; while i < a.len() { r &= a[i].same(&b[i]); i += 1; } r }
fn obs(d: &[P]) { for p in d { p.obs() } }
fn slot(l: i64, u: i64) -> TimeSlot { itv::<Timestamp>((l, u)) }
/// a scheduler with these dates, restricted instant after instant
fn sched<'a>(g: &'a TimeGraph, m: &Mat) -> TimeScheduler<'a> {
    let mut s = TimeScheduler::new(g); let o = m.n - 1; let mut i = 0;
    while i < o { check(s.retain(i as u32, slot(m.m[o][i], -m.m[i][o])).is_ok(), "feasible dates are accepted"); i += 1; } s
}
fn acc(t: u8) -> bool { t == b'U' || t == b'P' }
// one more interval on one instant, from any state reached with intervals. params: n, i, kind, window type, bounded
#[no_mangle] pub extern "C" fn s_retain() {
    let (n, i, kind, how) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3)); let m = closed_if(n + 1, LIM, param(4) == 1); let g = graph(&durations(&m)); let mut s = sched(&g, &m);
    convex(&m, &dates(&s, n), "exactly the feasible dates");
    let (l, u) = cons(kind); let before = dates(&s, n); let j = i as u32;
    let t = match (how, kind) { (1, 0) | (1, 4) => tag(&s.retain(j, ts(l)..=ts(u))), (1, 1) => tag(&s.retain(j, ts(l)..)), (1, 2) => tag(&s.retain(j, ..=ts(u))), (1, 5) => tag(&s.retain(j, slot(l, l))),
        (2, 4) => tag(&s.retain(j, TimeSlots::empty())), (2, _) => tag(&s.retain(j, TimeSlots::from(slot(l, u)))), (_, 4) => tag(&s.retain(j, TimeSlot::empty())),
        (3, 0) => tag(&s.remove(j, !slot(l, u))), (3, 1) => tag(&s.remove(j, slot(-MAX, l - 1))), (3, 2) => tag(&s.remove(j, slot(u + 1, MAX))),
        _ => tag(&s.retain(j, slot(l, u))) };
    let d = dates(&s, n); obs(&d); observe(t as i64);
    let mut e = m; let ok = e.insert(n, i, l, u);
    check(acc(t) == ok, "refused exactly when no schedule complies"); check(acc(t) || t == b'R', "recovered");
    if acc(t) { convex(&e, &d, "exactly the feasible dates"); check((t == b'U') == same(&d, &before), "unchanged exactly when no date changed"); } else { check(same(&d, &before), "a refused restriction changes nothing"); }
    cover_if(acc(t), "accepted"); cover_if(!acc(t), "refused");
}
// any sequence of restrictions by sets. params: network, k, then i + 10 pieces + 100 operation for each (0 retain, 1 remove)
#[no_mangle] pub extern "C" fn s_sets() {
    let (m, k) = (net(param(0)), param(1)); let n = m.n; let g = graph(&m); let mut s = TimeScheduler::new(&g);
    // any schedule of the graph
    let mut t = [0i64; NM]; let mut i = 0; while i < n { t[i] = range(-LIM, LIM); let mut j = 0; while j < i { assume((t[i] - t[j] >= m.m[j][i]) & (t[j] - t[i] >= m.m[i][j])); j += 1; } i += 1; }
    let x = range(-LIM * 8, LIM * 8); let mut fits = true; let mut lim = [true; NM]; let mut all = true; let mut c = 0;
    while c < k {
        let q = param(2 + c as u64); let (i, p, op) = ((q % 10) as usize, (q / 10 % 10) as usize, q / 100); let w = pieces(p, LIM, false); let before = dates(&s, n);
        let r = if op == 0 { tag(&s.retain(i as u32, set::<Timestamp>(&w))) } else { tag(&s.remove(i as u32, set::<Timestamp>(&w))) };
        let d = dates(&s, n); let keep = |y: i64| w.has(y) == (op == 0);
        if acc(r) { if !keep(t[i]) { fits = false } if !keep(x) { lim[i] = false } check((r == b'U') == same(&d, &before), "unchanged exactly when no date changed"); }
        else { all = false; if fits { check(!keep(t[i]), "a restriction some schedule complies with is accepted"); } check(same(&d, &before) && r == b'R', "a refused restriction changes nothing"); }
        c += 1;
    }
    let d = dates(&s, n); obs(&d); let mut i = 0;
    while i < n { check(d[i].n > 0, "every instant keeps some date"); check(d[i].canonical(), "dates are a canonical set"); if fits { check(d[i].has(t[i]), "no date of a complying schedule is removed"); } check(!d[i].has(x) | lim[i], "the dates satisfy the restrictions on the instant"); i += 1; }
    cover_if(fits, "complying"); cover_if(all, "all accepted"); cover_if(!all, "some refused");
}
// deadlines (0) and start lines (1) from any state reached with intervals. params: n, which, bounded
#[no_mangle] pub extern "C" fn s_lines() {
    let (n, which) = (param(0) as usize, param(1)); let m = closed_if(n + 1, LIM, param(2) == 1); let g = graph(&durations(&m)); let mut s = sched(&g, &m);
    let before = dates(&s, n); let l = range(-LIM, LIM);
    let t = if which == 0 { tag(&s.set_deadline(ts(l))) } else { tag(&s.set_startline(ts(l))) }; observe(t as i64);
    let d = dates(&s, n); obs(&d); let mut e = m; let mut ok = true; let mut i = 0;
    while i < n { if ok { ok = if which == 0 { e.insert(n, i, -MAX, l) } else { e.insert(n, i, l, MAX) } } i += 1; }
    check(acc(t) == ok, "refused exactly when some instant cannot comply"); check(acc(t) || t == b'R', "recovered");
    if acc(t) { convex(&e, &d, "exactly the feasible dates"); check((t == b'U') == same(&d, &before), "unchanged exactly when no date changed"); } else { check(same(&d, &before), "a refused line changes nothing"); }
    cover_if(acc(t), "accepted"); cover_if(!acc(t), "refused"); cover_if(t == b'U', "unchanged");
}
// deadlines and start lines with disconnected dates. params: network, which, k, then i + 10 pieces for each restriction before
#[no_mangle] pub extern "C" fn s_lines_sets() {
    let (m, which, k) = (net(param(0)), param(1), param(2)); let n = m.n; let g = graph(&m); let mut s = TimeScheduler::new(&g); let mut c = 0;
    while c < k { let q = param(3 + c as u64); let w = pieces((q / 10) as usize, LIM, false); assume(s.retain((q % 10) as u32, set::<Timestamp>(&w)).is_ok()); c += 1; }
    let before = dates(&s, n); let l = range(-LIM, LIM); let mut t = [0i64; NM]; let mut ok = true; let mut i = 0;
    while i < n { t[i] = range(-LIM, LIM); let mut j = 0; while j < i { assume((t[i] - t[j] >= m.m[j][i]) & (t[j] - t[i] >= m.m[i][j])); j += 1; } i += 1; }
    let mut i = 0; while i < n { if !before[i].has(t[i]) { ok = false } if if which == 0 { t[i] > l } else { t[i] < l } { ok = false } i += 1; }
    let r = if which == 0 { tag(&s.set_deadline(ts(l))) } else { tag(&s.set_startline(ts(l))) }; observe(r as i64);
    let d = dates(&s, n); obs(&d); let mut i = 0;
    if acc(r) { check((r == b'U') == same(&d, &before), "unchanged exactly when no date changed");
        while i < n { check(d[i].n > 0, "every instant keeps some date"); let p = if which == 0 { d[i].b[d[i].n - 1].1 } else { d[i].b[0].0 }; check(if which == 0 { p <= l } else { p >= l }, "no date beyond the line"); if ok { check(d[i].has(t[i]), "no date of a complying schedule is removed"); } i += 1; } }
    else { check(!ok, "a line some schedule complies with is accepted"); check(r == b'R' && same(&d, &before), "a refused line changes nothing"); }
    cover_if(acc(r), "accepted"); cover_if(!acc(r), "refused");
}
// removing is retaining the complement. params: network, pieces, pieces before
#[no_mangle] pub extern "C" fn s_remove() {
    let m = net(param(0)); let n = m.n; let g = graph(&m); let mut s = TimeScheduler::new(&g); let p = param(1) as usize;
    let b = pieces(param(2) as usize, LIM, false); assume(s.retain(0, set::<Timestamp>(&b)).is_ok());
    let mut z = s.clone(); let w = pieces(p, LIM, param(3) != 1);
    let (a, c) = if param(3) == 1 { (tag(&s.remove(0, ts(w.b[0].0))), tag(&z.retain(0, !slot(w.b[0].0, w.b[0].0)))) }
        else if param(3) == 2 { (tag(&s.remove(0, slot(w.b[0].0, w.b[0].1))), tag(&z.retain(0, !slot(w.b[0].0, w.b[0].1)))) }
        else { (tag(&s.remove(0, set::<Timestamp>(&w))), tag(&z.retain(0, !set::<Timestamp>(&w)))) };
    let (d, e) = (dates(&s, n), dates(&z, n)); obs(&d);
    check(a == c, "same answer as retaining the complement"); check(same(&d, &e), "same dates as retaining the complement");
    let x = range(-LIM, LIM); let (l, u) = (w.b[0].0, if param(3) == 1 { w.b[0].0 } else { w.b[0].1 }); let out = if param(3) == 0 { !w.has(x) } else { (x < l) | (x > u) };
    if acc(a) { check(d[0].has(x) == (b.has(x) & out), "exactly the other dates") }
    cover_if(acc(a), "accepted"); cover_if(!acc(a), "refused");
}
// bounds of the whole schedule. params: n, pieces of the first instant
#[no_mangle] pub extern "C" fn s_bounds() {
    let n = param(0) as usize; let m = closed_if(n + 1, LIM, param(2) == 1); let g = graph(&durations(&m)); let mut s = sched(&g, &m);
    if param(1) > 0 { let w = pieces(param(1) as usize, LIM, true); assume(s.retain(0, set::<Timestamp>(&w)).is_ok()); }
    let d = dates(&s, n); let (a, b) = (s.latest_beginning().tk(), s.earliest_ending().tk()); observe(a); observe(b);
    let (mut lo, mut hi) = (false, false); let mut i = 0;
    while i < n { let (f, l) = (d[i].b[0].0, d[i].b[d[i].n - 1].1); check(a <= l, "latest beginning: not after the latest date of an instant"); check(b >= f, "earliest ending: not before the earliest date of an instant"); if a == l { lo = true } if b == f { hi = true } i += 1; }
    check(lo, "latest beginning: the latest date of some instant"); check(hi, "earliest ending: the earliest date of some instant");
    check((s.schedule().len() == n) & s.scheduling(n as u32).is_none() & (s.constraints().size() == n as u32), "every instant is scheduled"); cover("bounds");
}
// any sequence of intervals from a new scheduler. params: network, k, then i + 10 kind for each (kinds 6, 7: deadline, start line)
#[no_mangle] pub extern "C" fn s_hist() {
    let (m, k) = (net(param(0)), param(1)); let n = m.n; let g = graph(&m); let mut s = TimeScheduler::new(&g); let mut e = m; e.resize(n + 1); let mut c = 0; let mut all = true;
    while c < k { let q = param(2 + c as u64); let (i, kind) = ((q % 10) as usize, (q / 10) as usize); let (l, u) = cons(kind); let before = dates(&s, n);
        let t = match kind { 6 => tag(&s.set_deadline(ts(l))), 7 => tag(&s.set_startline(ts(l))), 4 => tag(&s.retain(i as u32, ts(l)..=ts(u))), _ => tag(&s.retain(i as u32, slot(l, u))) };
        let d = dates(&s, n); let b = e; let mut ok = true;
        if kind < 6 { ok = e.insert(n, i, l, u) } else { let mut j = 0; while j < n { if ok { ok = if kind == 6 { e.insert(n, j, -MAX, l) } else { e.insert(n, j, l, MAX) } } j += 1; } }
        check(acc(t) == ok, "refused exactly when no schedule complies"); check(acc(t) || t == b'R', "recovered");
        if acc(t) { convex(&e, &d, "exactly the feasible dates"); check((t == b'U') == same(&d, &before), "unchanged exactly when no date changed"); } else { check(same(&d, &before), "a refused restriction changes nothing"); e = b; all = false; }
        c += 1; }
    obs(&dates(&s, n)); cover_if(all, "all accepted"); cover_if(!all, "some refused");
}
/// network of this code: instants + 10 kind (0 any, 1 bounded, 2 precedences)
fn net(c: i64) -> Mat { let n = (c % 10) as usize; if c / 10 == 2 { order(n) } else { closed_if(n, LIM, c / 10 == 1) } }
/// any network of precedences: each instant some minimal duration after the previous ones, none maximal
fn order(n: usize) -> Mat {
    let mut r = Mat::new(n); let mut j = 1; while j < n { let mut i = 0; while i < j { r.m[i][j] = range(-LIM, LIM); i += 1; } j += 1; }
    let mut j = 0; while j < n { let mut k = 0; while k < j { let mut i = 0; while i < k { assume(r.m[i][k] + r.m[k][j] <= r.m[i][j]); i += 1; } k += 1; } j += 1; } r
}
