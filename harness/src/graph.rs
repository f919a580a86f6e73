//! C16-C21: constraint graphs
use crate::{h::*, v::*};
use chronologic::*;
use chronologic::graph::*;
use std::fmt::{self, Debug, Write};

pub const NM: usize = 6;
/// bounds of the constraints: sums of a few of them never leave the range of ticks
pub const LIM: i64 = 1 << 59;
/// m[i][j] is the lower bound of the duration from i to j (-MAX when there is none), so its upper bound is -m[j][i]
#[derive(Clone, Copy)]
pub struct Mat { pub n: usize, pub m: [[i64; NM]; NM] }

impl Mat {
    pub fn new(n: usize) -> Mat { let mut r = Mat { n: 0, m: [[-MAX; NM]; NM] }; r.resize(n); r }
    /// new instants are unconstrained
    pub fn resize(&mut self, n: usize) {
        let mut i = 0; while i < NM { let mut j = 0; while j < NM { if i >= self.n || j >= self.n || i >= n || j >= n { self.m[i][j] = if i == j { 0 } else { -MAX } } j += 1; } i += 1; }
        self.n = n;
    }
    pub fn get(&self, i: usize, j: usize) -> i64 { if i < self.n && j < self.n { self.m[i][j] } else { -MAX } }
    /// adds l <= j - i <= u; false (and unchanged) when it contradicts the others
    pub fn insert(&mut self, i: usize, j: usize, l: i64, u: i64) -> bool {
        if l > u { return false }
        if l != -MAX && self.m[j][i] != -MAX && l > -self.m[j][i] { return false }
        if u != MAX && self.m[i][j] != -MAX && self.m[i][j] > u { return false }
        if l != -MAX { self.edge(i, j, l); } if u != MAX { self.edge(j, i, -u); }
        true
    }
    fn edge(&mut self, i: usize, j: usize, w: i64) {
        let o = *self; let mut a = 0;
        while a < self.n { let mut b = 0; while b < self.n {
            if o.m[a][i] != -MAX && o.m[j][b] != -MAX { let s = o.m[a][i] + w + o.m[j][b]; if s > self.m[a][b] { self.m[a][b] = s } }
            b += 1; } a += 1; }
    }
    pub fn same(&self, o: &Mat) -> bool { if self.n != o.n { return false } let mut r = true; let mut i = 0; while i < self.n { let mut j = 0; while j < self.n { r &= self.m[i][j] == o.m[i][j]; j += 1; } i += 1; } r }
    pub fn obs(&self) { observe(self.n as i64); let mut i = 0; while i < self.n { let mut j = 0; while j < self.n { observe(self.m[i][j]); j += 1; } i += 1; } }
}
/// any minimal network over n instants: every pattern of unbounded sides, every value of the others
pub fn closed(n: usize, lim: i64) -> Mat { closed_if(n, lim, false) }
/// with every side bounded when `all`
pub fn closed_if(n: usize, lim: i64, all: bool) -> Mat {
    let mut r = Mat::new(n); let mut f = [[false; NM]; NM]; let mut i = 0;
    while i < n { let mut j = 0; while j < n { f[i][j] = i == j || all || choose(2) == 1; j += 1; } i += 1; }
    let mut i = 0; while i < n { let mut j = 0; while j < n { let mut k = 0; while k < n { if f[i][k] && f[k][j] && !f[i][j] { assume(false) } k += 1; } j += 1; } i += 1; }
    let mut i = 0; while i < n { let mut j = 0; while j < n { if f[i][j] && i != j { r.m[i][j] = range(-lim, lim) } j += 1; } i += 1; }
    let mut i = 0; while i < n { let mut j = 0; while j < n { let mut k = 0; while k < n {
        if k != i && k != j && f[i][k] && f[k][j] { assume(r.m[i][k] + r.m[k][j] <= r.m[i][j]); } k += 1; } j += 1; } i += 1; }
    r
}
pub fn span(l: i64, u: i64) -> TimeSpan { itv::<TimeValue>((l, u)) }
/// the graph of this network
pub fn graph(m: &Mat) -> TimeGraph {
    let mut g = TimeGraph::with_size(m.n as u32); let mut v = Vec::with_capacity(16); let mut j = 1;
    while j < m.n { let mut i = 0; while i < j { v.push(((i as u32, j as u32), span(m.m[i][j], -m.m[j][i]))); i += 1; } j += 1; }
    check(g.extend(v).is_ok(), "a consistent network is accepted"); g
}
pub fn reads(g: &TimeGraph) -> Mat {
    let n = g.size() as usize; check(n <= NM, "size"); let mut r = Mat::new(n); let mut i = 0;
    while i < n { let mut j = 0; while j < n { let (a, b) = (g.timespan(i as u32, j as u32), g.timespan(j as u32, i as u32));
        check((a.lower_bound().as_ticks() == -b.upper_bound().as_ticks()) & (a.upper_bound().as_ticks() == -b.lower_bound().as_ticks()), "the reverse constraint is the opposite");
        r.m[i][j] = a.lower_bound().as_ticks(); j += 1; } i += 1; }
    r
}
struct First(u8);
impl Write for First { fn write_str(&mut self, s: &str) -> fmt::Result { if self.0 == 0 && s.len() > 0 { self.0 = s.as_bytes()[0] } Ok(()) } }
fn first<D: Debug>(d: &D) -> u8 { let mut f = First(0); let _ = write!(f, "{:?}", d); f.0 }
/// U unchanged, P propagated, R recovered, F fatal
pub fn tag<D: Debug, E: Debug>(r: &Result<D, E>) -> u8 { match r { Ok(d) => first(d), Err(e) => first(e) } }

/// a constraint of the given kind: 0 bounded, 1 from below, 2 from above, 3 none, 4 inverted bounds, 5 a single duration
pub fn cons(kind: usize) -> (i64, i64) {
    let (l, u) = (range(-LIM, LIM), range(-LIM, LIM));
    match kind { 0 => { assume(l <= u); (l, u) } 1 => (l, MAX), 2 => (-MAX, u), 3 => (-MAX, MAX), 4 => { assume(l > u); (l, u) } _ => (l, l) }
}
/// through the different window types
fn put(g: &mut TimeGraph, how: usize, i: usize, j: usize, kind: usize, l: i64, u: i64) -> u8 {
    let ij = (i as u32, j as u32);
    match kind {
        1 if how == 1 => tag(&g.propagate((ij, tv(l)..))), 2 if how == 1 => tag(&g.propagate((ij, ..=tv(u)))),
        4 => tag(&g.propagate((ij, tv(l)..=tv(u)))), 5 if how == 1 => tag(&g.propagate((ij, tv(l)))),
        0 if how == 1 => tag(&g.propagate((ij, tv(l)..=tv(u)))),
        _ => tag(&g.propagate((ij, span(l, u)))),
    }
}
// one more constraint on any minimal network. params: property, n, i, j, kind, window type, every side already bounded
#[no_mangle] pub extern "C" fn g_insert() {
    let prop = param(0); let (n, i, j, kind) = (param(1) as usize, param(2) as usize, param(3) as usize, param(4) as usize);
    let m = closed_if(n, LIM, param(6) == 1); let (l, u) = cons(kind);
    let mut g = graph(&m);
    if prop == 17 { check(reads(&g).same(&m), "a minimal network is kept as it is"); }
    let t = put(&mut g, param(5) as usize, i, j, kind, l, u);
    let r = reads(&g); r.obs(); observe(t as i64);
    let mut e = m; let s = n.max(i + 1).max(j + 1); e.resize(s); let ok = e.insert(i, j, l, u); let acc = t == b'U' || t == b'P';
    match prop {
        17 => { if ok & acc { check(r.same(&e), "the network is minimal"); } }
        18 => { check(acc == ok, "refused exactly when it contradicts the others"); if !acc { check(r.same(&m), "a refused constraint changes nothing"); } }
        _ => { if acc { check((t == b'U') == r.same(&m), "unchanged exactly when nothing changed"); } else { check(t == b'R' && r.same(&m), "recovered: nothing changed"); } }
    }
    if prop == 18 && !acc { // later operations behave as if it had never been tried
        let (l, u) = cons(0); let mut k = m; k.resize(s); let ok = k.insert(i, j, l, u) ; assume(ok);
        let t = put(&mut g, 0, i, j, 0, l, u); check(t == b'U' || t == b'P', "later insertion"); check(reads(&g).same(&k), "later insertion after a refused one"); }
    cover_if(acc, "accepted"); cover_if(!acc, "refused"); cover_if(t == b'U', "unchanged"); cover_if(t == b'P', "propagated");
}
fn digits(c: i64) -> (usize, usize, usize) { ((c % 10) as usize, (c / 10 % 10) as usize, (c / 100) as usize) }
// any sequence of k constraints from an empty graph. params: property, k, then i + 10 j + 100 kind for each
#[no_mangle] pub extern "C" fn g_history() {
    let prop = param(0); let k = param(1); let mut g = TimeGraph::default(); let mut e = Mat::new(0); let mut c = 0; let mut all = true;
    while c < k {
        let (i, j, kind) = digits(param(2 + c as u64)); let (l, u) = cons(kind); let before = e; let s = e.n.max(i + 1).max(j + 1);
        e.resize(s); let ok = e.insert(i, j, l, u); if !ok { e = before; all = false; }
        let t = put(&mut g, 0, i, j, kind, l, u); let r = reads(&g);
        if prop == 18 { check((t == b'R') == !ok, "refused exactly when it contradicts the others"); check(ok || r.same(&before), "a refused constraint changes nothing"); }
        else if prop == 20 { check(t == if !ok { b'R' } else if e.same(&before) { b'U' } else { b'P' }, "the answer tells what changed"); }
        else { check(r.same(&e), "the network is minimal"); }
        c += 1;
    }
    reads(&g).obs(); cover_if(all, "all accepted"); cover_if(!all, "some refused");
}
// several constraints at once on any minimal network. params: mode, n, k, constraints...
#[no_mangle] pub extern "C" fn g_bulk() {
    let (mode, n, k) = (param(0), param(1) as usize, param(2)); let m = closed(n, LIM); let mut e = m; let mut ok = true; let mut v = Vec::with_capacity(8); let mut c = 0; let mut size = n;
    while c < k {
        let (i, j, kind) = digits(param(3 + c as u64)); let (l, u) = cons(kind); size = size.max(i + 1).max(j + 1); e.resize(size);
        if ok { ok = e.insert(i, j, l, u) } v.push(((i as u32, j as u32), tv(l)..=tv(u))); c += 1;
    }
    let mut g = if mode < 2 || mode > 3 { graph(&m) } else { TimeGraph::default() };
    let t = match mode {
        0 => tag(&g.extend(v)),
        1 => { let mut q = 0; tag(&g.extend(v.into_iter().filter(|_| { q += 1; q <= k }))) } // unknown number of constraints
        4 | 5 => { // known to come: one at least, or nothing
            let mut it = v.into_iter(); let a = if mode == 4 { it.next() } else { None }; tag(&g.extend(a.into_iter().chain(std::iter::from_fn(move || it.next())))) }
        2 => { may_panic(!ok); g = v.into_iter().collect(); may_panic(false); b'P' }
        _ => { may_panic(!ok); Extend::extend(&mut g, v); may_panic(false); b'P' }
    };
    observe(t as i64); let r = reads(&g); r.obs();
    if ok { check(t == b'P' || t == b'U', "consistent constraints are accepted"); check(r.same(&e), "same network as one by one"); }
    else {
        check(t == b'F' || t == b'R' && k == 1, "an inconsistency is reported");
        if t == b'F' { check(r.n == 0, "the graph is emptied"); reuse(&mut g); }
    }
    cover_if(ok, "consistent"); cover_if(!ok, "inconsistent");
}
/// an emptied graph behaves like a new one
fn reuse(g: &mut TimeGraph) {
    let (l, u) = cons(0); let mut e = Mat::new(3); g.resize(3); check(reads(g).same(&e), "emptied graph: no constraint when resized");
    let _ = e.insert(2, 1, l, u); check(tag(&g.propagate(((2, 1), span(l, u)))) == b'P', "emptied graph: new constraint"); check(reads(g).same(&e), "emptied graph: same as a new one");
}
// merging any two minimal networks. params: property, n1, n2
#[no_mangle] pub extern "C" fn g_merge() {
    let (a, b) = (closed(param(1) as usize, LIM), closed(param(2) as usize, LIM)); let mut e = a; e.resize(a.n.max(b.n)); let mut ok = true; let mut j = 0;
    while j < b.n { let mut i = 0; while i < j { if ok && (b.m[i][j] != -MAX || b.m[j][i] != -MAX) { ok = e.insert(i, j, b.m[i][j], -b.m[j][i]) } i += 1; } j += 1; }
    let mut g = graph(&a); let t = tag(&g.merge(graph(&b))); observe(t as i64); let r = reads(&g); r.obs();
    if param(0) == 19 {
        if ok { check(t == b'P' || t == b'U', "consistent networks are merged"); check(r.same(&e), "same network as one by one"); }
        else { check(t == b'F', "an inconsistency is reported"); check(r.n == 0, "the graph is emptied"); reuse(&mut g); }
    } else {
        if t == b'F' || t == b'R' { check(r.n == 0 && t == b'F', "fatal: the graph is empty") } else { check((t == b'U') == r.same(&a), "unchanged exactly when nothing changed") }
    }
    cover_if(ok, "consistent"); cover_if(!ok, "inconsistent"); cover_if(t == b'U', "unchanged");
}
// C19: constraints taken from another graph. params: mode, n, n2
#[no_mangle] pub extern "C" fn g_copy() {
    let (mode, n) = (param(0), param(1) as usize); let m = closed(n, LIM); let g = graph(&m);
    // instants which have a constraint with another one, up to the last one
    let mut k = n; while k > 0 { let mut c = false; let mut i = 0; while i < n { if i != k - 1 && (m.m[i][k - 1] != -MAX || m.m[k - 1][i] != -MAX) { c = true } i += 1; } if c { break } k -= 1; }
    let mut e = m; e.resize(k);
    let h: TimeGraph = match mode {
        0 => g.iter().collect(), // collected
        1 => { let mut h = TimeGraph::default(); Extend::extend(&mut h, g.iter()); h }
        2 => { let mut h = TimeGraph::with_size(param(2) as u32); e.resize(k.max(param(2) as usize)); let t = tag(&h.extend(g.iter())); check(t == b'P' || t == b'U', "consistent"); h }
        3 => { let mut h = TimeGraph::default(); let mut i = 0; while i < n { let mut j = 0; while j < n { if i != j { if let Some(c) = g.constraint(i as u32, j as u32) { let t = tag(&h.propagate(c)); check(t == b'P' || t == b'U', "consistent"); } } j += 1; } i += 1; } h }
        4 => { let mut h = TimeGraph::default(); let mut i = 0; while i < n { let t = tag(&h.extend(g.constraints_to(i as u32))); check(t == b'P' || t == b'U', "consistent"); i += 1; } h }
        5 => { let mut h = TimeGraph::default(); let mut i = n; while i > 0 { i -= 1; for c in g.constraints_from(i as u32) { let c: ((u32, u32), TimeSpan) = c.into(); let t = tag(&h.propagate(c)); check(t == b'P' || t == b'U', "consistent"); } } h }
        _ => { // into any other network, as merging does
            let b = closed(param(2) as usize, LIM); e = b; e.resize(b.n.max(k)); let mut ok = true; let mut j = 0;
            while j < n { let mut i = 0; while i < j { if ok && (m.m[i][j] != -MAX || m.m[j][i] != -MAX) { ok = e.insert(i, j, m.m[i][j], -m.m[j][i]) } i += 1; } j += 1; }
            let mut h = graph(&b); let t = tag(&h.extend(g.iter())); check(ok == (t == b'P' || t == b'U'), "refused exactly when inconsistent");
            cover_if(ok, "consistent"); cover_if(!ok, "inconsistent");
            if !ok { if t == b'F' { check(h.size() == 0, "the graph is emptied") } else { check(t == b'R', "recovered"); check(reads(&h).same(&b), "a refused constraint changes nothing") } return; } h }
    };
    let r = reads(&h); r.obs(); check(r.same(&e), "same network as the one the constraints come from"); cover("copied");
}
// C16. params: operation, n, size
#[no_mangle] pub extern "C" fn g_resize() {
    let (op, n, s) = (param(0), param(1) as usize, param(2) as usize); let m = closed(n, LIM); let mut e = m; let mut g = graph(&m);
    match op {
        0 => { g.resize(s as u32); e.resize(s); }
        1 => { g.resize(s as u32); e.resize(s); g.resize(n as u32 + 1); e.resize(n + 1); }
        2 => { g.reset(); e = Mat::new(n); }
        3 | 4 => { let mut k = n; while k > 0 { let mut c = false; let mut i = 0; while i < n { if i != k - 1 && (m.m[i][k - 1] != -MAX || m.m[k - 1][i] != -MAX) { c = true } i += 1; } if c { break } k -= 1; }
            g.shrink_to_fit(); e.resize(k); if op == 4 { check(reads(&g).same(&e), "only unconstrained instants are trimmed"); g.resize(s as u32); e.resize(s); } }
        5 => { g.shrink_to(s as u32); }
        6 => { // emptied by an inconsistency
            let t = tag(&g.extend(vec![((0, 1), tv(1)..=tv(2)), ((1, 0), tv(1)..=tv(2))])); check(t == b'F', "inconsistency"); check(g.size() == 0, "emptied"); g.resize(s as u32); e = Mat::new(s); }
        _ => { g = g.clone(); let mut h = TimeGraph::with_size(n as u32); check(tag(&h.merge(g.clone())) != b'F', "merge"); check(reads(&h).same(&m), "copy"); }
    }
    let r = reads(&g); r.obs(); check(r.same(&e), "the other constraints are kept, the new instants have none");
    let mut i = 0; while i < r.n { check(g.timespan(i as u32, i as u32) == TimeInterval::from(tv(0)), "zero distance from itself"); i += 1; }
    let x = r.n as u32; check(g.timespan(x, 0).is_all() & g.timespan(0, x).is_all() & g.timespan(x, x + 1).is_all() & g.timespan(x, x).is_all(), "no constraint outside the graph");
    check(g.constraint(x, 0).is_none() & g.constraint(0, x).is_none(), "no constraint outside the graph");
    // and it still works
    if r.n > 1 { let (l, u) = cons(0); let (i, j) = (r.n - 1, 0); let ok = e.insert(i, j, l, u); let t = tag(&g.propagate(((i as u32, j as u32), span(l, u)))); check((t == b'R') == !ok, "later insertion"); check(reads(&g).same(&e), "later insertion"); }
    cover("resized");
}
fn linked(m: &Mat, i: usize, j: usize) -> bool { i != j && (m.get(i, j) != -MAX || m.get(j, i) != -MAX) }
// C21. params: query, n
#[no_mangle] pub extern "C" fn g_query() {
    let (op, n) = (param(0), param(1) as usize); let m = closed(n, LIM); let g = graph(&m);
    let same = |k: &TimeGraphConstraintView, i: usize, j: usize| (k.0 == i as u32) & (k.1 == j as u32) & (k.2 == m.m[i][j]) & (k.3 == -m.m[j][i]);
    match op {
        0 => { // every pair
            let mut i = 0; while i < n + 1 { let mut j = 0; while j < n + 1 { let k = g.constraint(i as u32, j as u32);
                if i != j { check(k.is_some() == linked(&m, i, j), "a constraint exactly between constrained instants"); if let Some(k) = k { check(same(&view(&k), i, j), "the propagated constraint"); let s: TimeSpan = k.into(); check(s == g.timespan(i as u32, j as u32), "same interval"); } }
                j += 1; } i += 1; } }
        1 => { // all the constraints
            let mut seen = [[0; NM]; NM]; let mut left = 0; let mut i = 0; while i < n { let mut j = 0; while j < i { if linked(&m, i, j) { left += 1 } j += 1; } i += 1; }
            let mut it = g.iter();
            loop { let (lo, hi) = it.size_hint(); check(lo <= left && hi.map_or(true, |h| h >= left), "size hint");
                match it.next() { None => break, Some(k) => { let (a, b) = (TimeConstraint::from(&k) as usize, k.to() as usize); check(a < n && b < n && a != b && linked(&m, a, b), "a constrained pair of distinct instants"); check(same(&view(&k), a, b), "the propagated interval");
                    seen[a][b] += 1; seen[b][a] += 1; check(left > 0, "not too many"); left -= 1; } } }
            check(left == 0, "none is missing"); check(it.next().is_none(), "ends"); let (lo, _) = it.size_hint(); check(lo == 0, "size hint at the end");
            let mut i = 0; while i < n { let mut j = 0; while j < n { check(seen[i][j] == if linked(&m, i, j) { 1 } else { 0 }, "exactly once"); j += 1; } i += 1; } }
        2 | 3 => { // from or to an instant
            let mut i = 0; while i < n + 1 { let mut left = 0; let mut j = 0; while j < n { if i < n && linked(&m, i, j) { left += 1 } j += 1; } let mut seen = [0; NM];
                let mut go = |x: &mut dyn Iterator<Item = TimeGraphConstraintView>| {
                    loop { let (lo, hi) = x.size_hint(); check(lo <= left && hi.map_or(true, |h| h >= left), "size hint");
                        match x.next() { None => break, Some(k) => { let (a, b) = (k.0 as usize, k.1 as usize); let o = if op == 2 { check(a == i, "starts from it"); b } else { check(b == i, "ends to it"); a };
                            check(o < n && linked(&m, i, o), "a constrained distinct instant"); check(same(&k, a, b), "the propagated interval"); seen[o] += 1; check(left > 0, "not too many"); left -= 1; } } }
                    check(left == 0, "none is missing"); check(x.next().is_none(), "ends"); };
                if op == 2 { go(&mut g.constraints_from(i as u32).map(|k| view(&k))) } else { go(&mut g.constraints_to(i as u32).map(|k| view(&k))) }
                let mut j = 0; while j < n { check(seen[j] == if i < n && linked(&m, i, j) { 1 } else { 0 }, "exactly once"); j += 1; } i += 1; } }
        5 => { // equivalence of two constraints over the same instants or not
            const K: [usize; 5] = [0, 1, 2, 3, 5]; let (l, u) = cons(K[choose(5) as usize]); let (a, b) = cons(K[choose(5) as usize]); let mut x = 0;
            while x < 256 { let (i, j, p, q) = (x & 3, x >> 2 & 3, x >> 4 & 3, x >> 6); x += 1; if i == j || p == q || i > n as u32 || j > n as u32 || p > n as u32 || q > n as u32 { continue }
                let r = ((i, j), span(l, u)).equiv(&((p, q), span(a, b)));
                let e = ((i == p) & (j == q) & (l == a) & (u == b)) | ((i == q) & (j == p) & (l == -b) & (u == -a)); check(r == e, "equivalent exactly when they say the same"); } }
        _ => { // comparisons
            use std::cmp::Ordering::*;
            let mut i = 0; while i < n + 1 { let mut j = 0; while j < n + 1 { let (l, u) = if i < n && j < n { (m.m[i][j], -m.m[j][i]) } else { (-MAX, MAX) };
                let c = g.instant_cmp(i as u32, j as u32); check((c == Some(Less)) == (l > 0), "before"); check((c == Some(Greater)) == (u < 0), "after"); check((c == Some(Equal)) == ((l == 0) & (u == 0)), "simultaneous");
                check(g.are_distinct_instants(i as u32, j as u32) == ((l > 0) | (u < 0)), "distinct");
                if n > 0 && i < n && j < n { let k = ((i as u32, j as u32), span(l, u)); let q = ((j as u32, i as u32), span(-u, -l)); check(k.equiv(&q) & k.equiv(&k), "a constraint is equivalent to its reverse"); }
                j += 1; } i += 1; } }
    }
    cover("queried");
}
pub struct TimeGraphConstraintView(u32, u32, i64, i64);
fn view<K: TimeConstraint>(k: &K) -> TimeGraphConstraintView { TimeGraphConstraintView(k.from(), k.to(), k.lower_bound().as_ticks(), k.upper_bound().as_ticks()) }
