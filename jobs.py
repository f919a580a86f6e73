"""Which harness entry points decide which property, with which bounds."""
import itertools
def J(fn, params=(), tier="quick", slices=1, time=240, covers=(), **kw):
    return dict(fn=fn, params=list(params), tier=tier, slices=slices, time=time, covers=list(covers), **kw)
PROPS = {}

# ---------------------------------------------------------------- points
PROPS["C01"] = dict(bounds="operands: every 64-bit tick count from -oo to +oo (both infinities included); sums of up to 3 durations",
  jobs=[J("c01_arith", [k], covers=["opposite infinities", "saturated", "finite"]) for k in (0,1,2,3,4,5,10,11,12,13,14,15)]
      +[J("c01_sum3", covers=["sum"]), J("c01_unary", covers=["infinite","finite"])])
PROPS["C02"] = dict(bounds="every value of every integer type i8..i128, u8..u128, isize, usize, every unit",
  jobs=[J("c02_from", [u], covers=["finite"]) for u in range(11)]
      +[J("c02_int", [u,t], covers=["finite"] if t<12 else []) for u in range(11) for t in range(14)])
PROPS["C03"] = dict(bounds="every finite and infinite duration or date with each of the fixed periods 1,2,3,7,1000003,2^30,86400*2^30 ticks (when the multiple is representable); every duration or date within +-2^62 ticks with every period from 1 to 2^24 ticks; every unit",
  jobs=[J("c03_round", [w,p,0], covers=["positive multiple"]+(["negative non-multiple"] if p!=1 else [])) for w in range(4) for p in (1,2,3,7,1000003,1<<30,86400<<30)]
      +[J("c03_round", [w,-(1<<24),1<<62], covers=["negative non-multiple","positive multiple"]) for w in range(4)]
      +[J("c03_inf", covers=["inf"])]
      +[J("c03_unit", [u], covers=["infinite","negative","positive"]) for u in range(11)])

DAY = 86400; E33 = 1 << 33; TICK = 1 << 30
# calendar arithmetic forks per year of the 400-year cycle: dates are decided on windows of time, chosen where the arithmetic changes
DATEW = [(-DAY, DAY), (-3600 * 30, -3600 * 20), (951_782_400 - 600, 951_782_400 + 600), (978_307_200 - 60, 978_307_200 + 60), (-62_135_596_800 - 60, -62_135_596_800 + 60),
         (E33 - 60, E33 + 60), (-E33 - 60, -E33 + 60), (4_000_000_000_000, 4_000_000_000_060), (-4_000_000_000_060, -4_000_000_000_000)]
DATET = [(-3 * DAY * TICK, 3 * DAY * TICK), (951_782_400 * TICK - (1 << 40), 951_782_400 * TICK + (1 << 40)), (978_307_200 * TICK - (1 << 36), 978_307_200 * TICK + (1 << 36)),
         ((1 << 63) - 2 - (1 << 36), (1 << 63) - 2), (-(1 << 63) + 2, -(1 << 63) + 2 + (1 << 36))]
PROPS["C04"] = dict(bounds="durations: every value of the standard and chrono types, every finite tick count; dates: every nanosecond (tick) of the time windows listed in jobs.py: days around 1970, the leap day 2000, year ends, the year 1, both ends of the range of ticks and far beyond them (thorough: also months and years around 1970)",
  assumptions=["dates are decided on the listed windows of time, not on the whole calendar"],
  jobs=[J("c04_from_std", covers=["finite","infinite"]), J("c04_from_chrono", covers=["infinite","negative","positive"]), J("c04_parts", covers=["parts"]), J("c04_to_std", covers=["standard"])]
      +[J("c04_order", [k], covers=["order"]) for k in (0,1,2)] + [J("c04_to_chrono", [k], covers=["chrono"]) for k in (0,1)]
      +[J("c04_from_date", [k,*w], covers=["date"], cost=5) for w in DATEW for k in (0,1,2)]
      +[J("c04_to_date", [k,*w], covers=["date"], cost=5) for w in DATET for k in (0,1)]
      +[J("c04_from_date", [k,a,b], covers=["date"], cost=9, tier="thorough") for k in (0,1) for a,b in ((-400*DAY,400*DAY),(951_782_400-100*DAY,951_782_400+100*DAY))]
      +[J("c04_to_date", [k,-400*DAY*TICK,400*DAY*TICK], covers=["date"], cost=9, tier="thorough") for k in (0,1)])

# ---------------------------------------------------------------- windows as sets of points
WB = "interval and set bounds: every 64-bit tick, infinite outer bounds included"
WN = WB + " (the first and the last finite tick excluded)"
SETOPS = (0,1,2,3,4,5,6,7,8); UNION_SS = SETOPS + (9,); CONVOPS = (20,21,22,23,24,25,26,27); PTOPS = (60,61,66)
def binops(fn, tys, ss, si, ii, sp, ip, big, pre=()):
    """jobs for the binary operations: sizes of the operands up to `big` for set x set"""
    out = []
    for t in tys:
        def add(op, m, n, **kw): out.append(J(fn, [t, *pre, op, m, n], **kw))
        for op in ss:
            for m in range(0, big + 1):
                for n in range(0, big + 1):
                    if op == ss[0] or op == 6 or (m == n == 2) or (m + n <= 1): add(op, m, n, cost=m + n)
            add(op, big + 1, big + 1, tier="thorough", cost=9)
        for op in si:
            for m in range(0, big + 1):
                for n in (0, 1):
                    if op in (20, 23) or m == 2 or m == 0: add(op, m, n, cost=m + n)
        for op in ii:
            for m in (0, 1):
                for n in (0, 1): add(op, m, n)
        for op in sp:
            for m in range(0, big + 1): add(op, m, 1)
        for op in ip:
            for m in (0, 1):
                if op != 64 or m == 1: add(op, m, 1)
    return out
PROPS["C07"] = dict(bounds=WB + "; sets of up to 3 pieces (thorough: 4), collections of up to 3 windows (thorough: 4)",
  jobs=binops("c07_union", (0,1), UNION_SS, CONVOPS, (40,41,42), PTOPS, (62,63,64), 3)
      +[J("c07_collect", [t,k,kind,0], covers=["all empty"], cost=k) for t in (0,1) for k in (0,1,2,3) for kind in (0,1)]
      +[J("c07_collect", [t,4,kind,0], tier="thorough", cost=9) for t in (0,1) for kind in (0,1)])
PROPS["C08"] = dict(bounds=WB + "; sets of up to 3 pieces (thorough: 4)",
  jobs=binops("c08_inter", (0,1), SETOPS, CONVOPS, (40,41,42,43), PTOPS, (62,63,64,65), 3))
PROPS["C09"] = dict(bounds=WB + "; sets of up to 4 pieces complemented (complemented twice: the first and last finite ticks excluded), of up to 3 pieces excluded (thorough: 6 and 4)",
  jobs=[J("c09_compl", [t,op,m,0], cost=m) for t in (0,1) for op in (0,3,5) for m in range(5)]
      +[J("c09_compl", [t,op,m,0], cost=m, tier="thorough") for t in (0,1) for op in (0,3,5) for m in (5,6)]
      +[J("c09_compl", [t,op,m,0]) for t in (0,1) for op in (1,4) for m in (0,1)] + [J("c09_compl", [t,2,1,0]) for t in (0,1)]
      +[J("c09_compl", [t,20,m,n], cost=m+n) for t in (0,1) for m in range(4) for n in range(4)]
      +[J("c09_compl", [t,23,m,n], cost=m+n) for t in (0,1) for m in range(3) for n in range(3)]
      +[J("c09_compl", [t,20,4,4], cost=9, tier="thorough") for t in (0,1)]
      +[J("c09_compl", [t,21,m,n], cost=m+n) for t in (0,1) for m in range(4) for n in (0,1)]
      +[J("c09_compl", [t,22,m,n], cost=m+n) for t in (0,1) for m in (0,1) for n in range(4)]
      +[J("c09_twice", [t,m], covers=["twice"]) for t in (0,1) for m in range(5)])
PROPS["C13"] = dict(bounds=WB + "; truncation bound: every tick except the first and the last finite ones, and the infinities; sets of up to 4 pieces (thorough: 7)",
  jobs=[J("c13_trunc", [t,k,m], covers=["nothing removed"]) for t in (0,1) for k in (0,1) for m in (0,1)]
      +[J("c13_trunc", [t,k,m], covers=["nothing removed"], cost=m) for t in (0,1) for k in (2,3) for m in range(5)]
      +[J("c13_trunc", [t,k,m], tier="thorough", cost=m) for t in (0,1) for k in (2,3) for m in (5,6,7)])
C12 = dict(jobs=[])
PROPS["C10"] = dict(bounds=WB + " (translations: within +-2^60); up to 3 pieces per operand for one operation, up to 2 for compositions of two (thorough: 4 and 3); shifts within +-2^60",
  jobs=[J("c10_iter", [t,k,m,n,0], cost=m+n) for t in (0,1) for k in (0,1,3) for m in range(4) for n in range(4)]
      +[J("c10_iter", [t,k,4,4,0], cost=9, tier="thorough") for t in (0,1) for k in (0,1,3)]
      +[J("c10_iter", [t,k,m,0,0]) for t in (0,1) for k in (2,4,5,13) for m in range(5)]
      +[J("c10_iter", [t,k,m,0,0]) for t in (0,1) for k in (6,7) for m in (0,1)]
      +[J("c10_iter", [t,k,m,n,0], cost=m+n) for t in (0,1) for k in (11,12,18) for m in range(3) for n in range(3)]
      +[J("c10_iter", [t,k,m,n,o], cost=m+n+o) for t in (0,1) for k in (10,14,15,16,17) for m in range(3) for n in range(3) for o in range(3) if m + n + o <= (4 if t == 0 else 3)]
      +[J("c10_iter", [t,k,2,2,2], cost=8, tier="thorough", time=600) for t in (0,1) for k in (10,14,15,16,17)]
      +[J("c10_iter", [t,k,3,3,2], cost=9, tier="thorough") for t in (0,1) for k in (10,14,15,16,17)]
      +[J("c10_iter", [t,20,m,0,0]) for t in (0,1) for m in range(4)]
      +[J("c10_iter", [t,21,m,n,0], cost=m+n) for t in (0,1) for m in range(4) for n in (0,1)])
PROPS["C11"] = dict(bounds=WN + "; sets of up to 3 pieces (thorough: 5)",
  jobs=[J("c11_rel", [t,0,m,n], cost=m+n) for t in (0,1) for m in range(4) for n in range(4)]
      +[J("c11_rel", [t,0,5,5], cost=9, tier="thorough") for t in (0,1)]
      +[J("c11_rel", [t,k,m,n], cost=m+n) for t in (0,1) for k in (1,3) for m in range(5) for n in (0,1)]
      +[J("c11_rel", [t,k,m,n], cost=m+n) for t in (0,1) for k in (10,30) for m in (0,1) for n in range(5)]
      +[J("c11_rel", [t,2,m,1], cost=m) for t in (0,1) for m in range(5)] + [J("c11_rel", [t,20,1,m], cost=m) for t in (0,1) for m in range(5)]
      +[J("c11_rel", [t,k,m,n]) for t in (0,1) for k in (11,13,31) for m in (0,1) for n in (0,1)]
      +[J("c11_rel", [t,k,1,m]) for t in (0,1) for k in (21,22) for m in (0,1)] + [J("c11_rel", [t,12,m,1]) for t in (0,1) for m in (0,1)])
PROPS["C12"] = dict(bounds=WN + "; sets of up to 3 pieces (thorough: 5)",
  jobs=[J("c12_rel", [t,0,m,n], cost=m+n) for t in (0,1) for m in range(4) for n in range(4)]
      +[J("c12_rel", [t,0,5,5], cost=9, tier="thorough") for t in (0,1)]
      +[J("c12_rel", [t,k,m,n], cost=m+n) for t in (0,1) for k in (1,3) for m in range(4) for n in (0,1)]
      +[J("c12_rel", [t,10,m,n], cost=m+n) for t in (0,1) for m in (0,1) for n in range(4)]
      +[J("c12_rel", [t,2,m,1]) for t in (0,1) for m in range(4)] + [J("c12_rel", [t,12,m,1]) for t in (0,1) for m in (0,1)]
      +[J("c12_rel", [t,k,m,n]) for t in (0,1) for k in (11,13) for m in (0,1) for n in (0,1)]
      +[J("c12_hash", [t], covers=["empty","not empty"]) for t in (0,1)])
PROPS["C05"] = dict(bounds=WB + "; sets of up to 5 pieces; widths: every duration, infinite ones included (enlarging: finite ones)",
  jobs=[J("c05_build", [t,k], covers=["empty","not empty"] if k in (0,1,2,3,7,8,9,10,11,13,14,16) else []) for t in (0,1) for k in range(18)]
      +[J("c05_set", [t,k], covers=["set"]) for t in (0,1) for k in range(6)]
      +[J("c05_centre", [t,0,0], covers=["refused","centred"]) for t in (0,1)]
      +[J("c05_centre", [t,1,m], covers=["refused"]+(["enlarged"] if m else [])) for t in (0,1) for m in (0,1)]
      +[J("c05_duration", [m], covers=["duration"]) for m in (0,1)])
del C12
PROPS["C14"] = dict(bounds=WB + "; shifts by every finite duration; sets of up to 3 pieces shifted by intervals, up to 3 pieces in all for sums of two sets, 2x2 with finite bounds within +-2^60 (thorough: 4 pieces, and 2x2 with any bounds)",
  assumptions=["a piece translated entirely out of the range of ticks may be refused (documented overflow assertion), it must then disappear"],
  jobs=[J("c14_transl", [t,op,m,1,0]) for t in (0,1) for op in (0,1,2,3,4,12) for m in (0,1)]
      +[J("c14_transl", [t,op,m,1,0], cost=m) for t in (0,1) for op in (6,7,8,9,10) for m in range(5)]
      +[J("c14_transl", [t,op,m,n,0]) for t in (0,1) for op in (20,21,22,23,30) for m in (0,1) for n in (0,1)]
      +[J("c14_transl", [t,op,m,n,0], cost=m) for t in (0,1) for op in (24,25,26,27,28) for m in range(4) for n in (0,1)]
      +[J("c14_transl", [t,op,4,1,0], cost=5, tier="thorough") for t in (0,1) for op in (24,25,28)]
      +[J("c14_transl", [t,op,m,n,0], cost=m+n) for t in (0,1) for op in (40,41,42,43) for m in range(3) for n in range(3) if m + n < 4]
      +[J("c14_transl", [t,op,2,2,1<<60], cost=9, slices=2, tier="quick" if op < 42 - 2 * t and op == 40 else "thorough") for t in (0,1) for op in (40,41,42,43)]
      +[J("c14_transl", [t,40,2,2,0], cost=9, slices=8, time=600, tier="thorough") for t in (0,1)]
      +[J("c14_transl", [t,op,m,n,0], cost=9, tier="thorough") for t in (0,1) for op in (40,41) for m,n in ((3,1),(1,3))]
      +[J("c14_dates", [op,m]) for op in (0,1,2,3,4,5,12,13,18) for m in (0,1)] + [J("c14_dates", [op,m]) for op in (14,15,16,20) for m in range(4)]
      +[J("c14_dates", [30,m,n]) for m in (0,1) for n in (0,1)]
      +[J("c14_back", [t,k,m], covers=["back"]) for t in (0,1) for k in (0,2) for m in range(4)] + [J("c14_back", [t,1,m], covers=["back"]) for t in (0,1) for m in (0,1)])
INTS = range(12); BIGS = range(12, 20)
PROPS["C15"] = dict(bounds="durations, interval and set bounds: every tick, infinities included; factors and divisors: every value of i8..i64, u8..u64, isize, usize, every i128 and u128 up to 2^64 in magnitude and their extreme values; sets of up to 2 pieces (thorough: 3)",
  assumptions=["the product of a window one of whose bounds leaves the range of ticks may be refused (documented overflow assertion)"],
  jobs=[J("c15_val", [t,0,0,op,0], covers=["finite","infinite"] if op >= 3 else ["infinite"]) for t in range(20) for op in range(5)]
      +[J("c15_win", [t,0,0,op,1,0,0]) for t in range(20) for op in (0,1,2,4,5)]
      +[J("c15_win", [t,0,0,op,0,k,0]) for t in range(20) for k in (0,1) for op in (0,1,2,4,5)] + [J("c15_win", [t,0,0,3,0,1,0]) for t in range(20)]
      +[J("c15_win", [t,0,0,op,m,1,0], cost=5) for m in (1,2) for t in (0,3,6,7,10,11,14,15,16,17) for op in (0,3,4) if m == 1 or t not in (0,3)]
      +[J("c15_win", [t,0,0,op,2,1,0], cost=5) for t in (6,7) for op in (1,2,5)]
      +[J("c15_win", [t,0,0,op,m,1,0], cost=m, tier="thorough") for m in (1,2) for t in range(20) for op in (0,1,2,3,4,5)]
      +[J("c15_win", [t,0,0,op,3,1,0], cost=9, tier="thorough") for t in (0,5,6,7,11,12) for op in (0,3,4)])
PROPS["C06"] = dict(bounds=WB + "; one operation of each kind on any canonical operands (so any sequence, by induction), up to 3 pieces per operand for union, intersection and exclusion, 4 for the others, 3 pieces in all for sums of two sets (2x2 with finite bounds within +-2^60), 2 for integer scalings; every pair of operations out of 11 within +-2^60",
  assumptions=["pieces pushed out of the range of ticks may be refused (documented overflow assertion)"],
  jobs=[J("c06_step", [t,0,op,m,n], covers=["done"], cost=m+n) for t in (0,1) for op in (0,3,4) for m in range(4) for n in range(4)]
      +[J("c06_step", [t,0,op,m,n], covers=["done"], cost=m+n) for t in (0,1) for op in (20,22) for m in range(4) for n in (0,1)]
      +[J("c06_step", [t,0,op,m,n], covers=["done"]) for t in (0,1) for op in (40,41) for m in (0,1) for n in (0,1)]
      +[J("c06_step", [t,0,op,m,1], covers=["done"]) for t in (0,1) for op in (60,61) for m in range(4)] + [J("c06_step", [t,0,62,m,1], covers=["done"]) for t in (0,1) for m in (0,1)] + [J("c06_step", [t,0,64,1,1], covers=["done"]) for t in (0,1)]
      +[J("c06_step", [t,1,op,m,n], covers=["done"], cost=m+n) for t in (0,1) for op in (0,3,4) for m in range(4) for n in range(4)]
      +[J("c06_step", [t,1,op,m,n], covers=["done"], cost=m+n) for t in (0,1) for op in (20,22) for m in range(4) for n in (0,1)]
      +[J("c06_step", [t,1,op,m,1], covers=["done"]) for t in (0,1) for op in (60,61) for m in range(4)]
      +[J("c06_step", [t,2,op,m,0], covers=["done"]) for t in (0,1) for op in (0,5) for m in range(5)] + [J("c06_step", [t,2,1,m,0], covers=["done"]) for t in (0,1) for m in (0,1)] + [J("c06_step", [t,2,2,1,0], covers=["done"]) for t in (0,1)]
      +[J("c06_step", [t,2,23,m,n], covers=["done"], cost=m+n) for t in (0,1) for m in range(3) for n in range(3)]
      +[J("c06_step", [t,3,op,m,0], covers=["done"]) for t in (0,1) for op in (0,1) for m in range(5)] + [J("c06_step", [t,4,0,m,0], covers=["done"]) for t in (0,1) for m in range(5)]
      +[J("c07_collect", [t,k,kind,1], cost=k) for t in (0,1) for k in (1,2,3) for kind in (0,1)]
      +[J("c06_transl", [t,op,m,1,0], cost=m) for t in (0,1) for op in (6,7,8,9) for m in range(5)]
      +[J("c06_transl", [t,op,m,n,0], cost=m) for t in (0,1) for op in (24,25,26,27) for m in range(4) for n in (0,1)]
      +[J("c06_transl", [t,op,m,n,0], cost=m+n) for t in (0,1) for op in (40,41,42) for m in range(3) for n in range(3) if m + n < 4]
      +[J("c06_transl", [0,40,2,2,1<<60], cost=9, slices=2)]
      +[J("c06_scale", [t,0,0,op,m], covers=["done"], cost=5) for m in (0,1,2) for t in (6,7) for op in (0,1,2,4,5)]
      +[J("c06_scale", [t,0,0,op,3], covers=["done"], cost=9, tier="thorough") for t in (6,7) for op in (0,4)]
      +[J("c06_seq", [0,a,b,2,1], covers=["done"], cost=4) for a in range(11) for b in range(11)]
      +[J("c06_seq", [t,a,b,m,n], covers=["done"], cost=6, tier="thorough") for t in (0,1) for a in range(11) for b in range(11) for m,n in ((2,2),(3,1))]
      +[J("c06_step", [t,f,0,4,4], covers=["done"], cost=9, tier="thorough") for t in (0,1) for f in (0,1)])

# ---------------------------------------------------------------- constraint graphs
GB = "networks: every minimal network over the stated number of instants (each side unbounded or any number of ticks within +-2^59 ticks, about 17 years), so every history by induction; "
def inserts(prop):
    out = []
    for n in (0, 1, 2, 3):
        for i in range(n + 1):
            for j in range(n + 1):
                for kind in (0, 1, 2, 3, 4, 5):
                    if n == 3 and kind not in (0, 1, 2) and (i, j) not in ((0, 2), (2, 1), (3, 1)): continue
                    if n == 3 and i == j and kind != 0: continue
                    if n == 3 and kind in (1, 2) and prop == 20: continue
                    out.append(J("g_insert", [prop, n, i, j, kind, (i + j + n + kind) % 2, 0], cost=n, slices=1))
    out += [J("g_insert", [prop, n, i, j, kind, 0, 0]) for n in (0, 1, 2) for i, j in ((n, n + 1), (n + 2, n), (n + 1, n + 1), (0, n + 2)) for kind in (0, 3)]
    out += [J("g_insert", [prop, 4, i, j, 0, 0, 1], cost=6) for i, j in ((1, 4), (4, 0))]
    out += [J("g_insert", [prop, 4, i, j, kind, 0, 1], cost=6, slices=4, tier="thorough") for i in range(5) for j in range(5) for kind in (0, 1) if i != j]
    out += [J("g_insert", [prop, 4, i, j, 0, 0, 0], cost=9, slices=4, tier="thorough") for i, j in ((0, 3), (2, 1), (3, 0), (1, 4))]
    return out
def C(i, j, kind=0): return i + 10 * j + 100 * kind
HIST = [(C(0,1), C(1,2), C(0,2)), (C(2,1), C(1,0,1), C(0,2,2)), (C(1,0), C(1,2), C(2,0)), (C(0,2), C(2,1), C(1,0)), (C(0,0), C(1,1), C(0,1)), (C(3,1), C(1,0), C(0,3)), (C(1,2), C(1,2), C(2,1))]
HIST4 = [(C(0,1), C(1,2), C(2,3), C(3,0)), (C(3,2), C(1,0), C(0,2), C(1,3)), (C(0,1), C(2,3), C(1,2), C(0,3))]
# one-sided constraints over 4 and 5 instants: cycles entered in different orders, through stars and chains
HIST1 = [(C(0,4,1), C(3,1,1), C(1,2,1), C(0,3)), (C(0,1,1), C(1,2,1), C(2,3,1), C(3,0,1)), (C(0,1,1), C(2,3,1), C(1,2,1), C(3,0,2)), (C(3,0,1), C(1,2,1), C(0,1,1), C(2,3,1)), (C(2,0,2), C(0,3,1), C(3,1,1), C(1,2,2)),
         (C(1,4,1), C(0,2,1), C(4,0,1), C(2,3,1), C(3,1,1)), (C(4,3,1), C(3,2,1), C(2,1,1), C(1,0,1), C(4,0,2)), (C(0,1,1), C(0,2,1), C(0,3,1), C(1,4,1), C(2,4,1), C(3,4,1)), (C(4,1,2), C(4,2,2), C(1,0,1), C(2,0,1), C(3,4,1), C(0,3,2)),
         (C(0,1,1), C(2,3,1), C(4,5,1), C(1,2,1), C(3,4,1), C(5,0,1)), (C(5,0,2), C(3,2,1), C(1,4,2), C(2,1,1), C(5,3,1), C(4,0,1))]
def hists(prop): return [J("g_history", [prop, len(h), *h], cost=5) for h in HIST1] + [J("g_history", [prop, len(h), *h], cost=5) for h in HIST] + [J("g_history", [prop, len(h), *h], cost=9, tier="thorough") for h in HIST4]
PROPS["C17"] = dict(bounds=GB + "up to 3 instants plus 1 or 2 created ones, 4 instants when every side is bounded (thorough: 4 instants); one constraint of every kind between every pair; histories of 3 constraints from nothing (thorough: 4)",
  assumptions=["sums of bounds stay within the range of ticks"], jobs=inserts(17) + hists(17))
PROPS["C18"] = dict(bounds=PROPS["C17"]["bounds"], assumptions=PROPS["C17"]["assumptions"], jobs=inserts(18) + hists(18))
PROPS["C20"] = dict(bounds=PROPS["C17"]["bounds"] + "; merges of networks of 3 and 2 instants (thorough: 3 and 3)", assumptions=PROPS["C17"]["assumptions"],
  jobs=inserts(20) + hists(20) + [J("g_merge", [20, a, b], cost=a+b) for a in range(4) for b in range(4) if a + b < 6] + [J("g_merge", [20, 3, 3], cost=9, slices=4, tier="thorough")])
PROPS["C19"] = dict(bounds=GB + "up to 3 constraints at once on networks of up to 2 instants, of any kind, empty ones and constraints of an instant with itself included; 2 one-sided constraints on networks of 3; chains and cycles of 3 to 5 one-sided constraints over 4 and 5 instants entered in every order (5: some orders); merges of networks of 3 and 2 instants (thorough: 3 and 3)", assumptions=PROPS["C17"]["assumptions"],
  jobs=[J("g_bulk", [m,n,k,*cs], cost=k+n) for m in (0,1) for n,k,cs in
        [(0,0,()), (2,0,()), (0,1,(C(0,1),)), (2,1,(C(1,0),)), (2,1,(C(1,2),)), (2,1,(C(0,1,4),)), (0,2,(C(0,1),C(1,0))), (0,2,(C(0,1),C(1,1))), (0,2,(C(0,1,4),C(1,2))), (0,2,(C(1,2),C(0,1,4))),
         (2,2,(C(0,1),C(1,0))), (2,2,(C(0,2),C(2,1))), (2,2,(C(1,2,1),C(2,0,1))), (2,2,(C(0,2,2),C(2,1,2))), (0,3,(C(0,1),C(1,2),C(2,0))), (0,3,(C(2,1),C(0,1),C(0,2))), (0,3,(C(0,3),C(3,1),C(1,0,1)))]]
      +[J("g_bulk", [m,0,k,*cs], cost=k) for m in (2,3) for k,cs in [(0,()), (1,(C(0,1),)), (2,(C(0,1),C(1,0))), (3,(C(0,1),C(1,2),C(2,0))), (2,(C(0,1,4),C(1,2)))]]
      # chains through the instants in every order, cycles in every order, triangles in every orientation, constraints of an instant with itself
      +[J("g_bulk", [m,0,3,C(p[0],p[1],k),C(p[1],p[2],k),C(p[2],p[3],k)], cost=4) for p in itertools.permutations(range(4)) for k in (1,2) for m in (0,1) if m == 0 or p[0] < p[3]]
      +[J("g_bulk", [0,0,4,C(0,p[0],k),C(p[0],p[1],k),C(p[1],p[2],k),C(p[2],0,k)], cost=5) for p in itertools.permutations((1,2,3)) for k in (1,2)]
      +[J("g_bulk", [0,0,4,C(p[0],p[1],1),C(p[1],p[2],1),C(p[2],p[3],1),C(p[3],p[4],1)], cost=5) for p in ((0,3,1,4,2),(4,2,0,3,1),(2,4,3,0,1),(1,4,0,3,2),(3,4,2,1,0),(0,2,4,3,1))]
      +[J("g_bulk", [0,0,5,C(0,p[0],1),C(p[0],p[1],1),C(p[1],p[2],1),C(p[2],p[3],1),C(p[3],0,1)], cost=6) for p in ((3,1,4,2),(2,4,1,3),(1,2,3,4),(4,3,2,1),(2,4,3,1))]
      +[J("g_bulk", [0,0,3,*(C(a,b) if f else C(b,a) for f,(a,b) in zip(fs,((0,1),(1,2),(0,2))))], cost=4) for fs in itertools.product((0,1),repeat=3)]
      +[J("g_bulk", [m,0,3,C(*p[0],1),C(*p[1],1),C(*p[2],1)], cost=4) for m in (0,1) for p in (((0,1),(1,2),(2,0)),((0,2),(2,1),(1,0)),((1,0),(2,1),(0,2)))]
      +[J("g_bulk", [m,0,k,*cs], cost=3) for m in (0,1) for k,cs in [(2,(C(0,0),C(0,1))),(2,(C(0,1),C(0,0))),(2,(C(0,1,1),C(1,1,1))),(2,(C(0,1,1),C(0,0,2))),(2,(C(2,2),C(0,1,1))),(3,(C(0,1,1),C(2,2,2),C(1,2,1))),(2,(C(0,0,5),C(1,1,5))),(1,(C(1,1),)),(1,(C(0,0,1),))]]
      +[J("g_bulk", [0,n,2,*cs], cost=5) for n,cs in [(1,(C(0,0,1),C(0,1,1))),(2,(C(0,0,1),C(0,1,1))),(2,(C(1,1,2),C(0,1,2))),(2,(C(0,3,1),C(3,1,1))),(2,(C(2,0,1),C(1,3,1))),(3,(C(0,2,1),C(1,3,1))),(3,(C(2,2,1),C(0,1,2))),(3,(C(3,0,1),C(2,3,2)))]]
      +[J("g_bulk", [m,n,k,*cs], cost=3) for m in (4,5) for n,k,cs in [(0,1,(C(0,1),)),(0,2,(C(0,1),C(1,2))),(0,2,(C(0,1),C(1,0))),(2,2,(C(0,1,1),C(1,0,2))),(0,3,(C(0,1,1),C(1,2,1),C(0,0,3)))]]
      +[J("g_merge", [19, a, b], cost=a+b) for a in range(4) for b in range(4) if a + b < 6]
      +[J("g_copy", [m,n,s], covers=["copied"], cost=n) for m in range(6) for n in range(4) for s in ((0,2,4) if m == 2 else (0,))] + [J("g_copy", [6,a,b], cost=a+b) for a in range(4) for b in range(4) if a + b < 6] + [J("g_copy", [m,4,0], cost=9, tier="thorough") for m in range(6)]
      +[J("g_merge", [19, 3, 3], cost=9, slices=4, tier="thorough")]
      +[J("g_bulk", [m,3,2,*cs], cost=9, tier="thorough") for m in (0,1) for cs in [(C(0,1),C(1,2)), (C(2,0),C(2,1)), (C(0,3),C(3,1))]]
      +[J("g_bulk", [0,2,3,*cs], cost=9, tier="thorough") for cs in [(C(0,1),C(1,2),C(2,0)), (C(0,2),C(1,2),C(0,3))]]
      +[J("g_bulk", [0,0,4,*cs], cost=9, tier="thorough") for cs in HIST4])
PROPS["C16"] = dict(bounds=GB + "up to 3 instants (thorough: 4), resized to any number from 0 to 5", assumptions=PROPS["C17"]["assumptions"],
  jobs=[J("g_resize", [op,n,s], covers=["resized"], cost=n) for op in (0,1) for n in range(4) for s in range(6 if n < 3 else 5)]
      +[J("g_resize", [op,n,0], covers=["resized"], cost=n) for op in (2,3,5,7) for n in range(4)] + [J("g_resize", [4,n,s], covers=["resized"], cost=n) for n in range(4) for s in (n, n + 1)]
      +[J("g_resize", [6,n,s], covers=["resized"], cost=n) for n in range(4) for s in (2, 4)]
      +[J("g_resize", [op,4,s], covers=["resized"], cost=9, slices=4, tier="thorough") for op in (0,4,6) for s in (3,5)])
PROPS["C21"] = dict(bounds=GB + "up to 3 instants (thorough: 4), every pair of instants including one outside the graph", assumptions=PROPS["C17"]["assumptions"],
  jobs=[J("g_query", [op,n], covers=["queried"], cost=n) for op in range(5) for n in range(4)] + [J("g_query", [5,n], covers=["queried"]) for n in (1,2,3)] + [J("g_query", [op,4], covers=["queried"], cost=9, slices=4, tier="thorough" if op == 4 else "quick") for op in range(5)])

# ---------------------------------------------------------------- schedulers
SB = "dates and durations within +-2^59 ticks (about 17 years); "
PROPS["C22"] = dict(bounds=SB + "one interval of any kind on any instant from every state reached with intervals over every graph of up to 2 instants (thorough: 3); sequences of 2 or 3 intervals from a new scheduler over every precedence graph of 3 and 4 instants, 2 over every graph of 3; sequences of 2 or 3 restrictions by (removals of) sets of up to 2 pieces over every bounded graph of 2 instants and precedence graph of 3 instants",
  assumptions=["sums of dates and durations stay within the range of ticks"],
  jobs=[J("s_retain", [n,i,k,how,0], covers=["accepted","refused"] if k in (0,1,2,5) else [], cost=n) for n in (1,2) for i in range(n) for k in range(6) for how in (0,1,2,3) if not (how == 3 and k > 2) and not (how == 1 and k == 3)]
      +[J("s_retain", [3,i,k,0,1], cost=9, slices=8, time=900, tier="thorough") for i in range(3) for k in (0,1)]
      +[J("s_hist", [23,2,a,b], cost=2) for a,b in ((0,1),(1,0),(1,2),(2,1),(0,2),(2,0),(10,21),(12,20),(11,21),(22,11),(50,1),(40,1))]
      +[J("s_hist", [23,3,a,b,c], cost=3) for a,b,c in ((10,11,12),(0,11,2),(2,1,0),(22,21,20),(1,20,12),(0,10,20))]
      +[J("s_hist", [24,2,a,b], cost=3) for a,b in ((10,23),(3,0),(1,2),(12,21))] + [J("s_hist", [24,3,10,21,2], cost=3)]
      +[J("s_hist", [3,2,a,b], cost=5) for a,b in ((10,21),(22,10),(11,12))] + [J("s_hist", [13,2,a,b], cost=5) for a,b in ((0,1),(2,1))]
      +[J("s_sets", [22,2,a,b], covers=["complying"], cost=3) for a,b in ((20,21),(21,20),(20,121),(20,120),(21,21),(120,11),(120,121))]
      +[J("s_sets", [12,1,a], covers=["complying"], cost=3) for a in (20,21,30,120,121)] + [J("s_sets", [12,2,a,b], covers=["complying"], cost=5) for a,b in ((10,21),(20,11),(11,120))]
      +[J("s_sets", [23,2,a,b], covers=["complying"], cost=5, slices=2) for a,b in ((20,11),(21,12),(20,111))]
      +[J("s_sets", [23,2,20,21], cost=9, slices=8, tier="thorough")] + [J("s_sets", [23,3,a,b,c], cost=9, slices=8, tier="thorough") for a,b,c in ((20,11,12),(10,21,12))]
      +[J("s_sets", [13,2,20,11], cost=9, slices=8, tier="thorough"), J("s_sets", [12,2,20,21], cost=9, slices=8, tier="thorough"), J("s_sets", [12,2,20,121], cost=9, slices=8, tier="thorough")])
PROPS["C23"] = dict(bounds=SB + "deadline or start line from every state reached with intervals over every graph of up to 2 instants (thorough: 3), mixed with intervals from a new scheduler over graphs of 3 instants, after restrictions by sets of up to 2 pieces over bounded graphs of 2 instants and precedence graphs of 3; removals of sets of up to 2 pieces", assumptions=PROPS["C22"]["assumptions"],
  jobs=[J("s_lines", [n,w,0], covers=["accepted","refused","unchanged"], cost=n) for n in (1,2) for w in (0,1)] + [J("s_lines", [3,w,1], cost=9, slices=8, time=900, tier="thorough") for w in (0,1)]
      +[J("s_hist", [23,k,*q], cost=3) for k,q in ((2,(60,70)),(2,(70,60)),(3,(0,60,70)),(3,(60,0,71)),(3,(1,70,2)),(3,(12,21,60)))] + [J("s_hist", [3,1,k], cost=3) for k in (60,70)] + [J("s_hist", [3,2,10,60], cost=6), J("s_hist", [13,2,21,70], cost=6)] + [J("s_hist", [4,1,k], cost=9, slices=8, tier="thorough") for k in (60,70)]
      +[J("s_lines_sets", [23,w,1,a], covers=["accepted","refused"], cost=5) for w in (0,1) for a in (20,21,22)] + [J("s_lines_sets", [12,w,1,a], covers=["accepted","refused"], cost=5) for w in (0,1) for a in (20,21)] + [J("s_lines_sets", [22,w,2,20,21], covers=["accepted","refused"], cost=5, slices=2) for w in (0,1)]
      +[J("s_lines_sets", [23,w,2,20,11], cost=9, slices=8, tier="thorough") for w in (0,1)] + [J("s_lines_sets", [13,w,1,20], cost=9, slices=8, tier="thorough") for w in (0,1)]
      +[J("s_remove", [12,1,1,k], covers=["accepted"]) for k in (1,2)] + [J("s_remove", [22,1,2,k], covers=["accepted"]) for k in (1,2)] + [J("s_remove", [c,p,q,0], covers=["accepted","refused"], cost=4) for c,p,q in ((22,2,1),(12,2,1),(23,1,1),(23,2,1),(22,1,2))]
      +[J("s_bounds", [n,p,b], covers=["bounds"], cost=n+p) for n,p,b in ((1,0,0),(1,2,0),(2,0,0),(2,2,1),(3,0,1))] + [J("s_bounds", [3,0,0], covers=["bounds"], cost=9, tier="thorough")])
# ---------------------------------------------------------------- periodic sequences
PROPS["C24"] = dict(bounds="every finite date and every finite period such that the date one period before the first one is finite too; the first 4 dates, then everything by jumps of any number of dates; jumps and lengths after 0, 1 and 2 dates",
  assumptions=["a sequence starting less than one period away from the infinity it comes from is refused"],
  jobs=[J("q_steps", [k,p,n], covers=["not ended"] if p < 1 << 62 else [], cost=5 if p == 0 else 1) for k in range(4) for p,n in ((0,2),(1,4),(7,4),(86400<<30,4),(1<<61,4),((1<<62)+1,4))]
      +[J("q_length", [k,p,b], covers=["not ended"], cost=5 if p == 0 else 1) for k in range(4) for p in ((0,1,7,86400<<30,1<<61) if k < 2 else (1,7,86400<<30,1<<61)) for b in (0,1,2)]
      +[J("q_nth", [k,p,b], covers=["reached","beyond"], cost=5 if p == 0 else 1) for k in range(4) for p in ((0,1,7,86400<<30,1<<61) if k < 2 else (1,7,86400<<30,1<<61)) for b in (0,1)]
      +[J("q_length", [k,0,0], cost=9, tier="thorough") for k in (2,3)] + [J("q_nth", [k,0,b], cost=9, tier="thorough") for k in (2,3) for b in (0,1)])
# ---------------------------------------------------------------- texts
PROPS["C25"] = dict(bounds="Debug: every tick count, sets of up to 3 pieces (every tick); durations in units: every value of one to three consecutive units (years to seconds) with the others at 0 or 1, every fraction of a second alone and with one of each unit, the opposite values, dates before 1970 likewise; windows of durations: bounds at whole hours within 15, up to 3 pieces, and within 15 ticks, up to 2; dates from 1970 on: windows of 1 ms of time, intervals at whole seconds (thorough: sets of 1 piece)",
  assumptions=["the digits of an integer are written by the standard library (trusted: the check decides which number is written where)", "calendar dates are those of chrono"],
  jobs=[J("c25_point", [k,0,0], covers=["infinite"]) for k in (0,1,2)] + [J("c25_point", [3,0,1<<20], covers=["positive"], cost=6), J("c25_point", [4,0,3<<30], covers=["positive"])]
      +[J("c25_units", [k,0,0,m,x], cost=3) for k,x in ((0,0),(1,1)) for m in (3,6,12,24,48)] + [J("c25_units", [k,0,0,m,0], cost=3) for k in (2,3,4) for m in (6,48)]
      +[J("c25_units", [0,0,0,m,x], cost=4) for m,x in ((56,0),(28,1),(14,0),(60,0))] + [J("c25_units", [0,1,0,2,0]), J("c25_units", [0,0,-1,0,0], covers=["less than a second","zero"]), J("c25_units", [1,0,-1,0,0], covers=["less than a second"]), J("c25_units", [2,0,-1,0,0]), J("c25_units", [2,0,-1,0,1], cost=6)]
      +[J("c25_window", [t,0,m,0], covers=["rendered"]) for t in (0,1) for m in range(4)] + [J("c25_window", [t,0,m,1], covers=["rendered"]) for t in (0,1) for m in (0,1)]
      +[J("c25_window", [0,h,m,0], covers=["rendered"], cost=m) for h in (1,2) for m in range(4)] + [J("c25_window", [0,h,m,1], covers=["rendered"]) for h in (1,2) for m in (0,1)]
      +[J("c25_window", [0,h,m,0], covers=["rendered"], cost=m) for h in (11,12) for m in (1,2)] + [J("c25_window", [0,h,1,1], covers=["rendered"]) for h in (11,12)]
      +[J("c25_window", [1,h,m,1], covers=["rendered"], cost=6*m) for h in (1,2) for m in (0,1)] + [J("c25_window", [1,h,0,0], covers=["rendered"]) for h in (1,2)]
      +[J("c25_window", [1,h,1,0], covers=["rendered"], cost=9, tier="thorough") for h in (1,2)]
      +[J("c25_point", [3,951782400<<30,951782401<<30], cost=9, tier="thorough")]
      +[J("c25_units", [0,0,0,m,0], cost=9, tier="thorough") for m in (7,30,62)])
PROPS["C27"] = dict(bounds="any minimal network of up to 3 instants (display: bounds in seconds within 59; debugging text: within 2^59 ticks); schedulers of up to 3 instants without constraints, up to 2 sets of dates of up to 2 pieces (debug: any tick; display: bounds at whole seconds in the last seconds before 1970); formatted dates: 1 instant",
  assumptions=["the digits of an integer are written by the standard library (trusted, as in C25)", "the texts of single intervals and sets are those of C25", "calendar dates are those of chrono"],
  jobs=[J("c27_graph", [h,n], covers=["rendered"] if h < 2 else [], cost=n*n*(1 + h % 2)) for h in range(4) for n in range(4)]
      +[J("c27_sched", [0,n,m,0], covers=["rendered"], cost=n*m) for n in range(3) for m in range(3)] + [J("c27_sched", [0,3,1,0], covers=["rendered"])]
      +[J("c27_sched", [1,n,m,w], covers=["rendered"], cost=5) for n,m,w in ((0,0,0),(1,0,0),(1,1,5),(1,2,5),(2,0,0),(2,1,2))] + [J("c27_sched", [2,n,m,w], covers=["rendered"], cost=5*m) for n,m,w in ((0,0,0),(1,0,0),(2,0,0),(1,1,0))]
      +[J("c27_sched", [1,2,1,3], cost=9, tier="thorough"), J("c27_sched", [2,1,1,2], cost=9, tier="thorough")])
PROPS["C26"] = dict(features=("serde",), bounds="every tick of durations, dates and interval bounds, infinities included; sets of up to 4 pieces (thorough: 8); a format without names, a format with named fields, and one with named fields in another order",
  assumptions=["the serde library and its derive macros are part of what is executed; the formats are those of the harness (a tape of tokens), standing for formats which represent every 64-bit integer exactly"],
  jobs=[J("c26_point", [t,s], covers=["infinite","negative"]) for t in (0,1) for s in (0,1,2)] + [J("c26_interval", [t,s,n], covers=["read back"]) for t in (0,1) for s in (0,1,2) for n in (0,1)]
      +[J("c26_set", [t,s,n], covers=["read back"]) for t in (0,1) for s in (0,1,2) for n in range(5)] + [J("c26_set", [t,s,n], tier="thorough") for t in (0,1) for s in (0,1,2) for n in (6,8)])
# ---------------------------------------------------------------- floating-point factors
FACT = ((0,0),(1,0),(-1,0),(2,0),(3,0),(-5,0),(1,1),(-1,1),(3,2),(-3,2),(5,3),(1,4)); FPOW = ((1,0),(-1,0),(2,0),(-4,0),(1,1),(-1,1),(1,4)); FL = (1 << 50, 1000000)
PROPS["C28"] = dict(bounds="fixed factors n/2^d, n from -5 to 5 (divisors: powers of 2); products: every duration and window bound within +-2^50 ticks (factor of type f64) or +-10^6 (f32), infinite outer bounds included, where the product is exact; rounding: every bound in the 2000 ticks after 2^60 (f64; the factors 1 and -1/2: every bound from 2^60 to 2^61 - 2^40) or after 2^30 (f32); saturation: factors 2, -2 and -5, every tick from 2^62 + 2^40 (f64) or 2^62 + 2^50 (f32) to 2^63 - 2^42 and the opposite ones; sets of up to 3 pieces",
  assumptions=["floating-point factors are finite and not NaN", "the products of general factors, which are rounded by the processor, are not decided: factors are the listed ones"],
  jobs=[J("c28_exact", [t,n,d,0,f,0,FL[t]], covers=["finite","infinite"]) for t in (0,1) for n,d in FACT for f in (0,1,2)] + [J("c28_exact", [t,n,d,0,f,0,FL[t]], covers=["finite","infinite"]) for t in (0,1) for n,d in FPOW for f in (3,4)]
      +[J("c28_exact", [t,n,d,1,f,m,FL[t]], covers=["scaled"]) for t in (0,1) for n,d in FACT for f in (0,1,2) for m in (0,1)] + [J("c28_exact", [t,n,d,1,f,m,FL[t]], covers=["scaled"]) for t in (0,1) for n,d in FPOW for f in (3,4) for m in (0,1)]
      +[J("c28_exact", [t,n,d,2,f,m,FL[t]], covers=["scaled"]+(["joined"] if m > 1 and d > 1 else [])) for t in (0,1) for n,d in FACT if n for f in (0,1,2,5) for m in range(4)]
      +[J("c28_exact", [t,n,d,2,f,m,FL[t]], covers=["scaled"]) for t in (0,1) for n,d in FPOW for f in (3,4) for m in range(4)] + [J("c28_exact", [t,0,0,2,f,m,FL[t]], covers=["scaled"]) for t in (0,1) for f in (0,1,2,5) for m in range(3)]
      +[J("c28_round", [0,n,d,0,0,0,1<<60,2000], covers=["scaled"]) for n,d in ((1,0),(-1,0),(1,1),(-1,1),(1,4),(3,2))] + [J("c28_round", [0,n,d,0,0,0,1<<40,1<<30], covers=["scaled"]) for n,d in ((1,0),(2,0),(-1,1),(3,2))] + [J("c28_round", [1,n,d,0,0,0,1<<30,2000], covers=["scaled"]) for n,d in ((1,0),(-1,0),(1,1),(-1,1))]
      +[J("c28_round", [0,n,d,2,f,m,1<<60,2000], covers=["scaled","joined"], cost=3) for n,d in ((1,0),(-1,0),(1,1),(-1,1),(1,4)) for f in (0,1,5) for m in (2,3)] + [J("c28_round", [0,3,1,2,f,2,1<<60,600], covers=["scaled","joined"], cost=3) for f in (0,1,5)]
      +[J("c28_round", [1,n,d,2,f,m,1<<30,2000], covers=["scaled","joined"], cost=3) for n,d in ((1,0),(-1,1)) for f in (0,1,5) for m in (2,3)]
      +[J("c28_round", [0,n,d,2,f,2,1<<60,(1<<60)-(1<<40)], covers=["scaled","joined"], cost=4) for n,d in ((1,0),(-1,1)) for f in (0,1,5)]
      +[J("c28_round", [t,n,0,3,f,0,(1<<62)+(1<<(40+10*t)),(1<<62)-(1<<(42+10*t))], covers=["saturated"], cost=6) for t in (0,1) for n,f in ((2,0),(2,1),(2,2),(-2,0),(-5,1))])
