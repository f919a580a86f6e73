import json,sys,os,re
sys.path.insert(0,'/verif'); import jobs
H='''# Solver-based checking of chronologic

## Approach
The real code of the crate is compiled by the pinned rustc together with a small harness crate (`harness/`, path
dependency on /repo) to LLVM IR; the IR of the harness entry points and of everything they call (crate code, `core`,
`alloc`, chrono, serde for C26) is executed symbolically by `engine/` (a KLEE-style executor written for this project,
C++ on the z3 C API). Harness inputs are symbolic machine integers over their whole domain; path conditions and
assertions are decided by z3 over an exact integer-arithmetic encoding of machine words (wrap-around included), with
bit-vector z3 and cvc5 as fallbacks. A panic, an out-of-bounds access, an overflow check, an unreachable or a
non-terminating loop is a violation too, unless the harness says that the property allows a panic there. Every
counterexample is re-evaluated on its model and replayed natively against the compiled real code before it is
reported; one that does not reproduce makes the check inconclusive (exit 2), never a violation. Every run regenerates
the encoding from /repo's current source. Nothing in /repo is instrumented: the harness only uses the public API, so
the checks judge what the code does and not how it is written (`MANIFEST.json` has no hooks).

Kani/CBMC, which are installed, were not used: they encode 64-bit saturating sums, the vectors of pieces and the cells of
graphs as bits, unroll every loop to a fixed depth in one formula, and exhaustive bounds (all ticks at once) were the
point here. With path-wise execution over integers each query is small and nearly linear, and takes about a millisecond.

### Parts
- `check.py PROPERTY quick|thorough`: builds (harness to IR and to a native library, engine), runs the jobs of the
  property in parallel, replays counterexamples, validates the encoding (the observations the engine predicts on
  sampled paths are compared with native runs), checks the reachability witnesses, writes `evidence/<id>.json`.
  Exit 0: every path of every job was explored and every assertion decided. Exit 1: a reproduced violation. Exit 2: no answer.
- `jobs.py`: for every property the bounds, assumptions and jobs (harness function, parameters, witnesses to reach).
- `tools/mkprops.py`, `tools/mkmanifest.py`: regenerate `properties.jsonl` and `MANIFEST.json`.
- `engine/`: `ir.cpp` (parser of textual LLVM IR), `exec.cpp` (executor: memory objects at byte granularity, forking,
  loops unrolled until the path condition closes them;
  a choice between two values stays one formula while choices are nested at most two deep and is explored as two paths beyond), `expr.cpp` (hash-consed expressions, simplifier, value ranges),
  `solver.cpp` (translation to integers, incremental contexts, fallbacks), `main.cpp` (jobs, slices, native replay).
- `harness/src`: `v.rs` (symbolic inputs, `assume`, `check`, `cover`, `observe`), `h.rs` (points, pieces and their
  membership oracle), one file per group of properties.

### What exhaustive means here
Structural sizes (pieces per set, instants of a graph, length of a history, kinds of constraints: two-sided,
one-sided, none, reversed, single) are enumerated by the jobs; for each structure, the solver decides all the values of
all the bounds, dates, durations, probe points and counts at once. Where a state space would need a history, the
invariant of the states is assumed symbolically instead and re-established: any canonical set (C06 shows that every
operation gives a canonical one), any minimal network of constraints (C17 shows that every accepted insertion gives the
minimal network again). So these results hold for every history of operations whose states stay within the size bounds,
by induction; short histories from scratch are also run, which checks the oracle itself.

### Tiers
Quick: every job of the list below under development semantics (overflow checks and debug assertions on: a panic in
release-only wrap-around is seen as an overflow). Thorough: larger structures, and every job again with release
semantics (no overflow checks, no debug assertions). A thorough check may take hours.

### Domain of ticks
A tick count is an `i64`; `i64::MAX` and `-i64::MAX` are the infinities, `i64::MIN` is not a value of the type
(`from_ticks` maps it to -oo). "Every tick" below is `-i64::MAX ..= i64::MAX`.

### Trusted
rustc's lowering to IR at opt-level 1 with vectorization off; the engine's IR semantics (checked on sampled paths by
native runs each time); z3 and cvc5; allocation never fails; floats are not modelled
symbolically (see exclusions).

## Properties
Oracles are written in the harness from the property texts, without calling the code under check (points in 128-bit
integers, sets as lists of bounds with a symbolic probe point, all-pairs longest paths for networks).

'''
O={
"C01":("results against 128-bit sums clamped to the infinities; opposite infinities may panic, nothing else may","-"),
"C02":("exact products and truncated quotients in 128 bits, for every integer type by trait and by constructor","-"),
"C03":("the defining inequalities of floor and ceil (multiple, not after/before, less than one period away); truncation as sign-preserving quotient","products of two symbolic numbers: the fixed periods are exact over the whole range, any period only up to 2^24 ticks"),
"C04":("nanosecond and tick values related by inequalities in 128 bits; order preservation on two symbolic values; calendar dates through chrono's own day numbers","dates only in the listed windows of time (chrono's calendar code is executed, which costs one path per day pattern); `now()` and SystemTime are not covered"),
"C05":("membership of a symbolic probe point in the description of each constructor, range notation and predicate","-"),
"C06":("the pieces read back by iteration are strictly ordered, non-empty, separated; one operation of every kind on any canonical operands, and pairs of operations","-"),
"C07":("membership of a symbolic probe point; canonical result","-"),
"C08":("as C07","-"),
"C09":("as C07; complementing twice is equality of pieces","twice: a set reaching the last finite tick is the same set of points as one reaching +oo, written in two ways, so the first and last finite ticks are left out"),
"C10":("pieces of the lazy result against the operators' oracle, at each step the size hint against the number of pieces still to come, `None` for ever after","-"),
"C11":("pairwise bound comparisons over explicit pieces","first and last finite ticks left out (two written forms of the same points)"),
"C12":("pieces equality and order of extreme points; hash equality through a recording hasher","as C11"),
"C13":("membership of a probe point after truncation; 'changed' against the pieces","as C11 for the truncation bound"),
"C14":("membership: x is in A+B iff some a exists, expressed on bounds; there-and-back as equality; every operator, in-place and lazy form","translations whose shifted finite bounds leave the range are only required not to corrupt the set (C06); in development semantics some panic"),
"C15":("exact products in 128 bits clamped; truncated quotients; windows bound by bound","factors are all of the type's values, multiplied through 32-bit halves; scaling by floats is out of scope"),
"C16":("every cell read back through `timespan`, `constraint` and iteration after resize, trim, clear from any minimal network, then after a further insertion","-"),
"C17":("closed network assumed, constraint added, all-pairs closure formula as oracle (cross-checked by histories from nothing, whose oracle is Floyd-Warshall run in the harness); a sum that leaves the range is outside the bounds","4-instant general networks only in the thorough tier; the u32 index arithmetic of graphs over 65535 instants is not reached"),
"C18":("refusal iff the closure has a positive cycle; every cell and the size unchanged after a refusal","as C17"),
"C19":("Floyd-Warshall over the union of constraints; emptied graph reused afterwards","bulk insertion of 2 or more says `Propagated` whether or not something changed, which C20 therefore does not claim"),
"C20":("the answer against equality of all the cells before and after","see C19"),
"C21":("the multiset of reported pairs and intervals against `timespan` oracle cells; comparisons against signs of the bounds","as C17"),
"C22":("interval case: exact feasible dates by the closure of the network with the dates as an extra instant; disconnected case: the weaker guarantees of the statement, with existentially chosen schedules as symbolic inputs (a witness schedule satisfying everything must remain)","graphs of 3 and 4 instants: precedence graphs only (each constraint present or not), bounded ones in part"),
"C23":("as C22","as C22"),
"C24":("k-th date as start + k periods in 128 bits, end as the first infinite one","a start less than one period from the infinity it comes from is refused by the crate (panics), which is accepted"),
"C25":("the text is compared with one assembled from the property statement; an integer is one token carrying its symbolic value (the engine hands the digit writing of the standard library to the harness), so text structure, units, counts and signs are decided, the digits themselves are trusted","windows of dates through chrono's calendar only near 1970; counts of at most three units at a time vary"),
"C26":("round trip through three in-memory formats (positional; named fields; named fields in another order and newtypes transparent), equality and read-back of every bound","the crate is built with its `serde` feature for this check only"),
"C27":("the text is compared with one assembled from the texts of the single intervals and sets (C25) and the network or dates put in","alignment of the numbers of the debug table (padding is applied by the standard library); formatted dates through chrono's calendar for one instant only, in the listed window"),
"C28":("products of ticks within the precision of the factor against integer arithmetic (the engine turns the conversions, comparisons and products by powers and small numerators into exact integer terms, including rounding to nearest even inside one binade); beyond it, the pieces of the product against the products of the pieces","factors other than the listed ones; ticks which are rounded and lie in several binades at once"),
}
m={}
for d in sorted(os.listdir('/verif/seeded')): 
    x=json.load(open('/verif/seeded/%s/meta.json'%d)); m.setdefault(x['property'],[]).append(d)
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
s=H
for i in sorted(O):
    j=jobs.PROPS[i]; fn=sorted({x['fn'] for x in j['jobs']}); q=sum(x['tier']=='quick' for x in j['jobs'])
    s+="### %s %s\n- Decides: %s. Harness: %s; %d jobs (quick), %d (thorough).\n- Bounds: %s.\n"%(i,P[i]['title'],O[i][0],", ".join('`%s`'%f for f in fn),q,len(j['jobs']),j['bounds'])
    if O[i][1]!='-': s+="- Left out: %s.\n"%O[i][1]
    s+="- Planted changes it catches: %s.\n\n"%", ".join('`%s`'%d for d in m.get(i,[]))
s+=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(s)
