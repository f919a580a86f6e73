import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
p("C01","Durations and dates: exact, saturating, infinity-absorbing arithmetic",
 "Adding, subtracting, negating and summing durations, shifting a date by a duration and taking the duration between two dates give the exact tick result when it is finite, and saturate to the infinity of the right sign when it is not, without ever wrapping around. An infinite operand absorbs any finite one, negation swaps the two infinities, and the only refused (panicking) combination is adding opposite infinities. The next and the previous instant of a finite point are exactly one tick away, and an infinite point has itself as next and previous.",
 ["inputs"],"every pair (and short list) of durations and dates, finite and infinite, including values next to both ends of the range",
 "No existing test adds anything near the ends of the range or an infinite value; the interesting region is a handful of 2^64 values.",
 ["src/wins/timevalue.rs","src/wins/timestamp.rs"],[("saturating addition with infinity cases","src/wins/timevalue.rs impl Add"),("delegation of dates to durations","src/wins/timestamp.rs")],["TimeValue +,-,+=,-=,neg,sum,just_after,just_before","Timestamp +,-,+=,-=,neg"])
p("C02","Unit conversions into durations are exact, truncated towards zero, saturating",
 "Building a duration from a number of years, months, weeks, days, hours, minutes or seconds gives exactly that many seconds, and from milli-, micro- or nanoseconds the exact tick count truncated towards zero; this holds for every integer type a number can be given in. A value that does not fit becomes the infinity of the same sign as the number, never a wrapped or oppositely signed value. Consequently conversions are monotone and odd, and a tick count is taken as it is.",
 ["inputs"],"every value of every integer type, for every unit",
 "The tests convert a few small positive literals; overflow, negative values and sub-second truncation are not sampled.",
 ["src/wins/timevalue.rs","src/wins/convert.rs"],[("unit constructors","src/wins/timevalue.rs from_*"),("extension trait on integers","src/wins/convert.rs")],["TimeValue::from_*","n.years() .. n.ticks()"])
p("C03","Rounding of durations and dates to a period",
 "Rounding a finite duration or date down (up) to a strictly positive period gives the largest multiple of the period that is not after it (the smallest that is not before it), whatever its sign. Expressing a duration in years, months, weeks, days, hours, minutes, seconds, milli-, micro- or nanoseconds truncates it towards zero to a multiple of that unit, so it never changes sign or grows in magnitude. Infinite values stay infinite.",
 ["inputs"],"every finite or infinite duration/date and every strictly positive period for which the multiple is representable",
 "Five literal cases exist for each direction; multiples, zero and negative non-multiples behave differently and are only spot-checked.",
 ["src/wins/timevalue.rs","src/wins/timestamp.rs","src/wins/convert.rs"],[("floor / ceil","src/wins/timevalue.rs"),("truncation to units","src/wins/convert.rs impl IntoTimeValue for TimeValue")],["floor","ceil","t.years() .. t.nanos()"])
p("C04","Conversions to and from standard and chrono times lose at most one unit",
 "Converting a standard or chrono duration, or a chrono date, into this crate's types keeps the value to within one tick (truncated towards zero), and saturates with the right sign outside the representable range. Converting back to standard or chrono types and reading the whole seconds and the sub-second part of a finite value stays within one nanosecond, is consistent between seconds and sub-second parts (0 <= sub-second < 1s), and preserves order. A negative duration is refused by the standard (unsigned) duration type.",
 ["inputs"],"every finite duration/date and every standard/chrono duration or date in the representable range",
 "No existing test covers these conversions except indirectly through the current clock.",
 ["src/wins/timevalue.rs","src/wins/timestamp.rs"],[("From impls","src/wins/timevalue.rs, src/wins/timestamp.rs"),("as_secs and subsec_*","src/wins/timevalue.rs")],["From/Into std::time::Duration, chrono::Duration, NaiveDateTime, DateTime","as_secs, subsec_millis/micros/nanos"])
p("C05","Intervals and ranges denote the points they are built from",
 "An interval built from two bounds, from one point, as after/before a point, centred on a point, from any of the language's range notations, or by negating or enlarging another one contains exactly the points its description says, and every description without any finite point gives the one empty interval. Emptiness, single-point, bounded-below/above, everything, number of pieces, bounds, duration and convex envelope answer according to that set of points, for intervals and for sets of intervals alike. An empty window is never reported as bounded, as a single point or as everything.",
 ["inputs"],"every pair of bounds, finite or infinite, for durations and dates, and every set up to the stated number of pieces",
 "One literal interval is checked by the tests; degenerate bounds (equal, reversed, infinite) are not.",
 ["src/wins/mod.rs","src/wins/timeinterval.rs","src/wins/timeset.rs","src/ops/range.rs"],[("constructors","src/wins/timeinterval.rs, src/wins/timeset.rs"),("bounds of range notations","src/ops/range.rs"),("predicates","src/wins/mod.rs")],["TimeInterval/TimeSet constructors and predicates","ranges as windows"])
p("C06","Sets always stay sorted, disjoint, non-adjacent and free of empty pieces",
 "Whatever sequence of unions, intersections, complements, exclusions, negations, truncations, translations, integer scalings or collections produced it, a set of intervals lists its pieces in chronological order, every piece is non-empty, and between two successive pieces at least one tick is missing. Hence two sets with the same points have the same pieces.",
 ["inputs","programs"],"every pair of sets up to the stated number of pieces and every operation producing a set",
 "The unions of two small literals are tested; adjacency (off by one tick), infinite pieces and empty pieces are not.",
 ["src/wins/timeset.rs","src/ops/union.rs","src/ops/intersect.rs","src/ops/compl.rs","src/ops/transl.rs","src/ops/scaling.rs","src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs"],[("merging while inserting","src/ops/union.rs, src/wins/timeset.rs"),("iterator state machines","src/iter/")],["TimeSet iteration"],[("pieces","sorted disjoint intervals","src/wins/timeset.rs TimeSet.0")])
p("C07","Union contains exactly the points of its operands",
 "The union of points, intervals and sets, by operator, by in-place operator, by lazy iteration or by collecting intervals or sets in any order, contains a point if and only if at least one operand contains it. Operands and their order do not matter beyond that (empty and infinite ones included).",
 ["inputs"],"every combination of operand kinds, sets up to the stated number of pieces, every probe point",
 "A few literal unions are tested; the case analysis on relative positions of several pieces is not covered.",
 ["src/ops/union.rs","src/iter/union.rs","src/wins/timeset.rs"],[("in-place merge into a sorted vector","src/ops/union.rs"),("lazy union state machine","src/iter/union.rs"),("FromIterator","src/wins/timeset.rs")],["|, |=, iter union, collect"])
p("C08","Intersection contains exactly the points common to its operands",
 "The intersection of points, intervals and sets, by operator, by in-place operator or by lazy iteration, contains a point if and only if every operand contains it. Disjoint operands, however close, give the empty window.",
 ["inputs"],"every combination of operand kinds, sets up to the stated number of pieces, every probe point",
 "Existing tests only intersect a few distant literals; touching and adjacent pieces are not sampled.",
 ["src/ops/intersect.rs","src/iter/intersect.rs"],[("operators","src/ops/intersect.rs"),("lazy intersection state machine","src/iter/intersect.rs")],["&, &=, iter intersection"])
p("C09","Complement and exclusion are exact",
 "The complement of a point, interval or set contains exactly the points it does not contain, complementing twice gives back the same set, the complement of nothing is everything and conversely. Lazily excluding a window from another one leaves exactly the points of the first that are not in the second.",
 ["inputs"],"every interval and every set up to the stated number of pieces, every probe point",
 "One literal complement is tested; infinite and adjacent bounds are not.",
 ["src/ops/compl.rs","src/iter/compl.rs","src/iter/excl.rs"],[("Not operators","src/ops/compl.rs"),("lazy complement","src/iter/compl.rs"),("exclusion as intersection with the complement","src/iter/excl.rs")],["!, iter complementation, iter exclusion"])
p("C10","Lazy window iterators are ordered, fused and agree with the operators",
 "Iterating lazily over a union, intersection, complement, exclusion or translation yields non-empty, chronologically ordered, separated intervals whose points are the same as those given by the corresponding operators, also when iterators are composed. Once exhausted an iterator stays exhausted, and its size hint always brackets the number of intervals still to come.",
 ["inputs","programs"],"every pair of sets up to the stated number of pieces, every prefix of the iteration",
 "No test iterates lazily over anything but trivial inputs; exhaustion order of the two sides is a schedule tests do not sample.",
 ["src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs","src/iter/excl.rs","src/iter/transl.rs","src/iter/mod.rs"],[("state machines","src/iter/*.rs")],["Iterator::next/size_hint of the iter adaptors"])
p("C11","Containment and overlap agree with the points",
 "A window contains another one exactly when every point of the second is in the first, so every window contains the empty one and a disconnected window is contained only if each of its pieces is. Two windows overlap exactly when they share a point, symmetrically, so nothing overlaps the empty window.",
 ["inputs"],"every pair of points, intervals and sets up to the stated number of pieces",
 "Four literal containment assertions exist, none for overlap or for the empty window.",
 ["src/relns/contain.rs","src/relns/overlap.rs"],[("bound comparisons","src/relns/")],["contains","overlaps"])
p("C12","Equality, ordering and hashing of windows agree with their points",
 "Two windows are equal exactly when they have the same points, whatever their kinds, and equal windows of the same kind have equal hashes. One window is before another exactly when all its points are before all the points of the other (both non-empty), which makes before/after a strict, antisymmetric, transitive relation; the comparison result, less-or-equal and greater-or-equal are consistent with these.",
 ["inputs"],"every pair and triple of intervals and sets up to the stated number of pieces",
 "Not tested at all.",
 ["src/relns/ordering.rs"],[("PartialEq/PartialOrd","src/relns/ordering.rs")],["==,<,<=,>,>=,partial_cmp,Hash"])
p("C13","Truncation removes exactly the points beyond the bound and reports changes",
 "Truncating an interval or a set before (after) a point removes exactly the points before (after) it and keeps all the others. It answers that something changed if and only if a point was removed.",
 ["inputs"],"every interval, every set up to the stated number of pieces, every bound",
 "Not tested at all.",
 ["src/wins/timeinterval.rs","src/wins/timeset.rs"],[("TimeTruncation","src/wins/timeinterval.rs, src/wins/timeset.rs")],["truncate_before","truncate_after"])
p("C14","Translation is the set of all sums",
 "Shifting an interval or a set by a duration moves every point by it, and adding (subtracting) an interval of durations gives exactly the points that are a sum (difference) of a point of each operand, by operator, in-place or lazily. Shifting there and back restores the window as long as no bound reaches the ends of the range, infinite bounds stay infinite, and an empty operand gives the empty window.",
 ["inputs"],"every interval/set up to the stated number of pieces and every interval of durations whose shifted bounds stay in range",
 "Not tested at all; the operators are macro-generated for many type combinations.",
 ["src/ops/transl.rs","src/iter/transl.rs"],[("Add/Sub impls","src/ops/transl.rs"),("lazy translation","src/iter/transl.rs")],["+,-,+=,-= on windows, iter translation"])
p("C15","Scaling by integers multiplies and divides bounds exactly",
 "Multiplying a duration by an integer of any type gives the exact product, or the infinity of the right sign when it does not fit (zero times a finite duration is zero); multiplying an interval or a set multiplies its bounds, a negative factor exchanging them. Dividing by a non-zero integer truncates each finite bound towards zero and keeps infinite ones infinite with the right sign. Empty windows stay empty.",
 ["inputs"],"every duration, interval and set up to the stated number of pieces and every integer of every integer type, except that products of two large symbolic numbers are bounded as stated",
 "Not tested at all; the operators are macro-generated for a dozen integer types.",
 ["src/ops/scaling.rs","src/iter/scaling.rs"],[("Mul/Div impls","src/ops/scaling.rs")],["*,/,*=,/= by integers"])
p("C16","Resizing, trimming and clearing a constraint graph keep the other constraints",
 "Growing a graph keeps every constraint and adds instants with no constraint; shrinking it keeps the constraints between the remaining instants; trimming removes only the last instants that have no constraint with any other one; clearing removes every constraint and keeps the size; instants that reappear after a removal, or after an inconsistency emptied the graph, come back with no constraint. At any time the constraint from one instant to another is the opposite of the reverse one, an instant is at zero distance from itself, and instants outside the graph have no constraint.",
 ["inputs","histories"],"every history of the stated length mixing constraint insertions with resize, trim, clear, up to the stated number of instants",
 "One test grows a fresh graph; cell indexing errors appear only for particular pairs and sizes.",
 ["src/graph/storage.rs"],[("triangular-shell cell indexing","src/graph/storage.rs lower, lower_mut, timespan"),("resize/reset/shrink_to_fit","src/graph/storage.rs")],["size, timespan, constraint"],[("cells","lower bound of each ordered pair","src/graph/mod.rs TimeGraph.data")])
p("C17","Incremental propagation keeps the minimal network",
 "After any sequence of accepted time constraints, the interval reported between any two instants is the tightest one implied by all of them: every value outside it contradicts the constraints and both its bounds are reached by a solution. This holds whatever the order of insertion, however instants are numbered, whether they already existed or are created by the constraint, and for half-bounded and unbounded constraints.",
 ["inputs","histories"],"every sequence of constraints (any pairs of instants, any bounds in range) of the stated length over the stated number of instants",
 "The test inserts three constraints in one order with positive literals.",
 ["src/graph/propagation.rs","src/graph/storage.rs"],[("incremental path consistency","src/graph/propagation.rs propagate, propagate_lower_bound")],["timespan, constraint, iteration over constraints"])
p("C18","Inconsistent constraints are rejected and leave the graph unchanged",
 "Adding a single constraint is refused if and only if it is empty or contradicts the constraints already accepted (including a constraint from an instant to itself that excludes zero). A refused constraint leaves the graph exactly as it was, its size included, so later operations behave as if it had never been tried.",
 ["inputs","histories"],"every sequence of constraints of the stated length over the stated number of instants",
 "No test inserts an inconsistent constraint.",
 ["src/graph/propagation.rs"],[("consistency test before writing","src/graph/propagation.rs propagate")],["result of propagate, timespan, size"])
p("C19","Adding constraints in bulk and merging graphs equal one-by-one insertion",
 "Adding several constraints at once, collecting them into a graph, taking them from another graph, or merging two graphs gives the same network as inserting all of them one by one in any order. If they are inconsistent together, an inconsistency is reported, and the graph is emptied and can be reused like a new one (a bulk of a single constraint is one insertion: it is refused and the graph is unchanged). Collecting inconsistent constraints into a graph never yields a graph: it panics.",
 ["inputs","histories"],"every pair of consistent or inconsistent constraint sets of the stated size over graphs of the stated (possibly different) sizes",
 "One test copies a consistent graph into a larger one without checking the content.",
 ["src/graph/propagation.rs","src/graph/constraints.rs"],[("global propagation","src/graph/propagation.rs global_propagation, extend, merge"),("FromIterator/Extend","src/graph/constraints.rs")],["extend, merge, collect, timespan"])
p("C20","Propagation results tell whether anything changed",
 "A successful single constraint insertion or merge answers that nothing changed exactly when every interval between instants and the number of instants are the same as before, and that it propagated otherwise. A recoverable inconsistency means that nothing changed; a fatal one means that the graph is empty.",
 ["inputs","histories"],"every accepted or refused operation after every history of the stated length",
 "One Unchanged and six Propagated literals are asserted.",
 ["src/graph/propagation.rs"],[("result codes","src/graph/propagation.rs")],["Result of propagate, merge"])
p("C21","Graph queries report the propagated constraints",
 "Looking up the constraint between two instants, iterating over all constraints, and over those from or to an instant report each constrained pair of distinct instants exactly once, with the propagated interval, in the direction asked for, and no unconstrained pair; the iteration ends cleanly for every graph, including empty and one-instant graphs. Comparing two instants answers before (after) exactly when the constraints force it strictly, equal exactly when they force equality, and nothing otherwise; two instants are distinct exactly when the constraints exclude zero. Two constraints are equivalent exactly when they say the same between the same instants, read in the same or in opposite directions.",
 ["inputs","histories"],"every network obtained by the stated number of constraints over the stated number of instants, every pair of instants in or out of the graph",
 "One test iterates over a graph without looking at what is produced.",
 ["src/graph/constraints.rs","src/graph/storage.rs","src/graph/mod.rs"],[("iterators","src/graph/constraints.rs"),("instant_cmp, are_distinct_instants","src/graph/storage.rs")],["constraint, iter, constraints_from, constraints_to, instant_cmp, are_distinct_instants"])
p("C22","A scheduler keeps exactly the feasible dates of every instant",
 "When every restriction put on a scheduler is an interval, the dates it reports for each instant are exactly those that belong to at least one complete schedule satisfying all the graph constraints and all the accepted restrictions; a restriction is then refused exactly when no schedule satisfies it. With disconnected windows no such date is ever removed, a restriction that some complete schedule satisfies is never refused, an accepted one leaves every instant with some date, and the reported dates always satisfy the restrictions put on that instant. A refused restriction leaves every instant's dates unchanged. The answer says unchanged exactly when no instant's dates changed.",
 ["inputs","histories"],"every graph of the stated size and every sequence of restrictions of the stated length",
 "One test sets a start line and a deadline and only looks at the answer codes.",
 ["src/graph/scheduler.rs","src/graph/constraints.rs"],[("one-pass propagation from the restricted instant over the minimal network","src/graph/scheduler.rs propagate_scheduling")],["retain, scheduling, schedule"])
p("C23","Scheduler deadlines, start lines, removals and bounds",
 "Setting a deadline (start line) restricts every instant to dates not after (not before) it, is refused, with nothing changed, exactly when some instant cannot comply, and keeps exactly the feasible dates (after disconnected windows: removes none of them, and is never refused when some complete schedule complies). Removing a window from an instant is the same as retaining its complement. The latest beginning and the earliest ending are the minimum of the latest dates and the maximum of the earliest dates of the instants.",
 ["inputs","histories"],"every graph of the stated size and every pair of deadline/start line/removal",
 "One literal deadline and start line are set; only the answer codes are checked.",
 ["src/graph/scheduler.rs"],[("set_deadline, set_startline, remove","src/graph/scheduler.rs")],["set_deadline, set_startline, remove, latest_beginning, earliest_ending"])
p("C24","Periodic date sequences are regular, start where asked and end before infinity",
 "A forward (backward) sequence from a date yields that date first and then each date one period later (earlier), without skipping or repeating, and ends just before infinity would be reached (a start less than one period from the infinity it comes from is refused); the variants aligned on periods start at the first multiple of the period at or after (at or before) the date. Jumping to the n-th item gives the same date and leaves the same remainder as n+1 single steps, and the announced length, count and last item are those of full iteration.",
 ["inputs","histories"],"every start date, every strictly positive period, every short sequence of steps and jumps; lengths within the stated distance of the end of time",
 "Not tested at all.",
 ["src/seq/mod.rs","src/seq/forward.rs","src/seq/backward.rs"],[("iterators","src/seq/forward.rs, src/seq/backward.rs")],["forward_sequence, backward_sequence, forward_periods, backward_periods; next, nth, len, count, last, size_hint"])
p("C25","Textual rendering identifies windows and durations unambiguously",
 "The text of an interval or set tells its points: the empty window is shown as {}, a single point between braces, closed finite bounds between outward brackets, infinite sides as open, and pieces are joined in chronological order. The text of a duration lists its units from years to nanoseconds with the right counts and its sign.",
 ["inputs"],"every duration and every window up to the stated number of pieces",
 "Seven literal renderings are tested.",
 ["src/wins/format.rs"],[("Debug/Display","src/wins/format.rs")],["to_string, format!, format_timeset"])
p("C26","Serialized values read back equal",
 "With serialization enabled, writing any duration, date, interval or set and reading it back gives an equal value, down to the tick and for infinite, empty and single-point values too, in formats with or without field names.",
 ["inputs"],"every duration, date, interval and set",
 "No test enables the feature.",
 ["src/wins/timevalue.rs","src/wins/timestamp.rs","src/wins/timeinterval.rs","src/wins/timeset.rs"],[("derived implementations","cfg_attr(feature=\"serde\")")],["serde::Serialize/Deserialize"])
p("C27","Texts of graphs, constraints and schedulers tell all of them",
 "The text of a constraint names its two instants in the direction it is read and its interval in that direction. The text of a graph tells its number of instants, then every constraint between two distinct instants exactly once with its propagated interval, then how many there are; the debugging text is the table of the lower bounds, row by row. The text of a scheduler lists every instant in order with all its current dates, in the format asked for; a formatted scheduler without instants says so.",
 ["inputs","histories"],"every network and every set of dates of the stated size",
 "No test looks at these texts.",
 ["src/graph/constraints.rs","src/graph/storage.rs","src/graph/scheduler.rs","src/graph/format.rs"],[("Display/Debug","src/graph")],["to_string, format!, format_timeset"])
p("C28","Scaling by floating-point factors",
 "Multiplying a duration by a finite floating-point factor gives the product truncated towards zero whenever that product is exactly representable, and saturates to the infinity of its sign when it is clearly out of range; an infinite duration stays infinite, with the sign of the factor, and times zero gives zero; beyond the precision of the factor the order of durations is still kept (reversed by a negative factor). Scaling a window scales its bounds: the empty window stays empty, and a set becomes exactly the span of the products of each of its pieces, listed in order and separated, pieces which meet through truncation or rounding becoming one. The product written on either side, the in-place product, the division by the inverse factor and the lazy scaling agree.",
 ["inputs"],"every duration and every window up to the stated number of pieces, for the listed factors",
 "One product by 2.5 of a small literal is tested; infinities, empty windows, pieces which meet and huge ticks are not.",
 ["src/ops/scaling.rs"],[("products by f32 and f64","src/ops/scaling.rs timevalscalingfloat, timespanscalingfloat, timespansscalefloat"),("joining of pieces","src/ops/scaling.rs check_joined_inners")],["a * f, f * a, a *= f, a / f, scaling(f)"])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
