#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                     observe_at=observe,hook_needed=None)))

p("C01","Set operators compute exactly union, intersection and complement",
"For time windows A and B (points, ranges, intervals, sets, of durations or of dates; empty or unbounded included), a date belongs to A|B iff it is in A or in B, to A&B iff it is in both, and to !A iff it is not in A. This holds for every owned, borrowed, mixed-kind and in-place (|=, &=) form of the operators. No operation loses, invents or panics on a date.",
["inputs"],"all windows A, B, any number and arrangement of pieces (disjoint, adjacent, nested, touching, unbounded, empty), all operand kinds and operator forms",
"The tests evaluate three unions of at most two intervals; the intersection and complementary tests are empty. The claim is over all arrangements of pieces on both sides.",
["src/ops/union.rs","src/ops/intersect.rs","src/ops/compl.rs","src/iter/union.rs","src/iter/intersect.rs","src/ops/range.rs"],
[("merge automaton of the union iterator (Init/WaitI/WaitJ/OnlyI/OnlyJ)","src/iter/union.rs"),("merge automaton of the intersection iterator","src/iter/intersect.rs"),("gap walk of Not","src/ops/compl.rs")],
["TimeSet |, &, !, |=, &=","TimeInterval |, &, !, &=","TimeValue/Timestamp |, &, !"])

p("C02","Time sets are always canonical, so equal sets compare equal",
"Whatever sequence of public operations built it (constructors, collecting intervals in any order and with empty ones among them, operators, truncations, translations, scalings), a time set lists its pieces in increasing order, each piece non-empty, and consecutive pieces separated by at least one missing tick. Hence two sets holding the same dates are equal, have the same number of pieces and the same hash, whichever way they were obtained. The empty set has no piece and an empty interval is always recognised as empty.",
["histories","inputs"],"all histories of set operations and all sequences of intervals given to a constructor or collector",
"Tests build at most two pieces in order; canonicity is an invariant over all reachable values of the type.",
["src/wins/timeset.rs","src/wins/timeinterval.rs","src/ops/scaling.rs","src/ops/transl.rs","src/iter/mod.rs"],
[("FromIterator fast path and merge","src/wins/timeset.rs"),("TimeInterval::new normalisation","src/wins/timeinterval.rs"),("check_joined_inners","src/ops/scaling.rs")],
["TimeSet::iter, ==, Hash, convex_count, is_empty"],
[("TimeSet.0","ordered list of disjoint intervals","src/wins/timeset.rs")])

p("C03","Lazy window iterators agree with the operators and the iterator contract",
"Union, intersection, complementary, exclusion, translation and scaling of window iterators, also when chained on one another, yield the pieces of exactly the set the eager operators give: in increasing order, non-empty, with at least a one-tick gap between pieces. The same holds when operands are shortened by the standard adapters (skip, take, filter...) or are window iterators of the user, whatever size these announce and even if they yield again after their end. Once exhausted they keep returning nothing, and at every step the number of remaining pieces lies within the bounds announced by size_hint.",
["inputs","histories"],"all operand windows, all nestings of two adapters, every prefix of consumption",
"No test drives the iterator adapters directly; the state machines have six states and their behaviour depends on how both inputs interleave.",
["src/iter/union.rs","src/iter/intersect.rs","src/iter/compl.rs","src/iter/excl.rs","src/iter/transl.rs","src/iter/scaling.rs","src/iter/mod.rs"],
[("IterUnion / IterIntersection state machines","src/iter/union.rs, src/iter/intersect.rs"),("IterComplementary lower cursor","src/iter/compl.rs")],
["chronologic::iter::{TimeUnion,TimeIntersection,TimeComplementary,TimeExclusion,TimeTranslation,TimeScaling}"])

p("C04","Contains, overlaps, equality and ordering agree with membership",
"A contains B iff every date of B is in A (so every window contains the empty window); A overlaps B iff they share a date (so nothing overlaps the empty window); A equals B iff they hold the same dates, across intervals, sets, ranges and points. A is before (less than) B iff both are non-empty and every date of A precedes every date of B, and all comparison operators are consistent with that order and with equality.",
["inputs"],"all pairs of windows of all kinds, including empty, unbounded, adjacent, nested and many-piece ones",
"One test checks four point memberships on one set; overlaps and the orderings are never tested.",
["src/relns/contain.rs","src/relns/overlap.rs","src/relns/ordering.rs"],
[("first-piece search by upper bound","src/relns/contain.rs, src/relns/overlap.rs"),("PartialOrd macro","src/relns/ordering.rs")],
["TimeContaining::contains","TimeOverlapping::overlaps","==, <, <=, >, >=, partial_cmp"])

p("C05","Truncation equals intersection with a half-line and reports change",
"truncate_before(t) keeps exactly the dates of the window that are at or after t, truncate_after(t) exactly those at or before t, for intervals and sets. The result is again a proper window (empty when nothing remains), and the returned flag is true exactly when the set of dates changed.",
["inputs","histories"],"all windows, all cut points (inside, at bounds, in gaps, outside, infinite), all sequences of cuts",
"Truncation is not tested at all.",
["src/wins/timeset.rs","src/wins/timeinterval.rs"],
[("position/rposition + drain/truncate","src/wins/timeset.rs"),("bound replacement","src/wins/timeinterval.rs")],
["TimeTruncation::truncate_before, truncate_after"])

p("C06","Window queries describe the set exactly",
"is_empty, is_all, is_singleton, is_bounded, is_low_bounded, is_up_bounded, is_convex, convex_count, lower_bound, upper_bound, convex_envelope and the iteration of pieces report the true shape of any window, of any kind (point, range forms, interval, set, graph constraint). The boundedness queries answer false on an empty window and the empty window is never reported as covering everything. Constructors (new, before, after, singleton, all, empty, centered, enlarge, convex, ranges) build exactly the documented set, and duration is upper minus lower.",
["inputs"],"all windows of all kinds and all constructor arguments, including reversed and infinite ones",
"The queries are only reached incidentally by tests on non-empty bounded intervals.",
["src/wins/mod.rs","src/wins/timeinterval.rs","src/wins/timeset.rs","src/ops/range.rs","src/graph/constraints.rs"],
[("TimeBounds / TimeWindow default methods","src/wins/mod.rs"),("range adapters","src/ops/range.rs")],
["TimeBounds, TimeWindow methods on every window type"])

p("C07","Translating windows is exact element-wise addition and subtraction",
"Adding (subtracting) a duration, an interval of durations or a set of durations to a date, an interval or a set yields exactly the set of all sums (differences) of their elements; unbounded sides stay unbounded, a bound pushed out of the representable range becomes unbounded, and an empty operand gives an empty result. Negation yields exactly the opposite elements. Operator, reversed-operand and in-place forms agree, singletons included.",
["inputs"],"all windows and translations that do not push a whole piece out of the representable range, all operator forms",
"No test translates a window. The in-place forms, singletons, multi-piece and reversed differences are separate code paths.",
["src/ops/transl.rs","src/iter/transl.rs","src/wins/timeinterval.rs","src/wins/timeset.rs"],
[("Add/Sub impls per operand pair","src/ops/transl.rs"),("Neg (reversal)","src/wins/timeset.rs, src/wins/timeinterval.rs")],
["+, -, +=, -=, unary - on windows"])

p("C08","Scaling windows multiplies and divides their bounds exactly",
"Multiplying an interval of durations by a number scales both bounds (and exchanges them for a negative factor), dividing does the same with quotients rounded toward zero, and a set is scaled piece by piece with pieces that meet being joined. Unbounded sides stay unbounded on the correct side for a non-zero factor, a bound scaled out of the representable range becomes unbounded, a zero factor gives {0} for any non-empty window, and empty windows stay empty. All integer and float factor types, operand orders and in-place forms agree.",
["inputs"],"all windows of durations, all factor types and values that do not push a whole piece out of the representable range",
"Scaling of windows is not tested; there are 14 factor types times 3 window types times in-place and reversed forms.",
["src/ops/scaling.rs","src/iter/scaling.rs"],
[("scaling macros per factor group","src/ops/scaling.rs"),("check_joined_inners","src/ops/scaling.rs")],
["*, /, *=, /= on TimeSpan and TimeSpans"])

p("C09","Duration arithmetic is exact and saturates to infinity with the right sign",
"Adding, subtracting, negating, summing and scaling durations (and shifting dates) gives the mathematically exact tick count, or the infinity of the correct sign when that count is out of the finite range; an infinite operand stays infinite, with the sign rule of multiplication for scaling, and only opposite infinities are refused. Dividing rounds toward zero and keeps infinities. Comparison, sign tests, just_before and just_after follow the tick order, never moving an infinity.",
["inputs"],"all tick values including the extremes and infinities, all factors of the 14 numeric types including those beyond 64 bits",
"Tests use a handful of small durations; overflow, infinities, negative times huge factors and extreme ticks are not sampled.",
["src/wins/timevalue.rs","src/wins/timestamp.rs","src/ops/scaling.rs"],
[("saturating add with infinity cases","src/wins/timevalue.rs"),("timevalscaling* macros","src/ops/scaling.rs")],
["TimeValue and Timestamp operators"])

p("C10","Unit constructors and unit truncation are exact, monotone and saturating",
"A duration built from n years, months, weeks, days, hours, minutes, seconds, milli-, micro-, nanoseconds or ticks is n times the documented unit (fractions of a tick cut toward zero), or the infinity of the sign of n if out of range, identically for every integer type. Reducing a duration to a unit gives the nearest whole multiple of that unit toward zero, and leaves infinities infinite.",
["inputs"],"all integers of all 12 types, all units; all durations for the reduction",
"Tests check six small equalities. Negative overflow, unsigned and 128-bit extremes, negative durations and each unit's own reduction are not covered.",
["src/wins/timevalue.rs","src/wins/convert.rs"],
[("from_secs/from_fract range check","src/wins/timevalue.rs"),("convert_safely macro","src/wins/convert.rs")],
["TimeValue::from_*","IntoTimeValue"])

p("C11","floor and ceil give the nearest multiples of the period",
"For a positive period, floor gives the greatest multiple of the period not after the value and ceil the least multiple not before it, for durations and dates, negative ones included. When that multiple is out of range the result is the infinity on that side, and infinite values are returned unchanged.",
["inputs"],"all values and all positive periods",
"Tests check eleven small pairs; the extremes, period larger than the value, exact multiples around zero and infinities are not covered.",
["src/wins/timevalue.rs","src/wins/timestamp.rs"],
[("sign-split integer division","src/wins/timevalue.rs")],
["TimeValue::floor/ceil","Timestamp::floor/ceil"])

p("C12","Conversions with std and chrono types are faithful within a nanosecond",
"Converting a finite duration or date to and from std durations, chrono durations, naive date-times and zoned date-times preserves it to within one nanosecond per conversion, preserves order, and seconds plus sub-second fields describe the same value with fields in range. Foreign durations and dates beyond the representable range become the infinity of their sign; those inside it never do. The present date and elapsed times are those of the system clock.",
["inputs"],"all representable durations and dates, all foreign durations and dates including extremes, negative values and sub-second parts",
"No test converts to or from std or chrono types.",
["src/wins/timevalue.rs","src/wins/timestamp.rs"],
[("From impls","src/wins/timevalue.rs, src/wins/timestamp.rs"),("as_secs/subsec_* fixed-point arithmetic","src/wins/timevalue.rs")],
["From/Into for std::time::Duration, chrono::Duration, NaiveDateTime, DateTime","as_secs, subsec_*, to_duration, to_datetime, Timestamp::now"])

p("C13","Printed forms of durations and windows denote the value they print",
"The text of a finite duration is a sum of units, largest first, each below the next larger unit, that adds up to the duration to the nanosecond, with a leading minus for negative ones; infinities print as +oo and -oo. The display, debug and date-formatted text of an interval or set lists its pieces in order with brackets telling unbounded sides, singletons and emptiness, so distinct windows never print alike in debug form and the window can be read back from the text. The text of a scheduler gives, in the same notation, one line per instant in order, that of a graph one line per constraint (in debug form, the matrix of least distances), that of a constraint its two instants and its window.",
["inputs"],"all durations and windows",
"A few strings are compared in tests (two such checks are even commented out); boundary values of each unit are not covered.",
["src/wins/format.rs","src/graph/scheduler.rs","src/graph/storage.rs","src/graph/constraints.rs"],
[("format_duration unit peeling","src/wins/format.rs"),("bracket selection","src/wins/format.rs")],
["Display, Debug, format_timeset, format_timepoint"])

p("C14","Periodic date sequences enumerate exactly the announced dates",
"A forward (backward) sequence from date t with period p yields t, t+p, t+2p, ... (t, t-p, ...) in order until the end of the representable range, then nothing for ever; the period-aligned variants start at the first multiple of p at or after (at or before) t. Skipping with nth, counting, last and size_hint agree with stepping one by one, from any position in the sequence. The date of a sequence itself (timestamp) is the last one it emitted. A period that is not strictly positive and an infinite start are refused by a panic when the sequence is made.",
["inputs","histories"],"all start dates and positive periods, every mix of next and nth calls, positions up to the end of the range",
"Sequences have no test.",
["src/seq/forward.rs","src/seq/backward.rs","src/seq/mod.rs"],
[("cursor of the last emitted date","src/seq/mod.rs"),("len arithmetic","src/seq/forward.rs, src/seq/backward.rs")],
["Timestamp::forward_sequence, backward_sequence, forward_periods, backward_periods"])

p("C15","A propagated graph is the minimal network of the accepted constraints",
"After any history of constraint additions (accepted or rejected, on instants already known or not, in any order), the window read between any two instants is exactly the tightest one implied by all the constraints accepted so far: every value in it occurs in some solution, and no solution has a value outside it. In particular the window from j to i is the opposite of the one from i to j, and an instant is at distance 0 of itself. Windows being bounded by representable durations, an implied bound beyond them is no upper bound at all.",
["histories"],"all histories of additions over the instants, with lower-only, upper-only, two-sided, point, reversed-pair, self and implied constraints",
"Two tests add at most three constraints and look at report codes only, never at the propagated windows.",
["src/graph/propagation.rs","src/graph/storage.rs","src/graph/constraints.rs"],
[("incremental two-phase propagation","src/graph/propagation.rs"),("packed square matrix indexing","src/graph/storage.rs")],
["TimeGraph::propagate","TimeGraph::timespan","TimeGraph::constraint"],
[("TimeGraph.data","packed matrix of lower bounds","src/graph/mod.rs")])

p("C16","Inconsistent additions are refused without side effect; reports are true",
"Adding a constraint succeeds iff it is jointly satisfiable with those already accepted (one that would force two instants further apart than any representable duration is not). On success the report is Unchanged iff no window and no size of the graph changed, and Propagated otherwise; on a Recovered error the graph is left exactly as before, and after a Fatal error it is emptied and behaves thereafter as a new graph.",
["histories"],"all histories of additions, batches and merges including contradictory, empty and self constraints, and continued use after an error",
"No test adds an inconsistent constraint.",
["src/graph/propagation.rs","src/graph/storage.rs"],
[("consistency pre-check against the opposite bound","src/graph/propagation.rs"),("Fatal reset","src/graph/propagation.rs")],
["TimePropagationResult of propagate, extend, merge; graph state afterwards"])

p("C17","Adding in batch or merging equals adding constraints one by one",
"Extending a graph by a collection of constraints, collecting a graph from constraints, or merging two graphs yields the same windows as adding the same constraints one by one, in any order and whatever the kind of iterator supplying them; it fails exactly when the conjunction is unsatisfiable. The instants of the result are those of both operands.",
["histories","inputs"],"all pairs of reachable graphs and all short constraint lists, in every order, with exact, loose or unknown iterator size hints",
"One test extends an empty graph from another one without reading the result; merge is never tested.",
["src/graph/propagation.rs","src/graph/constraints.rs"],
[("global Floyd-Warshall propagation","src/graph/propagation.rs"),("size_hint shortcuts in extend","src/graph/propagation.rs"),("swap of operands in merge","src/graph/propagation.rs")],
["TimeGraph::extend, merge, from_iter, Extend"])

p("C18","Resizing, shrinking and resetting keep exactly the remaining instants' windows",
"Growing a graph adds instants unrelated to all others and changes no window; reducing it keeps the windows between remaining instants, and growing it again brings back nothing. shrink_to_fit removes exactly the trailing instants that have no constraint, shrink_to changes nothing observable, reset forgets every constraint but keeps the size, and a clone is independent of its origin. A number of instants too large to be indexed (more than 65535) is refused by a panic which leaves the graph as it was.",
["histories"],"all interleavings of resizing, shrinking, resetting, cloning, merging and adding constraints",
"One test calls resize and shrink_to_fit without looking at the result.",
["src/graph/storage.rs"],
[("prefix-stable packed matrix","src/graph/storage.rs"),("trailing row scan of shrink_to_fit","src/graph/storage.rs")],
["TimeGraph::resize, shrink_to_fit, shrink_to, reset, with_size, size, timespan"])

p("C19","All ways of reading a graph agree with each other",
"Iterating a graph yields each pair of instants that is actually constrained exactly once with the same window as a direct query; the constraints from (to) an instant are exactly those towards (from) each other instant it is constrained with, correctly oriented; iteration respects size_hint bounds and stays finished. Direct queries, instant comparison, distinctness, constraint equivalence and the printed form are functions of these windows, pairs with an instant outside the graph being unconstrained, and rebuilding a graph from its iterated constraints gives the same windows.",
["histories","inputs"],"all reachable graphs, all pairs of instants inside and outside the graph, every prefix of iteration",
"The iterators are used in one test without looking at what they yield.",
["src/graph/constraints.rs","src/graph/storage.rs","src/graph/mod.rs"],
[("row/column cursors of the constraint iterators","src/graph/constraints.rs"),("packed index arithmetic","src/graph/storage.rs")],
["TimeGraph::iter, constraints_from, constraints_to, constraint, timespan, instant_cmp, are_distinct_instants, Display"])

p("C20","Scheduling never discards a date that belongs to a solution",
"For any graph and any history of accepted scheduling restrictions (retain, remove, startline, deadline; convex or in several pieces), each instant's slots still contain every date it takes in some assignment satisfying the graph and all accepted restrictions. A restriction is refused only if no assignment of finite dates satisfies it together with the previous ones.",
["histories"],"all small graphs and all histories of restrictions",
"The only scheduler test sets one startline and one deadline and looks at the report code.",
["src/graph/scheduler.rs"],
[("one-step propagation along the minimal network","src/graph/scheduler.rs")],
["TimeScheduler::retain, remove, set_startline, set_deadline, scheduling, schedule"])

p("C21","Scheduling keeps only feasible dates and detects infeasibility",
"When every accepted restriction is convex, each instant's slots are exactly the dates it takes in some assignment satisfying the graph and all accepted restrictions. With restrictions in several pieces, an accepted history always leaves at least one such assignment and every instant with at least one slot; the earliest kept dates together form one, and so do the latest kept dates when they are finite.",
["histories"],"all small graphs and all histories of restrictions",
"The only scheduler test never reads a slot; infeasibility through a third instant or through gaps needs several restrictions in combination.",
["src/graph/scheduler.rs"],
[("propagation of the changed slot to every related instant","src/graph/scheduler.rs")],
["TimeScheduler::scheduling, schedule, results of retain/remove/set_*"])

p("C22","Scheduler reports are true, refusals are side-effect free, schedulers isolated",
"A scheduling restriction reports Unchanged iff no slot of any instant changed and Propagated otherwise; when refused, it is reported as recovered and every slot of every instant is exactly as before. Restricting an instant the scheduler does not know is refused by a panic. Cloned schedulers and schedulers sharing one graph never influence each other or the graph, and a new scheduler leaves every instant completely free.",
["histories"],"all histories of restrictions over several schedulers sharing a graph, refused ones included",
"No test makes a restriction fail, repeats one or uses two schedulers.",
["src/graph/scheduler.rs"],
[("contains/overlaps pre-checks","src/graph/scheduler.rs")],
["TimePropagationResult of retain/remove/set_startline/set_deadline; schedule() before and after"])

p("C23","Deadlines and startlines bound every instant, and the horizon queries are right",
"set_deadline(d) (set_startline(s)) behaves exactly like restricting every instant to dates at or before d (at or after s) in any order, succeeding iff that is jointly feasible and never panicking. latest_beginning is the least upper bound over the instants and earliest_ending the greatest lower bound over the instants.",
["histories"],"all small graphs, all prior restriction histories, all deadlines and startlines",
"One startline and one deadline on fresh convex slots are tested, without reading the slots.",
["src/graph/scheduler.rs"],
[("feasibility pre-check followed by unwrapped retains","src/graph/scheduler.rs")],
["TimeScheduler::set_deadline, set_startline, latest_beginning, earliest_ending"])

p("C24","Serialization round-trips every time structure",
"With the serde feature, serializing then deserializing (in any format, textual or binary) any duration, date, interval or time set yields an equal value, including infinities, extremes and the empty set.",
["inputs"],"all values of the serializable types",
"No test exercises the serde feature beyond compiling it.",
["src/wins/timevalue.rs","src/wins/timestamp.rs","src/wins/timeinterval.rs","src/wins/timeset.rs"],
[("derived Serialize/Deserialize","src/wins/*.rs")],
["serde_json round trip"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
