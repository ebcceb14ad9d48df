#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

SETS = ["src/bounded_set.rs", "src/lower_bounded_set.rs", "src/upper_bounded_set.rs", "src/unbounded_set.rs"]
RANGES = ["src/bounded_range.rs", "src/lower_bounded_range.rs", "src/upper_bounded_range.rs", "src/unbounded_range.rs", "src/empty_range.rs"]
PIECES = ("set pieces", "the ranges a set is made of: non-empty, non-overlapping, ascending, apart from an unbounded head or tail",
          "src/bounded_set.rs BoundedSet::ranges and the sets that embed it")

p("C01", "Intersection contains exactly the common elements",
  "For any two ranges or sets, of any of the std or crate types and however they were obtained, `a.intersection(b)` contains an element exactly when both a and b contain it. This holds for every ordered Copy element type, at the smallest and largest values of the type, and for any number of pieces in the operands.",
  ["inputs", "histories"], "every pair of values over every combination of the 15 range/set types, every relative position of their bounds (included/excluded, touching, nested, inverted), every way the operands were built",
  "The tests compare a few hand-picked pairs per type combination, mostly sets of one or two pieces; the relative positions of the bounds of two multi-piece sets are combinatorial (LowerBoundedSet with LowerBoundedSet was wrong and the tests passed).",
  ["src/implementations/intersection/*.rs", *SETS],
  [("per-type-pair RangeIntersection impls: max of lower bounds, min of upper bounds, piecewise for sets", "src/implementations/intersection/"),
   ("delegation to the swapped pair for half of the combinations", "src/implementations/intersection/")],
  ["contains on the result of intersection"], [PIECES])
p("C02", "Union contains exactly the elements of either operand",
  "For any two ranges or sets, of any of the std or crate types and however they were obtained, `a.union(b)` contains an element exactly when a or b contains it: nothing in a gap between the operands is ever added and nothing is dropped when ranges are merged. This holds for every ordered Copy element type and for any number of pieces in the operands.",
  ["inputs", "histories"], "every pair of values over every combination of the 15 range/set types, every relative position of bounds, every sequence of earlier operations",
  "Merging depends on which of many pieces overlap and in what order they are absorbed; tests sample a handful of pairs with one or two pieces.",
  ["src/implementations/union/*.rs", *SETS],
  [("add_range absorbs every overlapping piece and inserts in order", "src/bounded_set.rs add_range"),
   ("combine takes the smaller lower and larger upper bound", "src/bounded_range.rs combine"),
   ("defragment lets an unbounded head/tail swallow pieces", "src/lower_bounded_set.rs, src/upper_bounded_set.rs, src/unbounded_set.rs defragment")],
  ["contains on the result of union"], [PIECES])
p("C03", "Complement contains exactly what the original does not",
  "For every range or set a, `a.complement()` contains an element exactly when a does not. Consequently complementing twice restores the members, a and its complement are disjoint and their union contains everything, and De Morgan's laws hold between complement, union and intersection.",
  ["inputs", "histories"], "every value of every type, including multi-piece sets, touching pieces, inverted ranges, and the results of earlier operations",
  "Complement of a set folds intersections over all pieces; tests check single examples with few pieces.",
  ["src/implementations/complement/*.rs", "src/implementations/intersection/*.rs", "src/unbounded_set.rs", "src/bound.rs"],
  [("bounds are flipped between included and excluded", "src/bound.rs flipped; src/implementations/complement/"),
   ("set complement is a fold of intersections of piece complements", "src/implementations/complement/bounded_set.rs and siblings")],
  ["contains on the result of complement"], [PIECES])
p("C04", "Emptiness, disjointness and intersecting agree with the bounds",
  "`is_empty` is true exactly when the bounds leave no room for any element on an ordered line (start bound above end bound in every piece), so an empty value contains nothing and a value that contains something is never empty. `a.disjoint(b)` is true exactly when the intersection of a and b is empty, `a.intersects(b)` is its negation, and both are symmetric.",
  ["inputs", "histories"], "every value and every pair of values of all types, in particular bounds that touch at one point with every included/excluded combination, inverted ranges and exhausted inclusive ranges",
  "Off-by-one errors at touching bounds depend on the combination of four included/excluded bounds and two types; tests cover a few of these.",
  ["src/implementations/rangetools/*.rs", "src/lib.rs", "src/bound.rs", "src/implementations/intersection/*.rs"],
  [("is_empty compares the two bounds", "src/implementations/rangetools/bounded_range.rs and siblings"),
   ("disjoint is intersection followed by is_empty", "src/lib.rs Rangetools::disjoint")],
  ["is_empty, disjoint, intersects"])
p("C05", "Equality and hash of sets do not depend on how a set was built",
  "Sets made of the same ranges compare equal and hash equally whatever sequence and order of operations produced them, so union and intersection are commutative, associative and idempotent up to `==`; pieces are always kept apart, non-empty and in order, however operations are interleaved. Values whose members differ never compare equal.",
  ["histories", "inputs"], "every order of uniting the same ranges, every detour through intersection/complement that ends in the same ranges, every pair of values with different members",
  "Tests assert equality after one fixed order of operations; the guarantee is about all orders, which multiply factorially.",
  [*SETS, "src/implementations/union/*.rs", "src/implementations/intersection/*.rs"],
  [("derived PartialEq/Hash over a canonical list of pieces", "src/bounded_set.rs and the other sets"),
   ("sorted insertion and absorption keep the list canonical", "src/bounded_set.rs add_range; defragment in the other sets")],
  ["==, Hash on sets"], [PIECES])
p("C06", "Forward iteration yields exactly the contained values in order",
  "Iterating a bounded range or bounded set forwards yields every contained value exactly once, in strictly ascending order, and nothing else, and afterwards keeps returning None. This holds for every element type with Step (all integers, char, user types), for included and excluded bounds, for empty and inverted ranges, and for ranges that touch the smallest or largest value of the type.",
  ["inputs", "histories"], "every bounded range and set over every Step type, including those at the extremes of the type and across the surrogate gap of char",
  "Tests collect a few small i32 ranges; behaviour at the limits of each type (where stepping overflows) is not reached.",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/step.rs", "src/empty_range.rs"],
  [("first and last value computed from the bounds, then stepped", "src/bounded_range.rs IntoIterator, BoundedRangeIter::next"),
   ("exhausted pieces are dropped from the front", "src/bounded_set.rs BoundedSetIter::next")],
  ["into_iter().next() and adapters built on it"],
  [("iterator position", "what remains to be produced from each end", "src/bounded_range.rs BoundedRangeIter; src/bounded_set.rs BoundedSetIter")])
p("C07", "Double-ended iteration never duplicates or loses a value",
  "For bounded ranges and sets, any interleaving of next, next_back, nth and nth_back (with any argument up to usize::MAX) behaves like the same calls on the ascending list of the contained values: each value is produced at most once, skipped values stay skipped, the two ends never cross, and an exhausted iterator stays exhausted from both ends. A clone of an iterator continues independently from the same point.",
  ["histories", "inputs"], "every sequence of calls from both ends over every bounded range/set and Step type",
  "The number of interleavings grows exponentially; the tests run a few straight-line sequences.",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/step.rs"],
  [("remaining interval shrinks from both sides", "src/bounded_range.rs BoundedRangeIter"),
   ("nth/nth_back drop whole pieces by size, then index into a piece", "src/bounded_set.rs BoundedSetIter::nth, nth_back")],
  ["next, next_back, nth, nth_back"],
  [("iterator position", "what remains to be produced from each end", "src/bounded_range.rs BoundedRangeIter; src/bounded_set.rs BoundedSetIter")])
p("C08", "Iterator sizes and shortcuts agree with what iteration would yield",
  "At every point of the life of a bounded iterator, size_hint and len report exactly the number of values still to come (or a lower bound with no upper bound when that number does not fit usize), and count, last, min and max return what walking the remaining values would return, without walking them. Lower-bounded iterators never report an upper limit.",
  ["histories", "inputs"], "every partially consumed bounded iterator over every Step type, including ranges with more than usize::MAX values",
  "Tests check len on fresh small iterators only; sizes after mixed consumption and on 64/128-bit wide ranges are out of reach of walking.",
  ["src/bounded_range.rs", "src/bounded_set.rs", "src/lower_bounded_range.rs", "src/lower_bounded_set.rs", "src/step.rs"],
  [("size from Step::steps_between, summed over pieces", "src/bounded_range.rs size_hint; src/bounded_set.rs size_hint"),
   ("min/max/last/count overridden", "src/bounded_range.rs, src/bounded_set.rs Iterator impls")],
  ["size_hint, len, count, last, min, max"])
p("C09", "Lower-bounded iteration yields the contained values from the bottom",
  "Iterating a lower-bounded range or set yields all contained values in ascending order without gap, duplicate or early end: first every value of the bounded pieces, then the values of the unbounded tail, up to and including the largest value of the type (only a step beyond that is left to the type). nth skips exactly n values, wherever they fall, and min is the first value.",
  ["histories", "inputs"], "every LowerBoundedRange/LowerBoundedSet, every sequence of next/nth calls that does not step past the largest value of the element type",
  "Tests take a short prefix of a few examples; nth across piece boundaries and into the tail depends on piece sizes and position.",
  ["src/lower_bounded_range.rs", "src/lower_bounded_set.rs", "src/bounded_set.rs"],
  [("bounded pieces first, then the tail", "src/lower_bounded_set.rs LowerBoundedSetIter::next"),
   ("nth subtracts the number of bounded values left", "src/lower_bounded_set.rs LowerBoundedSetIter::nth")],
  ["next, nth, min, size_hint"])
p("C10", "Conversions between std and crate ranges keep the members",
  "Converting a std range into the corresponding crate range, or a crate range back into a std range, gives a range with exactly the same members, also for excluded starts, inverted and exhausted ranges, the empty range, and bounds at the smallest or largest value of the type. If the target type cannot express the range the conversion panics, in every build profile, instead of returning a range with other members.",
  ["inputs", "configurations"], "every range over every Step type, every included/excluded combination, in builds with and without overflow checks",
  "Tests convert a few i32 examples away from the limits and only in one build profile.",
  ["src/bounded_range.rs", "src/lower_bounded_range.rs", "src/upper_bounded_range.rs", "src/unbounded_range.rs", "src/empty_range.rs"],
  [("excluded starts / included ends are stepped by one", "From impls in src/*_range.rs"),
   ("checked steps with an explicit empty result or panic at the limits", "From impls in src/*_range.rs")],
  ["From/Into between the types, then contains"])
p("C11", "Indexing with crate ranges equals indexing with the std range",
  "Indexing a Vec, slice, String, str (and CStr, CString, OsString where offered) with a crate range selects exactly the elements a std range with the same members selects, immutably and mutably, and panics exactly when that std range is out of bounds, inverted past the end, or off a character boundary. A mutable index gives access to those elements and no others.",
  ["inputs"], "every container length and content, every bound combination up to usize::MAX, every character boundary layout",
  "Tests index one container with one or two ranges per type and never at the failure boundary of every bound combination.",
  ["src/implementations/index/*.rs", "src/bounded_range.rs", "src/lower_bounded_range.rs", "src/upper_bounded_range.rs", "src/empty_range.rs"],
  [("the crate range is converted to a std range and forwarded", "src/implementations/index/")],
  ["Index::index, IndexMut::index_mut"])
p("C12", "Step arithmetic is exact for every built-in element type",
  "For every integer type and char, forward_checked(a, n) is the value exactly n successors above a, or None if there is no such value; backward_checked likewise below; steps_between(a, b) is the n with forward_checked(a, n) = b, or None if a > b or n does not fit usize. forward and backward, including the ones Step provides to a client type, agree with the checked versions whenever those succeed, and char steps skip the surrogate gap and only ever produce valid characters.",
  ["inputs"], "all start values and counts of all 12 integer types and char, and client types with the provided methods",
  "The product of values and counts is astronomically large; the crate has no tests of Step at type limits or the surrogate gap.",
  ["src/step.rs"],
  [("checked arithmetic after conversion of the count; wrapping for signed types", "src/step.rs step_integer_impls"),
   ("0x800 correction across the surrogate gap", "src/step.rs impl Step for char")],
  ["Step::{steps_between, forward_checked, backward_checked, forward, backward}"])
p("C13", "Bounds are ordered by the values they admit",
  "One lower bound is less than another exactly when it admits strictly more values (at equal values included comes before excluded), and one upper bound is greater exactly when it admits strictly more (included after excluded); the orders are total, consistent with equality, hash and min/max for totally ordered elements, and incomparable exactly when the elements are. Constructors, map, flipped and conversion to and from the plain bound keep the value and the included/excluded side (flipped inverts it).",
  ["inputs"], "every pair and triple of bounds over every ordered (or partially ordered) element type",
  "Tests compare a few pairs; the laws are over all pairs and triples and over partial orders such as floats with NaN.",
  ["src/bound.rs"],
  [("partial_cmp with a tie-break on included/excluded", "src/bound.rs PartialOrd for LowerBound, UpperBound")],
  ["<, cmp, partial_cmp, ==, map, flipped, to_bound"])
p("C14", "Serialising and deserialising gives back an equal value",
  "With the serde feature, every bound, range and set of the crate survives serialisation followed by deserialisation, in self-describing and binary formats alike: the result equals the original, has the same members, and behaves the same in every later operation.",
  ["inputs", "histories", "configurations"], "every value obtainable from any history, in any serde format",
  "The serde feature is not exercised by the tests at all.",
  ["src/bound.rs", *RANGES, *SETS, "Cargo.toml"],
  [("derived Serialize/Deserialize on all types", "cfg_attr derives in src/*.rs")],
  ["serde round trip, then ==, contains and further operations"])
p("C15", "Result types are exact: iterable exactly when bounded below",
  "The type of every result is determined by the operand types alone and is no less bounded than it must be: a union is bounded below (above) exactly when both operands are, an intersection exactly when at least one is, a complement is bounded on exactly the sides on which the original is not. Results are iterable exactly when they are bounded below, double-ended and exact-size exactly when bounded on both sides, and every operation is available for every combination of the 15 types and any Copy + Ord element.",
  ["programs", "inputs"], "all programs combining the 15 types with the operations",
  "Tests can only show that the combinations they contain compile, not that all do, nor that forbidden ones do not.",
  ["src/implementations/**/*.rs", "src/lib.rs", *RANGES, *SETS],
  [("associated Output types per pair of kinds", "src/implementations/intersection/, src/implementations/union/"),
   ("IntoIterator implemented only for lower-bounded types", "src/bounded_range.rs, src/lower_bounded_range.rs, sets")],
  ["static types of results, trait implementations"])
p("C16", "Operations always return, whatever the number and layout of pieces",
  "Union, intersection, complement, disjoint, is_empty, contains, equality and bounded iteration terminate with a result for every operand: no panic, no stack overflow, no endless loop, whatever the order of inputs, the number of pieces (thousands and more), empty, inverted or touching ranges, or how often operations are repeated.",
  ["histories", "inputs"], "every sequence of operations, any number of pieces and any order of insertion",
  "Tests build sets of at most a few pieces; recursion depth and internal assertions only fail on larger or odd layouts.",
  [*SETS, "src/bounded_range.rs", "src/implementations/**/*.rs"],
  [("merging is a loop that removes one piece per round", "src/bounded_set.rs add_range; defragment in the other sets"),
   ("combine asserts that the ranges overlap", "src/bounded_range.rs combine")],
  ["every public operation returns"], [PIECES])
p("C17", "Constructors, contains, to_inner and to_set agree on membership",
  "A range built from bounds contains exactly the values those bounds admit, for included and excluded bounds on either side, and converting any range to its generalised form or to its set form, or wrapping it in a set directly, never changes which values it contains. Building an unbounded set from an upper and a lower part contains exactly the values in either part.",
  ["inputs"], "every bound combination over every ordered Copy element type, every std and crate range type",
  "Four included/excluded combinations times relative order times type; tests check a few per type.",
  [*RANGES, *SETS, "src/implementations/rangetools/*.rs"],
  [("contains compares with the bound's own inclusivity", "src/bounded_range.rs contains and siblings"),
   ("to_inner/to_set rewrap the bounds", "src/implementations/rangetools/")],
  ["new, From, to_inner, to_set, contains"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
