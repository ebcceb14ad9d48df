----------------------------- MODULE IterModel -----------------------------
(***************************************************************************)
(* The iterators of rangetools, written in the shape of the implementation *)
(* (BoundedRangeIter: the next value from either end, if T has one;        *)
(* BoundedSetIter: a deque of those, drained from either end).  T is the   *)
(* discrete type TMin .. TMax; the points 0 .. N-1 of RangeAlgebra are     *)
(* consecutive values of it, so TMin = 0 / TMax = N-1 puts them at the     *)
(* very edge of the type.                                                  *)
(***************************************************************************)
EXTENDS RangeAlgebra, TLC

CONSTANTS Below, TMax           \* values of T below the points; largest value
TMin == 0 - Below

NONE == 0 - 100                  \* "no such value" (Option::None)
Huge == 1000                     \* any argument larger than every count

(* Step for T *)
Fwd(v, n) == IF v + n <= TMax THEN v + n ELSE NONE
Bwd(v, n) == IF v - n >= TMin THEN v - n ELSE NONE

(* a value of T as first/last admitted by a bound position *)
FirstVal(lo) == IF lo % 2 = 1 THEN (lo - 1) \div 2 ELSE Fwd((lo \div 2) - 1, 1)
LastVal(hi)  == IF hi % 2 = 1 THEN (hi - 1) \div 2 ELSE Bwd(hi \div 2, 1)

(***************************************************************************)
(* BoundedRangeIter = <<current, last>>.  Every call returns               *)
(* <<result, new iterator>>.                                               *)
(***************************************************************************)
RNew(lo, hi) == <<FirstVal(lo), LastVal(hi)>>
RAny(i)      == i[1] # NONE /\ i[2] # NONE /\ i[1] <= i[2]
RRem(i)      == IF RAny(i) THEN i[1] .. i[2] ELSE {}
RSize(i)     == IF RAny(i) THEN i[2] - i[1] + 1 ELSE 0
RNext(i)     == IF RAny(i) THEN <<i[1], <<Fwd(i[1], 1), i[2]>> >> ELSE <<NONE, i>>
RBack(i)     == IF RAny(i) THEN <<i[2], <<i[1], Bwd(i[2], 1)>> >> ELSE <<NONE, i>>
RNth(i, n)   == RNext(<<IF i[1] = NONE THEN NONE ELSE Fwd(i[1], n), i[2]>>)
RNthBack(i, n) == RBack(<<i[1], IF i[2] = NONE THEN NONE ELSE Bwd(i[2], n)>>)
RLast(i)     == IF RAny(i) THEN i[2] ELSE NONE

(***************************************************************************)
(* BoundedSetIter = a sequence of range iterators.                         *)
(***************************************************************************)
SNew(rs) == [ j \in 1 .. Len(rs) |-> RNew(rs[j][1], rs[j][2]) ]
SRem(s)  == UNION { RRem(s[j]) : j \in DOMAIN s }
RECURSIVE SSize(_)
SSize(s) == IF s = <<>> THEN 0 ELSE RSize(Head(s)) + SSize(Tail(s))
Front(s) == SubSeq(s, 1, Len(s) - 1)
LastOf(s) == s[Len(s)]
RECURSIVE DropFront(_)
DropFront(s) == IF s # <<>> /\ RSize(Head(s)) = 0 THEN DropFront(Tail(s)) ELSE s
RECURSIVE DropBack(_)
DropBack(s) == IF s # <<>> /\ RSize(LastOf(s)) = 0 THEN DropBack(Front(s)) ELSE s
SNext(s0) ==
    LET s == DropFront(s0) IN
    IF s = <<>> THEN <<NONE, s>>
    ELSE LET r == RNext(Head(s)) IN <<r[1], <<r[2]>> \o Tail(s)>>
SBack(s0) ==
    LET s == DropBack(s0) IN
    IF s = <<>> THEN <<NONE, s>>
    ELSE LET r == RBack(LastOf(s)) IN <<r[1], Front(s) \o <<r[2]>> >>
RECURSIVE SNth(_, _)
SNth(s, n) ==
    IF s = <<>> THEN <<NONE, s>>
    ELSE IF RSize(Head(s)) <= n THEN SNth(Tail(s), n - RSize(Head(s)))
    ELSE LET r == RNth(Head(s), n) IN <<r[1], <<r[2]>> \o Tail(s)>>
RECURSIVE SNthBack(_, _)
SNthBack(s, n) ==
    IF s = <<>> THEN <<NONE, s>>
    ELSE IF RSize(LastOf(s)) <= n THEN SNthBack(Front(s), n - RSize(LastOf(s)))
    ELSE LET r == RNthBack(LastOf(s), n) IN <<r[1], Front(s) \o <<r[2]>> >>
SLast(s0) == LET s == DropBack(s0) IN IF s = <<>> THEN NONE ELSE RLast(LastOf(s))

(***************************************************************************)
(* Iterators as clients see them: a range iterator or a set iterator.      *)
(***************************************************************************)
IterOf(v) == IF v.k = "BoundedRange" THEN [set |-> FALSE, i |-> RNew(v.lo, v.hi)]
             ELSE [set |-> TRUE, i |-> SNew(v.rs)]
Wrap(it, r) == <<r[1], [set |-> it.set, i |-> r[2]]>>
Call(it, op, n) ==
    Wrap(it, CASE op = "next"      -> IF it.set THEN SNext(it.i) ELSE RNext(it.i)
               [] op = "next_back" -> IF it.set THEN SBack(it.i) ELSE RBack(it.i)
               [] op = "nth"       -> IF it.set THEN SNth(it.i, n) ELSE RNth(it.i, n)
               [] op = "nth_back"  -> IF it.set THEN SNthBack(it.i, n) ELSE RNthBack(it.i, n))
Remaining(it) == IF it.set THEN SRem(it.i) ELSE RRem(it.i)
Size(it)      == IF it.set THEN SSize(it.i) ELSE RSize(it.i)
LastCall(it)  == IF it.set THEN SLast(it.i) ELSE RLast(it.i)
MinCall(it)   == Call(it, "next", 0)[1]
MaxCall(it)   == Call(it, "next_back", 0)[1]

(***************************************************************************)
(* What the client is entitled to: a walk over an ascending list.          *)
(***************************************************************************)
RECURSIVE Ascending(_, _)
Ascending(S, v) == IF v > TMax THEN <<>>
                   ELSE (IF v \in S THEN <<v>> ELSE <<>>) \o Ascending(S, v + 1)
AbsCall(rem, op, n) ==           \* <<result, remaining list>>
    CASE op = "next"      -> IF rem = <<>> THEN <<NONE, rem>> ELSE <<Head(rem), Tail(rem)>>
      [] op = "next_back" -> IF rem = <<>> THEN <<NONE, rem>> ELSE <<LastOf(rem), Front(rem)>>
      [] op = "nth"       -> IF n < Len(rem) THEN <<rem[n + 1], SubSeq(rem, n + 2, Len(rem))>>
                             ELSE <<NONE, <<>> >>
      [] op = "nth_back"  -> IF n < Len(rem) THEN <<rem[Len(rem) - n], SubSeq(rem, 1, Len(rem) - n - 1)>>
                             ELSE <<NONE, <<>> >>

Members(v) == { x \in Points : Contains(v, x) }
RECURSIVE MaskOf(_)
MaskOf(rem) == IF rem = <<>> THEN 0 ELSE 2 ^ Head(rem) + MaskOf(Tail(rem))
=============================================================================
