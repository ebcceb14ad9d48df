---------------------------- MODULE RangeAlgebra ----------------------------
(***************************************************************************)
(* The value domain of rangetools and every set-algebra operation of the   *)
(* crate, written in the shape of the implementation (which impl block     *)
(* delegates to which, add_range / combine / defragment, retain of empty   *)
(* pieces), together with the meaning every value must have.               *)
(*                                                                         *)
(* The element type T is only known to be a linear order, so bounds are    *)
(* placed on a line of POSITIONS.  With N distinguishable points           *)
(* 0 .. N-1:                                                               *)
(*        position 2v+1       the point v itself                           *)
(*        position 2v, 2v+2   the gaps below / above the point v           *)
(*        position 0 and 2N   everything below / above all points          *)
(* A lower bound is the first position it admits, an upper bound the last: *)
(*        Included(v) as lower: 2v+1      Excluded(v) as lower: 2v+2       *)
(*        Included(v) as upper: 2v+1      Excluded(v) as upper: 2v         *)
(* Module Bounds checks that this is exactly the order that the crate's    *)
(* LowerBound / UpperBound comparisons implement.  Because the crate never *)
(* looks at T except through comparisons, a statement that holds for       *)
(* positions holds for every T and every order embedding of the points     *)
(* (gaps of a discrete T are simply not inhabited).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT N                       \* number of distinguishable points

Points    == 0 .. (N - 1)
Positions == 0 .. (2 * N)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(***************************************************************************)
(* Bounds as positions.                                                    *)
(***************************************************************************)
LoInc(v) == 2 * v + 1
LoExc(v) == 2 * v + 2
HiInc(v) == 2 * v + 1
HiExc(v) == 2 * v

LoBounds == 1 .. (2 * N)         \* every LowerBound over Points
HiBounds == 0 .. (2 * N - 1)     \* every UpperBound over Points

\* Bound::flipped on the inner Bound, re-read as the opposite side:
\* a lower bound admitting p.. becomes the upper bound admitting ..p-1.
FlipLo(lo) == lo - 1
FlipHi(hi) == hi + 1

(***************************************************************************)
(* Values.  A piece <<lo, hi>> is a BoundedRange held inside a set.        *)
(***************************************************************************)
Range(s, e)          == [k |-> "Range", s |-> s, e |-> e]
RangeInclusive(s, e, x) == [k |-> "RangeInclusive", s |-> s, e |-> e, x |-> x]
RangeFrom(s)         == [k |-> "RangeFrom", s |-> s]
RangeTo(e)           == [k |-> "RangeTo", e |-> e]
RangeToInclusive(e)  == [k |-> "RangeToInclusive", e |-> e]
RangeFull            == [k |-> "RangeFull"]
BoundedRange(lo, hi) == [k |-> "BoundedRange", lo |-> lo, hi |-> hi]
LowerBoundedRange(lo) == [k |-> "LowerBoundedRange", lo |-> lo]
UpperBoundedRange(hi) == [k |-> "UpperBoundedRange", hi |-> hi]
UnboundedRange       == [k |-> "UnboundedRange"]
EmptyRange           == [k |-> "EmptyRange"]
BoundedSet(rs)       == [k |-> "BoundedSet", rs |-> rs]
LowerBoundedSet(rs, lo) == [k |-> "LowerBoundedSet", rs |-> rs, lo |-> lo]
UpperBoundedSet(hi, rs) == [k |-> "UpperBoundedSet", hi |-> hi, rs |-> rs]
FullSet              == [k |-> "UnboundedSet", full |-> TRUE]
PiecewiseSet(hi, rs, lo) ==
    [k |-> "UnboundedSet", full |-> FALSE, hi |-> hi, rs |-> rs, lo |-> lo]

StdKinds == {"Range", "RangeInclusive", "RangeFrom", "RangeTo",
             "RangeToInclusive", "RangeFull"}
CrateRangeKinds == {"BoundedRange", "LowerBoundedRange", "UpperBoundedRange",
                    "UnboundedRange", "EmptyRange"}
SetKinds == {"BoundedSet", "LowerBoundedSet", "UpperBoundedSet", "UnboundedSet"}
Kinds    == StdKinds \cup CrateRangeKinds \cup SetKinds

(***************************************************************************)
(* MEANING.  The set of positions a value denotes.  This is the abstract   *)
(* specification; nothing below it depends on how the code is organised.   *)
(***************************************************************************)
Interval(lo, hi) == lo .. hi
PiecesDen(rs) == UNION { Interval(rs[i][1], rs[i][2]) : i \in DOMAIN rs }

Den(v) ==
    CASE v.k = "Range"             -> Interval(LoInc(v.s), HiExc(v.e))
      [] v.k = "RangeInclusive"    -> IF v.x THEN {} ELSE Interval(LoInc(v.s), HiInc(v.e))
      [] v.k = "RangeFrom"         -> Interval(LoInc(v.s), 2 * N)
      [] v.k = "RangeTo"           -> Interval(0, HiExc(v.e))
      [] v.k = "RangeToInclusive"  -> Interval(0, HiInc(v.e))
      [] v.k = "RangeFull"         -> Positions
      [] v.k = "BoundedRange"      -> Interval(v.lo, v.hi)
      [] v.k = "LowerBoundedRange" -> Interval(v.lo, 2 * N)
      [] v.k = "UpperBoundedRange" -> Interval(0, v.hi)
      [] v.k = "UnboundedRange"    -> Positions
      [] v.k = "EmptyRange"        -> {}
      [] v.k = "BoundedSet"        -> PiecesDen(v.rs)
      [] v.k = "LowerBoundedSet"   -> PiecesDen(v.rs) \cup Interval(v.lo, 2 * N)
      [] v.k = "UpperBoundedSet"   -> PiecesDen(v.rs) \cup Interval(0, v.hi)
      [] v.k = "UnboundedSet"      ->
             IF v.full THEN Positions
             ELSE PiecesDen(v.rs) \cup Interval(0, v.hi) \cup Interval(v.lo, 2 * N)

Contains(v, x) == LoInc(x) \in Den(v)

(***************************************************************************)
(* is_empty, as each impl computes it.                                     *)
(***************************************************************************)
PieceEmpty(p) == p[1] > p[2]

IsEmpty(v) ==
    CASE v.k = "Range"          -> v.s >= v.e
      [] v.k = "RangeInclusive" -> v.x \/ v.s > v.e
      [] v.k = "BoundedRange"   -> v.lo > v.hi
      [] v.k = "EmptyRange"     -> TRUE
      [] v.k = "BoundedSet"     -> \A i \in DOMAIN v.rs : PieceEmpty(v.rs[i])
      [] OTHER                  -> FALSE

(***************************************************************************)
(* to_inner and to_set.                                                    *)
(***************************************************************************)
ToInner(v) ==
    CASE v.k = "Range"            -> BoundedRange(LoInc(v.s), HiExc(v.e))
      [] v.k = "RangeInclusive"   -> BoundedRange(LoInc(v.s), IF v.x THEN HiExc(v.e) ELSE HiInc(v.e))
      [] v.k = "RangeFrom"        -> LowerBoundedRange(LoInc(v.s))
      [] v.k = "RangeTo"          -> UpperBoundedRange(HiExc(v.e))
      [] v.k = "RangeToInclusive" -> UpperBoundedRange(HiInc(v.e))
      [] v.k = "RangeFull"        -> UnboundedRange
      [] OTHER                    -> v

ToSet(v) ==
    LET i == ToInner(v) IN
    CASE i.k = "BoundedRange"      -> IF i.lo > i.hi THEN BoundedSet(<<>>)
                                      ELSE BoundedSet(<< <<i.lo, i.hi>> >>)
      [] i.k = "LowerBoundedRange" -> LowerBoundedSet(<<>>, i.lo)
      [] i.k = "UpperBoundedRange" -> UpperBoundedSet(i.hi, <<>>)
      [] OTHER                     -> i       \* UnboundedRange, EmptyRange, sets

(***************************************************************************)
(* Piece lists (BoundedSet::ranges).                                       *)
(***************************************************************************)
PieceMeet(p, q)      == << Max2(p[1], q[1]), Min2(p[2], q[2]) >>
PieceIntersects(p, q) == ~PieceEmpty(PieceMeet(p, q))
PieceCombine(p, q)   == << Min2(p[1], q[1]), Max2(p[2], q[2]) >>

RemoveIdx(s, i)    == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertIdx(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
FirstIdx(S)        == CHOOSE i \in S : \A j \in S : i <= j

\* BoundedSet::add_range: absorb every overlapping piece, then insert before
\* the first piece that starts later.
RECURSIVE AddRange(_, _)
AddRange(rs, r) ==
    IF PieceEmpty(r) THEN rs
    ELSE LET hit == { i \in DOMAIN rs : PieceIntersects(rs[i], r) } IN
         IF hit # {}
         THEN LET i == FirstIdx(hit)
              IN  AddRange(RemoveIdx(rs, i), PieceCombine(r, rs[i]))
         ELSE LET later == { i \in DOMAIN rs : rs[i][1] > r[1] } IN
              InsertIdx(rs, IF later = {} THEN Len(rs) + 1 ELSE FirstIdx(later), r)

RECURSIVE AddPieces(_, _)
AddPieces(rs, ps) ==
    IF ps = <<>> THEN rs ELSE AddPieces(AddRange(rs, Head(ps)), Tail(ps))

\* Restrict every piece to <<lo, hi>> and retain the non-empty ones.
RECURSIVE RestrictPieces(_, _)
RestrictPieces(rs, p) ==
    IF rs = <<>> THEN <<>>
    ELSE LET m == PieceMeet(Head(rs), p)
             t == RestrictPieces(Tail(rs), p)
         IN  IF PieceEmpty(m) THEN t ELSE <<m>> \o t

NegInf == 0 - 1                  \* "no lower bound" for RestrictPieces
PosInf == 2 * N + 1              \* "no upper bound" for RestrictPieces

(***************************************************************************)
(* The other sets' mutators.                                               *)
(***************************************************************************)
\* LowerBoundedSet::defragment: the tail swallows pieces from the back.
RECURSIVE DefragLower(_)
DefragLower(s) ==
    IF s.rs = <<>> THEN s
    ELSE LET b == s.rs[Len(s.rs)] IN
         IF PieceEmpty(<<Max2(b[1], s.lo), b[2]>>) THEN s
         ELSE DefragLower(LowerBoundedSet(SubSeq(s.rs, 1, Len(s.rs) - 1),
                                          Min2(s.lo, b[1])))
LowerAddRange(s, r) == DefragLower(LowerBoundedSet(AddRange(s.rs, r), s.lo))
LowerAddTail(s, lo) == DefragLower(LowerBoundedSet(s.rs, Min2(s.lo, lo)))
RECURSIVE LowerAddPieces(_, _)
LowerAddPieces(s, ps) ==
    IF ps = <<>> THEN s ELSE LowerAddPieces(LowerAddRange(s, Head(ps)), Tail(ps))

\* UpperBoundedSet::defragment: the head swallows pieces from the front.
RECURSIVE DefragUpper(_)
DefragUpper(s) ==
    IF s.rs = <<>> THEN s
    ELSE LET f == s.rs[1] IN
         IF PieceEmpty(<<f[1], Min2(f[2], s.hi)>>) THEN s
         ELSE DefragUpper(UpperBoundedSet(Max2(s.hi, f[2]), Tail(s.rs)))
UpperAddRange(s, r) == DefragUpper(UpperBoundedSet(s.hi, AddRange(s.rs, r)))
UpperAddHead(s, hi) == DefragUpper(UpperBoundedSet(Max2(s.hi, hi), s.rs))
RECURSIVE UpperAddPieces(_, _)
UpperAddPieces(s, ps) ==
    IF ps = <<>> THEN s ELSE UpperAddPieces(UpperAddRange(s, Head(ps)), Tail(ps))

\* UnboundedSet::defragment.
RECURSIVE DefragPiecewise(_)
DefragPiecewise(s) ==
    LET up == { i \in DOMAIN s.rs : s.rs[i][1] <= s.hi }
        dn == { i \in DOMAIN s.rs : s.rs[i][2] >= s.lo }
    IN  IF up # {}
        THEN LET i == FirstIdx(up)
             IN  DefragPiecewise(PiecewiseSet(Max2(s.hi, s.rs[i][2]), RemoveIdx(s.rs, i), s.lo))
        ELSE IF dn # {}
        THEN LET i == FirstIdx(dn)
             IN  DefragPiecewise(PiecewiseSet(s.hi, RemoveIdx(s.rs, i), Min2(s.lo, s.rs[i][1])))
        ELSE s
Defrag(s) == IF s.full THEN s
             ELSE LET p == DefragPiecewise(s)
                  IN  IF p.lo <= p.hi THEN FullSet ELSE p
UnbAddRange(s, r) == IF s.full THEN s
                     ELSE Defrag(PiecewiseSet(s.hi, AddRange(s.rs, r), s.lo))
UnbAddTail(s, lo) == IF s.full THEN s ELSE Defrag(PiecewiseSet(s.hi, s.rs, Min2(s.lo, lo)))
UnbAddHead(s, hi) == IF s.full THEN s ELSE Defrag(PiecewiseSet(Max2(s.hi, hi), s.rs, s.lo))
RECURSIVE UnbAddPieces(_, _)
UnbAddPieces(s, ps) ==
    IF ps = <<>> THEN s ELSE UnbAddPieces(UnbAddRange(s, Head(ps)), Tail(ps))
UnbNew(hi, lo) == IF lo > hi THEN PiecewiseSet(hi, <<>>, lo) ELSE FullSet

(***************************************************************************)
(* UNION.  EmptyRange is a neutral element that leaves the OTHER operand's *)
(* type alone; every other combination goes through the set types.         *)
(***************************************************************************)
UnionSets(a, b) ==          \* a, b of set kind
    CASE a.k = "BoundedSet" /\ b.k = "BoundedSet" ->
            BoundedSet(AddPieces(a.rs, b.rs))
      [] a.k = "BoundedSet" /\ b.k = "LowerBoundedSet" -> LowerAddPieces(b, a.rs)
      [] a.k = "LowerBoundedSet" /\ b.k = "BoundedSet" -> LowerAddPieces(a, b.rs)
      [] a.k = "BoundedSet" /\ b.k = "UpperBoundedSet" -> UpperAddPieces(b, a.rs)
      [] a.k = "UpperBoundedSet" /\ b.k = "BoundedSet" -> UpperAddPieces(a, b.rs)
      [] a.k = "BoundedSet" /\ b.k = "UnboundedSet" -> UnbAddPieces(b, a.rs)
      [] a.k = "UnboundedSet" /\ b.k = "BoundedSet" -> UnbAddPieces(a, b.rs)
      [] a.k = "LowerBoundedSet" /\ b.k = "LowerBoundedSet" ->
            LowerAddPieces(LowerAddTail(a, b.lo), b.rs)
      [] a.k = "UpperBoundedSet" /\ b.k = "UpperBoundedSet" ->
            UpperAddPieces(UpperAddHead(a, b.hi), b.rs)
      [] a.k = "LowerBoundedSet" /\ b.k = "UpperBoundedSet" ->
            UnbAddPieces(UnbAddPieces(UnbNew(b.hi, a.lo), a.rs), b.rs)
      [] a.k = "UpperBoundedSet" /\ b.k = "LowerBoundedSet" ->
            UnbAddPieces(UnbAddPieces(UnbNew(a.hi, b.lo), b.rs), a.rs)
      [] a.k = "LowerBoundedSet" /\ b.k = "UnboundedSet" ->
            UnbAddPieces(UnbAddTail(b, a.lo), a.rs)
      [] a.k = "UnboundedSet" /\ b.k = "LowerBoundedSet" ->
            UnbAddPieces(UnbAddTail(a, b.lo), b.rs)
      [] a.k = "UpperBoundedSet" /\ b.k = "UnboundedSet" ->
            UnbAddPieces(UnbAddHead(b, a.hi), a.rs)
      [] a.k = "UnboundedSet" /\ b.k = "UpperBoundedSet" ->
            UnbAddPieces(UnbAddHead(a, b.hi), b.rs)
      [] a.k = "UnboundedSet" /\ b.k = "UnboundedSet" ->
            IF b.full THEN FullSet
            ELSE Defrag(UnbAddPieces(UnbAddHead(UnbAddTail(a, b.lo), b.hi), b.rs))

Union(a, b) ==
    IF a.k = "EmptyRange" THEN b
    ELSE IF b.k = "EmptyRange" THEN a
    ELSE LET sa == ToSet(a)
             sb == ToSet(b)
         IN  IF sa.k = "UnboundedRange" \/ sb.k = "UnboundedRange" THEN UnboundedRange
             ELSE UnionSets(sa, sb)

(***************************************************************************)
(* INTERSECTION.  Goes through the inner types.                            *)
(***************************************************************************)
RECURSIVE MeetPieces(_, _)
MeetPieces(rs, qs) ==            \* BoundedSet \cap BoundedSet: piece by piece, re-added
    IF rs = <<>> THEN <<>>
    ELSE AddPieces(RestrictPieces(qs, Head(rs)), MeetPieces(Tail(rs), qs))

Meet(a, b) ==                    \* a, b inner values
    CASE a.k = "EmptyRange" \/ b.k = "EmptyRange" -> EmptyRange
      [] a.k = "UnboundedRange" -> b
      [] b.k = "UnboundedRange" -> a
      [] a.k = "BoundedRange" /\ b.k = "BoundedRange" ->
            BoundedRange(Max2(a.lo, b.lo), Min2(a.hi, b.hi))
      [] a.k = "BoundedRange" /\ b.k = "LowerBoundedRange" ->
            BoundedRange(Max2(a.lo, b.lo), a.hi)
      [] a.k = "BoundedRange" /\ b.k = "UpperBoundedRange" ->
            BoundedRange(a.lo, Min2(a.hi, b.hi))
      [] a.k = "LowerBoundedRange" /\ b.k = "LowerBoundedRange" ->
            LowerBoundedRange(Max2(a.lo, b.lo))
      [] a.k = "UpperBoundedRange" /\ b.k = "UpperBoundedRange" ->
            UpperBoundedRange(Min2(a.hi, b.hi))
      [] a.k = "LowerBoundedRange" /\ b.k = "UpperBoundedRange" ->
            BoundedRange(a.lo, b.hi)
      [] a.k = "BoundedSet" /\ b.k = "BoundedRange" ->
            BoundedSet(RestrictPieces(a.rs, <<b.lo, b.hi>>))
      [] a.k = "BoundedSet" /\ b.k = "LowerBoundedRange" ->
            BoundedSet(RestrictPieces(a.rs, <<b.lo, PosInf>>))
      [] a.k = "BoundedSet" /\ b.k = "UpperBoundedRange" ->
            BoundedSet(RestrictPieces(a.rs, <<NegInf, b.hi>>))
      [] a.k = "BoundedSet" /\ b.k = "BoundedSet" ->
            BoundedSet(MeetPieces(a.rs, b.rs))
      [] a.k = "BoundedSet" /\ b.k = "LowerBoundedSet" ->
            BoundedSet(AddPieces(RestrictPieces(a.rs, <<b.lo, PosInf>>), MeetPieces(a.rs, b.rs)))
      [] a.k = "BoundedSet" /\ b.k = "UpperBoundedSet" ->
            BoundedSet(AddPieces(RestrictPieces(a.rs, <<NegInf, b.hi>>), MeetPieces(a.rs, b.rs)))
      [] a.k = "BoundedSet" /\ b.k = "UnboundedSet" ->
            IF b.full THEN a
            ELSE BoundedSet(AddPieces(AddPieces(RestrictPieces(a.rs, <<NegInf, b.hi>>),
                                                RestrictPieces(a.rs, <<b.lo, PosInf>>)),
                                      MeetPieces(a.rs, b.rs)))
      [] a.k = "LowerBoundedSet" /\ b.k = "BoundedRange" ->
            BoundedSet(AddPieces(RestrictPieces(<< <<b.lo, b.hi>> >>, <<a.lo, PosInf>>),
                                 RestrictPieces(a.rs, <<b.lo, b.hi>>)))
      [] a.k = "LowerBoundedSet" /\ b.k = "LowerBoundedRange" ->
            LowerBoundedSet(RestrictPieces(a.rs, <<b.lo, PosInf>>), Max2(a.lo, b.lo))
      [] a.k = "LowerBoundedSet" /\ b.k = "LowerBoundedSet" ->
            LowerAddPieces(
                LowerBoundedSet(RestrictPieces(a.rs, <<b.lo, PosInf>>), Max2(a.lo, b.lo)),
                AddPieces(RestrictPieces(b.rs, <<a.lo, PosInf>>), MeetPieces(b.rs, a.rs)))
      [] a.k = "LowerBoundedSet" /\ b.k = "UpperBoundedRange" ->
            BoundedSet(AddPieces(RestrictPieces(<< <<a.lo, b.hi>> >>, <<NegInf, PosInf>>),
                                 RestrictPieces(a.rs, <<NegInf, b.hi>>)))
      [] a.k = "LowerBoundedSet" /\ b.k = "UpperBoundedSet" ->
            BoundedSet(AddPieces(
                AddPieces(RestrictPieces(<< <<a.lo, b.hi>> >>, <<NegInf, PosInf>>),
                          RestrictPieces(a.rs, <<NegInf, b.hi>>)),
                AddPieces(RestrictPieces(b.rs, <<a.lo, PosInf>>), MeetPieces(b.rs, a.rs))))
      [] a.k = "LowerBoundedSet" /\ b.k = "UnboundedSet" ->
            IF b.full THEN a
            ELSE LowerAddPieces(LowerAddPieces(
                    LowerBoundedSet(RestrictPieces(a.rs, <<b.lo, PosInf>>), Max2(a.lo, b.lo)),
                    AddPieces(RestrictPieces(<< <<a.lo, b.hi>> >>, <<NegInf, PosInf>>),
                              RestrictPieces(a.rs, <<NegInf, b.hi>>))),
                    AddPieces(RestrictPieces(b.rs, <<a.lo, PosInf>>), MeetPieces(b.rs, a.rs)))
      [] a.k = "UpperBoundedSet" /\ b.k = "BoundedRange" ->
            BoundedSet(AddPieces(RestrictPieces(<< <<b.lo, b.hi>> >>, <<NegInf, a.hi>>),
                                 RestrictPieces(a.rs, <<b.lo, b.hi>>)))
      [] a.k = "UpperBoundedSet" /\ b.k = "LowerBoundedRange" ->
            BoundedSet(AddPieces(RestrictPieces(<< <<b.lo, a.hi>> >>, <<NegInf, PosInf>>),
                                 RestrictPieces(a.rs, <<b.lo, PosInf>>)))
      [] a.k = "UpperBoundedSet" /\ b.k = "UpperBoundedRange" ->
            UpperAddPieces(UpperBoundedSet(Min2(a.hi, b.hi), <<>>),
                           RestrictPieces(a.rs, <<NegInf, b.hi>>))
      [] a.k = "UpperBoundedSet" /\ b.k = "UpperBoundedSet" ->
            UpperAddPieces(
                UpperAddPieces(UpperBoundedSet(Min2(a.hi, b.hi), <<>>),
                               RestrictPieces(a.rs, <<NegInf, b.hi>>)),
                AddPieces(RestrictPieces(b.rs, <<NegInf, a.hi>>), MeetPieces(b.rs, a.rs)))
      [] a.k = "UpperBoundedSet" /\ b.k = "UnboundedSet" ->
            IF b.full THEN a
            ELSE UpperAddPieces(UpperAddPieces(
                    UpperAddPieces(UpperBoundedSet(Min2(a.hi, b.hi), <<>>),
                                   RestrictPieces(a.rs, <<NegInf, b.hi>>)),
                    AddPieces(RestrictPieces(<< <<b.lo, a.hi>> >>, <<NegInf, PosInf>>),
                              RestrictPieces(a.rs, <<b.lo, PosInf>>))),
                    AddPieces(RestrictPieces(b.rs, <<NegInf, a.hi>>), MeetPieces(b.rs, a.rs)))
      [] OTHER -> [k |-> "delegate"]

\* UnboundedSet \cap x: convert a range operand to its set and swap; two
\* piecewise sets are intersected part by part and re-united.
RECURSIVE Intersect(_, _)
Intersect(a, b) ==               \* a, b inner values
    IF a.k = "UnboundedSet" /\ b.k = "UnboundedSet"
    THEN IF a.full THEN b
         ELSE IF b.full THEN a
         ELSE LET u == Intersect(a, UpperBoundedRange(b.hi))
                  l == Intersect(a, LowerBoundedRange(b.lo))
                  c == Intersect(a, BoundedSet(b.rs))
              IN  UnionSets(u, UnionSets(l, c))
    ELSE IF a.k = "UnboundedSet" /\ b.k \in {"BoundedRange", "LowerBoundedRange", "UpperBoundedRange"}
    THEN Meet(ToSet(b), a)
    ELSE LET m == Meet(a, b) IN
         IF m.k # "delegate" THEN m
         ELSE IF b.k = "UnboundedSet" /\ a.k \in {"BoundedRange", "LowerBoundedRange", "UpperBoundedRange"}
         THEN Meet(ToSet(a), b)
         ELSE Meet(b, a)

Intersection(a, b) == Intersect(ToInner(a), ToInner(b))

(***************************************************************************)
(* COMPLEMENT.                                                             *)
(***************************************************************************)
ComplementPiece(p) == UnbNew(FlipLo(p[1]), FlipHi(p[2]))

RECURSIVE FoldComplement(_, _)
FoldComplement(acc, rs) ==
    IF rs = <<>> THEN acc
    ELSE FoldComplement(Intersect(acc, ComplementPiece(Head(rs))), Tail(rs))

Complement(a) ==
    LET v == ToInner(a) IN
    CASE v.k = "BoundedRange"      -> ComplementPiece(<<v.lo, v.hi>>)
      [] v.k = "LowerBoundedRange" -> UpperBoundedRange(FlipLo(v.lo))
      [] v.k = "UpperBoundedRange" -> LowerBoundedRange(FlipHi(v.hi))
      [] v.k = "UnboundedRange"    -> EmptyRange
      [] v.k = "EmptyRange"        -> UnboundedRange
      [] v.k = "BoundedSet"        -> FoldComplement(FullSet, v.rs)
      [] v.k = "LowerBoundedSet"   -> FoldComplement(UpperBoundedSet(FlipLo(v.lo), <<>>), v.rs)
      [] v.k = "UpperBoundedSet"   -> FoldComplement(LowerBoundedSet(<<>>, FlipHi(v.hi)), v.rs)
      [] v.k = "UnboundedSet"      ->
            IF v.full THEN BoundedSet(<<>>)
            ELSE FoldComplement(ToSet(BoundedRange(FlipHi(v.hi), FlipLo(v.lo))), v.rs)

Disjoint(a, b)   == IsEmpty(Intersection(a, b))
Intersects(a, b) == ~Disjoint(a, b)

(***************************************************************************)
(* Result types.  (Statically fixed in the crate by associated types.)     *)
(***************************************************************************)
Lower(k) == k \in {"Range", "RangeInclusive", "RangeFrom", "BoundedRange",
                   "LowerBoundedRange", "BoundedSet", "LowerBoundedSet", "EmptyRange"}
Upper(k) == k \in {"Range", "RangeInclusive", "RangeTo", "RangeToInclusive", "BoundedRange",
                   "UpperBoundedRange", "BoundedSet", "UpperBoundedSet", "EmptyRange"}
\* "bounded below" is decided by the operand types alone, so that exactly the
\* results that are bounded below can be iterated.
UnionTyped(a, b, r) ==
    /\ Lower(r.k) <=> (Lower(a.k) /\ Lower(b.k))
    /\ Upper(r.k) <=> (Upper(a.k) /\ Upper(b.k))
IntersectionTyped(a, b, r) ==
    /\ Lower(r.k) <=> (Lower(a.k) \/ Lower(b.k))
    /\ Upper(r.k) <=> (Upper(a.k) \/ Upper(b.k))
ComplementTyped(a, r) ==
    /\ Lower(r.k) <=> ~Lower(a.k)
    /\ Upper(r.k) <=> ~Upper(a.k)

(***************************************************************************)
(* INVARIANTS of every value the crate hands out.                          *)
(***************************************************************************)
SortedDisjoint(rs) ==
    /\ \A i \in DOMAIN rs : ~PieceEmpty(rs[i])
    /\ \A i \in 1 .. (Len(rs) - 1) : rs[i][2] < rs[i + 1][1]

WellFormed(v) ==
    CASE v.k = "BoundedSet"      -> SortedDisjoint(v.rs)
      [] v.k = "LowerBoundedSet" -> /\ SortedDisjoint(v.rs)
                                    /\ v.rs # <<>> => v.rs[Len(v.rs)][2] < v.lo
      [] v.k = "UpperBoundedSet" -> /\ SortedDisjoint(v.rs)
                                    /\ v.rs # <<>> => v.hi < v.rs[1][1]
      [] v.k = "UnboundedSet"    -> v.full \/
                                    /\ SortedDisjoint(v.rs)
                                    /\ v.hi < v.lo
                                    /\ v.rs # <<>> => /\ v.hi < v.rs[1][1]
                                                      /\ v.rs[Len(v.rs)][2] < v.lo
      [] OTHER                   -> v.k \in Kinds

(***************************************************************************)
(* All sorted disjoint piece lists between two positions.                  *)
(***************************************************************************)
RECURSIVE PieceLists(_, _)
PieceLists(first, last) ==       \* all sorted disjoint piece lists in first..last
    IF first > last THEN { <<>> }
    ELSE PieceLists(first + 1, last)
         \cup UNION { { << <<first, h>> >> \o t : t \in PieceLists(h + 1, last) }
                      : h \in first .. last }

PosLo == 1                       \* a piece cannot start before Included(0)
PosHi == 2 * N - 1               \* nor end after Included(N-1)

(***************************************************************************)
(* Flat integer encoding used to exchange values with the conformance      *)
(* harness: <<kind code, ...>>.                                            *)
(***************************************************************************)
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE Head(rs) \o Flat(Tail(rs))
Enc(v) ==
    CASE v.k = "Range"             -> <<0, v.s, v.e>>
      [] v.k = "RangeInclusive"    -> <<1, v.s, v.e, IF v.x THEN 1 ELSE 0>>
      [] v.k = "RangeFrom"         -> <<2, v.s>>
      [] v.k = "RangeTo"           -> <<3, v.e>>
      [] v.k = "RangeToInclusive"  -> <<4, v.e>>
      [] v.k = "RangeFull"         -> <<5>>
      [] v.k = "BoundedRange"      -> <<6, v.lo, v.hi>>
      [] v.k = "LowerBoundedRange" -> <<7, v.lo>>
      [] v.k = "UpperBoundedRange" -> <<8, v.hi>>
      [] v.k = "UnboundedRange"    -> <<9>>
      [] v.k = "EmptyRange"        -> <<10>>
      [] v.k = "BoundedSet"        -> <<11>> \o Flat(v.rs)
      [] v.k = "LowerBoundedSet"   -> <<12, v.lo>> \o Flat(v.rs)
      [] v.k = "UpperBoundedSet"   -> <<13, v.hi>> \o Flat(v.rs)
      [] v.k = "UnboundedSet"      ->
             IF v.full THEN <<14>> ELSE <<14, v.hi, v.lo>> \o Flat(v.rs)

RECURSIVE Unflat(_)
Unflat(s) == IF s = <<>> THEN <<>>
             ELSE << <<s[1], s[2]>> >> \o Unflat(SubSeq(s, 3, Len(s)))
Dec(e) ==
    CASE e[1] = 0  -> Range(e[2], e[3])
      [] e[1] = 1  -> RangeInclusive(e[2], e[3], e[4] = 1)
      [] e[1] = 2  -> RangeFrom(e[2])
      [] e[1] = 3  -> RangeTo(e[2])
      [] e[1] = 4  -> RangeToInclusive(e[2])
      [] e[1] = 5  -> RangeFull
      [] e[1] = 6  -> BoundedRange(e[2], e[3])
      [] e[1] = 7  -> LowerBoundedRange(e[2])
      [] e[1] = 8  -> UpperBoundedRange(e[2])
      [] e[1] = 9  -> UnboundedRange
      [] e[1] = 10 -> EmptyRange
      [] e[1] = 11 -> BoundedSet(Unflat(Tail(e)))
      [] e[1] = 12 -> LowerBoundedSet(Unflat(SubSeq(e, 3, Len(e))), e[2])
      [] e[1] = 13 -> UpperBoundedSet(e[2], Unflat(SubSeq(e, 3, Len(e))))
      [] e[1] = 14 -> IF Len(e) = 1 THEN FullSet
                      ELSE PiecewiseSet(e[2], Unflat(SubSeq(e, 4, Len(e))), e[3])
=============================================================================
