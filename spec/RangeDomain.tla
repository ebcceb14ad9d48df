---------------------------- MODULE RangeDomain ----------------------------
(***************************************************************************)
(* The complete finite domain of values over N points.  (Kept apart from   *)
(* RangeAlgebra because TLC evaluates constant sets eagerly and the trace  *)
(* specifications use far larger N.)                                       *)
(***************************************************************************)
EXTENDS RangeAlgebra

(***************************************************************************)
(* Everything a client can write down directly over Points.                *)
(***************************************************************************)
StdValues ==
    { Range(s, e) : s \in Points, e \in Points }
    \cup { RangeInclusive(s, e, FALSE) : s \in Points, e \in Points }
    \cup { RangeInclusive(e, e, TRUE) : e \in Points }     \* iterated to exhaustion
    \cup { RangeFrom(s) : s \in Points } \cup { RangeTo(e) : e \in Points }
    \cup { RangeToInclusive(e) : e \in Points } \cup { RangeFull }
CrateRangeValues ==
    { BoundedRange(lo, hi) : lo \in LoBounds, hi \in HiBounds }
    \cup { LowerBoundedRange(lo) : lo \in LoBounds }
    \cup { UpperBoundedRange(hi) : hi \in HiBounds }
    \cup { UnboundedRange, EmptyRange }
Base == StdValues \cup CrateRangeValues

(***************************************************************************)
(* Every well-formed set value over Points, independently of how it might  *)
(* be obtained: a colouring of the positions first..last by "outside",     *)
(* "starts a piece", "continues a piece".                                  *)
(***************************************************************************)
SetValues ==
    { BoundedSet(rs) : rs \in PieceLists(PosLo, PosHi) }
    \cup UNION { { LowerBoundedSet(rs, lo) : rs \in PieceLists(PosLo, Min2(lo - 1, PosHi)) }
                 : lo \in LoBounds }
    \cup UNION { { UpperBoundedSet(hi, rs) : rs \in PieceLists(Max2(hi + 1, PosLo), PosHi) }
                 : hi \in HiBounds }
    \cup UNION { { PiecewiseSet(hi, rs, lo) :
                       rs \in PieceLists(Max2(hi + 1, PosLo), Min2(lo - 1, PosHi)) }
                 : hi \in HiBounds, lo \in LoBounds }
    \cup { FullSet }
WellFormedSets == { v \in SetValues : WellFormed(v) }
Values == Base \cup WellFormedSets

=============================================================================
