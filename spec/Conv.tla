-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Conversions between std ranges and crate ranges over a discrete type    *)
(* T = TMin .. TMax.  Endpoints start out in 0 .. M; Below / Above say how *)
(* many values T has below 0 / above M, so Above = 0 puts M at T::MAX and  *)
(* Below = 0 puts 0 at T::MIN.                                             *)
(*                                                                         *)
(*   cur   the range, as the code represents it, or "panic"                *)
(*   mem   ghost: the values of T the client started with                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, Below, Above, EmitOn

TMin == 0 - Below
TMax == M + Above
T == TMin .. TMax
P == 0 .. M
NONE == 0 - 1000
Fwd(v) == IF v + 1 <= TMax THEN v + 1 ELSE NONE
Bwd(v) == IF v - 1 >= TMin THEN v - 1 ELSE NONE

\* <<kind, a-included, a, b-included, b>>; unused fields are 0
Rng(k, ai, a, bi, b) == <<k, ai, a, bi, b>>
StdRange(s, e)    == Rng("Range", 1, s, 0, e)
StdIncl(s, e)     == Rng("RangeInclusive", 1, s, 1, e)
StdExhausted(e)   == Rng("RangeInclusive", 1, e, 0, e)     \* after its last next()
StdFrom(s)        == Rng("RangeFrom", 1, s, 0, 0)
StdTo(e)          == Rng("RangeTo", 0, 0, 0, e)
StdToIncl(e)      == Rng("RangeToInclusive", 0, 0, 1, e)
StdFull           == Rng("RangeFull", 0, 0, 0, 0)
Bounded(ai, a, bi, b) == Rng("BoundedRange", ai, a, bi, b)
LowerB(ai, a)     == Rng("LowerBoundedRange", ai, a, 0, 0)
UpperB(bi, b)     == Rng("UpperBoundedRange", 0, 0, bi, b)
Unb               == Rng("UnboundedRange", 0, 0, 0, 0)
Emp               == Rng("EmptyRange", 0, 0, 0, 0)
Panic             == Rng("panic", 0, 0, 0, 0)

HasLower == {"Range", "RangeInclusive", "RangeFrom", "BoundedRange", "LowerBoundedRange"}
HasUpper == {"Range", "RangeInclusive", "RangeTo", "RangeToInclusive", "BoundedRange", "UpperBoundedRange"}
Has(v, x) ==
    /\ v[1] # "EmptyRange" /\ v[1] # "panic"
    /\ v[1] \in HasLower => (IF v[2] = 1 THEN x >= v[3] ELSE x > v[3])
    /\ v[1] \in HasUpper => (IF v[4] = 1 THEN x <= v[5] ELSE x < v[5])
Mem(v) == { x \in T : Has(v, x) }

(***************************************************************************)
(* The conversions, in the shape of the From impls.                        *)
(***************************************************************************)
ToRange(v) ==
    LET s == IF v[2] = 1 THEN v[3] ELSE Fwd(v[3])
        e == IF v[4] = 1 THEN Fwd(v[5]) ELSE v[5]
    IN  IF s = NONE THEN StdRange(v[3], v[3])
        ELSE IF e = NONE THEN Panic ELSE StdRange(s, e)
ToIncl(v) ==
    LET s == IF v[2] = 1 THEN v[3] ELSE Fwd(v[3])
        e == IF v[4] = 1 THEN v[5] ELSE Bwd(v[5])
    IN  IF s = NONE THEN StdIncl(v[3], v[3] - 1)
        ELSE IF e = NONE THEN StdIncl(v[5] + 1, v[5]) ELSE StdIncl(s, e)
Convert(v, target) ==
    CASE v[1] = "BoundedRange" /\ target = "Range"               -> ToRange(v)
      [] v[1] = "BoundedRange" /\ target = "RangeInclusive"      -> ToIncl(v)
      [] v[1] = "LowerBoundedRange" /\ target = "RangeFrom"      ->
             LET s == IF v[2] = 1 THEN v[3] ELSE Fwd(v[3]) IN IF s = NONE THEN Panic ELSE StdFrom(s)
      [] v[1] = "UpperBoundedRange" /\ target = "RangeTo"        ->
             LET e == IF v[4] = 1 THEN Fwd(v[5]) ELSE v[5] IN IF e = NONE THEN Panic ELSE StdTo(e)
      [] v[1] = "UpperBoundedRange" /\ target = "RangeToInclusive" ->
             LET e == IF v[4] = 1 THEN v[5] ELSE Bwd(v[5]) IN IF e = NONE THEN Panic ELSE StdToIncl(e)
      [] v[1] = "UnboundedRange" /\ target = "RangeFull"         -> StdFull
      [] v[1] = "EmptyRange" /\ target = "Range"                 -> StdRange(0, 0)
      [] v[1] = "EmptyRange" /\ target = "RangeInclusive"        -> ToIncl(Bounded(1, 0, 0, 0))
      [] v[1] \in {"Range", "RangeInclusive"} /\ target = "BoundedRange" -> Bounded(v[2], v[3], v[4], v[5])
      [] v[1] = "RangeFrom" /\ target = "LowerBoundedRange"      -> LowerB(v[2], v[3])
      [] v[1] \in {"RangeTo", "RangeToInclusive"} /\ target = "UpperBoundedRange" -> UpperB(v[4], v[5])
      [] v[1] = "RangeFull" /\ target = "UnboundedRange"         -> Unb
      [] OTHER -> <<>>
Targets == {"Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeFull",
            "BoundedRange", "LowerBoundedRange", "UpperBoundedRange", "UnboundedRange"}

\* Everything a std type can express, as sets of values of T.
Expressible(target) ==
    CASE target = "Range"            -> { Mem(StdRange(s, e)) : s \in T, e \in T }
      [] target = "RangeInclusive"   -> { Mem(StdIncl(s, e)) : s \in T, e \in T }
      [] target = "RangeFrom"        -> { Mem(StdFrom(s)) : s \in T }
      [] target = "RangeTo"          -> { Mem(StdTo(e)) : e \in T }
      [] target = "RangeToInclusive" -> { Mem(StdToIncl(e)) : e \in T }
      [] OTHER                       -> { T }       \* RangeFull
StdTargets == {"Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeFull"}
ExpressibleIn == [ t \in Targets |-> Expressible(t) ]

VARIABLES cur, mem, lbl
vars == <<cur, mem, lbl>>
View == <<cur, mem>>
Flags == {0, 1}
Init == /\ cur \in { StdRange(s, e) : s \in P, e \in P } \cup { StdIncl(s, e) : s \in P, e \in P }
                   \cup { StdExhausted(e) : e \in P } \cup { StdFrom(s) : s \in P } \cup { StdTo(e) : e \in P }
                   \cup { StdToIncl(e) : e \in P } \cup { StdFull, Unb, Emp }
                   \cup { Bounded(i, a, j, b) : i \in Flags, a \in P, j \in Flags, b \in P }
                   \cup { LowerB(i, a) : i \in Flags, a \in P } \cup { UpperB(j, b) : j \in Flags, b \in P }
        /\ mem = Mem(cur) /\ lbl = <<"init">>
Next == \E t \in Targets : LET r == Convert(cur, t) IN
          /\ r # <<>> /\ cur' = r /\ mem' = mem /\ lbl' = <<t>>
Spec == Init /\ [][Next]_vars

\* conversions keep the members, along any chain of them
Kept == cur # Panic => Mem(cur) = mem
\* panic exactly when the target cannot express the range; crate ranges express everything
PanicExact == [][ (cur' = Panic) <=> (lbl'[1] \in StdTargets /\ mem \notin ExpressibleIn[lbl'[1]]) ]_vars
\* endpoints stay inside the type
InType == cur[1] \notin {"panic"} => cur[3] \in T \cup {0} /\ cur[5] \in T \cup {0}

RECURSIVE Mask(_, _)
Mask(S, x) == IF x > TMax THEN 0 ELSE (IF x \in S THEN 2 ^ (x - TMin) ELSE 0) + Mask(S, x + 1)
Emit == EmitOn => PrintT(<<"K", cur[1], cur[2], cur[3], cur[4], cur[5], lbl'[1],
                           IF cur' = Panic THEN 1 ELSE 0, Mask(mem, TMin)>>)
=============================================================================
