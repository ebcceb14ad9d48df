------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Bounds and their order, over a totally or partially ordered type.       *)
(*   "chain"  elements 0 .. N-1 in order (any Ord type)                    *)
(*   "float"  element N-1 is NaN, equal to nothing; elements 0 and 1 are   *)
(*            equal without being identical (-0.0 and 0.0)                 *)
(*   "pairs"  element i is (i div 2, i mod 2) in the product order         *)
(* Cmp is the element order; PCmp the bound order as the code computes it; *)
(* Admits what a bound admits on the line of positions (chain only).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Order, EmitOn

E == 0 .. (N - 1)
Rank(a) == IF Order = "float" /\ a = 0 THEN 1 ELSE a
CmpNat(a, b) == IF a < b THEN "lt" ELSE IF a = b THEN "eq" ELSE "gt"
Cmp(a, b) ==
    CASE Order = "chain" -> CmpNat(a, b)
      [] Order = "float" -> IF a = N - 1 \/ b = N - 1 THEN "none" ELSE CmpNat(Rank(a), Rank(b))
      [] Order = "pairs" ->
            LET x == CmpNat(a \div 2, b \div 2)
                y == CmpNat(a % 2, b % 2)
            IN  IF x = y THEN x ELSE IF x = "eq" THEN y ELSE IF y = "eq" THEN x ELSE "none"

\* a bound: <<side, included?, element>>
Bnds == {"lower", "upper"} \X {0, 1} \X E

\* LowerBound / UpperBound::partial_cmp
PCmp(p, q) ==
    IF p[2] = q[2] THEN Cmp(p[3], q[3])
    ELSE IF Cmp(p[3], q[3]) = "eq"
    THEN IF (p[2] = 1) = (p[1] = "lower") THEN "lt" ELSE "gt"
    ELSE Cmp(p[3], q[3])

Flip(p) == <<p[1], 1 - p[2], p[3]>>
Opp(r)  == IF r = "lt" THEN "gt" ELSE IF r = "gt" THEN "lt" ELSE r

\* positions as in RangeAlgebra
Admits(p) ==
    CASE p[1] = "lower" -> (IF p[2] = 1 THEN 2 * p[3] + 1 ELSE 2 * p[3] + 2) .. (2 * N)
      [] p[1] = "upper" -> 0 .. (IF p[2] = 1 THEN 2 * p[3] + 1 ELSE 2 * p[3])

(***************************************************************************)
(* The machine: a client holds a bound, rewrites it and compares it.       *)
(***************************************************************************)
VARIABLES b, lbl
vars == <<b, lbl>>
View == b
Init == b \in Bnds /\ lbl = <<"init">>
FlipStep == b' = Flip(b) /\ lbl' = <<"flip", b>>
\* map to another element, keeping side and inclusion
MapStep  == \E e \in E : b' = <<b[1], b[2], e>> /\ lbl' = <<"map", e>>
\* through the plain Bound to the other side
SideStep == b' = <<IF b[1] = "lower" THEN "upper" ELSE "lower", b[2], b[3]>> /\ lbl' = <<"side", b>>
CmpStep  == \E q \in Bnds : q[1] = b[1] /\ b' = b /\ lbl' = <<"cmp", q, PCmp(b, q)>>
\* through the wire and back
ReloadStep == b' = <<b[1], b[2], b[3]>> /\ lbl' = <<"reload", b>>
Next == ReloadStep \/ FlipStep \/ MapStep \/ SideStep \/ CmpStep
Spec == Init /\ [][Next]_vars

\* the bound order is the order of what is admitted
ByAdmission ==
    Order = "chain" => \A q \in Bnds : q[1] = b[1] =>
        LET A == Admits(b)
            B == Admits(q)
            more == IF b[1] = "lower" THEN "lt" ELSE "gt"
        IN  PCmp(b, q) = (IF A = B THEN "eq" ELSE IF B \subseteq A THEN more ELSE Opp(more))
\* incomparable exactly when the elements are
Incomparable == \A q \in Bnds : q[1] = b[1] => ((PCmp(b, q) = "none") <=> (Cmp(b[3], q[3]) = "none"))
Antisymmetric == \A q \in Bnds : q[1] = b[1] => PCmp(q, b) = Opp(PCmp(b, q))
EqMeansEq == \A q \in Bnds : q[1] = b[1] =>
                 ((PCmp(b, q) = "eq") <=> (b[2] = q[2] /\ Cmp(b[3], q[3]) = "eq"))
Transitive == \A q \in Bnds : \A r \in Bnds :
                 (q[1] = b[1] /\ r[1] = b[1] /\ PCmp(b, q) = "lt" /\ PCmp(q, r) \in {"lt", "eq"}) => PCmp(b, r) = "lt"
FlipInvolution == Flip(Flip(b)) = b

Code == [ lt |-> 0 - 1, eq |-> 0, gt |-> 1, none |-> 2 ]
Side(p) == IF p[1] = "lower" THEN 0 ELSE 1
Emit == EmitOn =>
    CASE lbl'[1] = "cmp" -> PrintT(<<"B", 0, Side(b), b[2], b[3], lbl'[2][2], lbl'[2][3], Code[lbl'[3]]>>)
      [] lbl'[1] = "flip" -> PrintT(<<"B", 1, Side(b), b[2], b[3], b'[2], b'[3], Side(b')>>)
      [] lbl'[1] = "map"  -> PrintT(<<"B", 2, Side(b), b[2], b[3], b'[2], b'[3], Side(b')>>)
      [] lbl'[1] = "reload" -> PrintT(<<"B", 4, Side(b), b[2], b[3], b'[2], b'[3], Side(b')>>)
      [] lbl'[1] = "side" -> PrintT(<<"B", 3, Side(b), b[2], b[3], b'[2], b'[3], Side(b')>>)
=============================================================================
