------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* The set algebra of rangetools as a state machine: a client holds one    *)
(* value and keeps combining it with other values.                         *)
(*                                                                         *)
(*   val   the value held, computed the way the code computes it           *)
(*         (module RangeAlgebra: add_range, defragment, delegation, ...)   *)
(*   den   ghost: the set of positions the client is entitled to expect,   *)
(*         computed with plain set operations and nothing else             *)
(*   lbl   the last call (hidden by VIEW), for the conformance replay      *)
(*                                                                         *)
(* The client may start from any std or crate range and combine with every *)
(* well-formed value of every kind, so the reachable graph is complete for *)
(* N points: every (receiver, operand, operation) triple occurs.           *)
(***************************************************************************)
EXTENDS RangeDomain, TLC, SequencesExt

CONSTANT Ops            \* which calls to explore: subset of AllOps
CONSTANT EmitOn         \* print every transition for the conformance replay

AllOps == {"union", "intersection", "complement", "to_inner", "to_set", "reload"}

VARIABLES val, den, lbl
vars == <<val, den, lbl>>
View == <<val, den>>

Init == /\ val \in Base
        /\ den = Den(val)
        /\ lbl = <<"init">>

UnionCall == /\ "union" \in Ops
             /\ \E b \in Values : /\ val' = Union(val, b)
                                  /\ den' = den \cup Den(b)
                                  /\ lbl' = <<"union", b>>
IntersectionCall == /\ "intersection" \in Ops
                    /\ \E b \in Values : /\ val' = Intersection(val, b)
                                         /\ den' = den \cap Den(b)
                                         /\ lbl' = <<"intersection", b>>
ComplementCall == /\ "complement" \in Ops
                  /\ val' = Complement(val)
                  /\ den' = Positions \ den
                  /\ lbl' = <<"complement", val>>
ToInnerCall == /\ "to_inner" \in Ops
               /\ val' = ToInner(val) /\ den' = den /\ lbl' = <<"to_inner", val>>
ToSetCall == /\ "to_set" \in Ops
             /\ val' = ToSet(val) /\ den' = den /\ lbl' = <<"to_set", val>>

\* through the wire and back: the value is rebuilt from its flat encoding
ReloadCall == /\ "reload" \in Ops
              /\ val' = Dec(Enc(val)) /\ den' = den /\ lbl' = <<"reload", val>>

\* A set can also simply be written down (union is one way to get one);
\* used when Ops does not contain "union", so that every kind of receiver
\* is still explored.
Obtain == /\ "union" \notin Ops
          /\ val' \in WellFormedSets /\ den' = Den(val') /\ lbl' = <<"obtain", val'>>

Next == UnionCall \/ IntersectionCall \/ ComplementCall \/ ToInnerCall \/ ToSetCall \/ ReloadCall \/ Obtain
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
\* the value means exactly what was asked for (C01, C02, C03, C17)
Exact == Den(val) = den
\* pieces non-empty, sorted, disjoint, apart from head and tail (C05, C16)
Shape == WellFormed(val)
\* nothing outside the enumerated domain is ever produced (C15)
Closed == val \in Values
\* is_empty is exact on the ordered line (C04)
EmptyExact == IsEmpty(val) <=> den = {}
\* complement is an involution up to meaning and excludes exactly (C03)
ComplementExact ==
    /\ Den(Complement(val)) = Positions \ den
    /\ Den(Complement(Complement(val))) = den
    /\ Disjoint(val, Complement(val))
\* the operand types alone decide boundedness, hence iterability (C15)
Typed == [][ /\ lbl'[1] = "union" => UnionTyped(val, lbl'[2], val')
             /\ lbl'[1] = "intersection" => IntersectionTyped(val, lbl'[2], val')
             /\ lbl'[1] = "complement" => ComplementTyped(val, val')
           ]_vars
\* nothing is lost on the wire (C14)
WireExact == [][ lbl'[1] = "reload" => val' = val ]_vars
\* self operations are neutral (C05)
Idempotent == /\ ToSet(Union(val, val)) = ToSet(val)
              /\ ToSet(Intersection(val, val)) = ToSet(val)
              /\ ToSet(ToSet(val)) = ToSet(val)
              /\ ToInner(ToInner(val)) = ToInner(val)

(***************************************************************************)
(* Emission: a numbered value table, then one line per transition.         *)
(***************************************************************************)
ValSeq == SetToSeq(Values)
IdOf == [ v \in Values |-> CHOOSE i \in 1 .. Len(ValSeq) : ValSeq[i] = v ]
RECURSIVE Bits(_, _)
Bits(S, p) == IF p > 2 * N THEN 0
              ELSE (IF p \in S THEN 2 ^ p ELSE 0) + Bits(S, p + 1)
TableRow(i) == PrintT(<<"V", i, Bits(Den(ValSeq[i]), 0), IF IsEmpty(ValSeq[i]) THEN 1 ELSE 0,
                        ToString(Enc(ValSeq[i]))>>)
ASSUME EmitOn => \A i \in 1 .. Len(ValSeq) : TableRow(i)

\* which kinds are bounded on which side (C15)
KindRow(v) == PrintT(<<"K", Enc(v)[1], IF Lower(v.k) THEN 1 ELSE 0, IF Upper(v.k) THEN 1 ELSE 0>>)
ASSUME EmitOn => \A k \in Kinds : KindRow(CHOOSE v \in Values : v.k = k)

OpCode == [ union |-> 0, intersection |-> 1, complement |-> 2, to_inner |-> 3, to_set |-> 4, reload |-> 5, obtain |-> 6 ]
Emit == EmitOn /\ lbl'[1] # "obtain" =>
    PrintT(<<OpCode[lbl'[1]], IdOf[val], IdOf[lbl'[2]], IdOf[val'],
             IF lbl'[1] = "intersection" /\ den' = {} THEN 1 ELSE 0>>)
=============================================================================
