------------------------------- MODULE Laws -------------------------------
(***************************************************************************)
(* Algebraic laws over three operands.  Sets keep touching pieces apart,   *)
(* so equal members do not imply equal sets: that union and intersection   *)
(* are associative and commutative up to == is a statement about how       *)
(* pieces are merged, not a consequence of Exact.                          *)
(***************************************************************************)
EXTENDS RangeDomain, TLC, SequencesExt
CONSTANT EmitOn
VARIABLES a, b, c
vars == <<a, b, c>>
Init == a \in Values /\ b \in Values /\ c = EmptyRange
Next == UNCHANGED <<a, b>> /\ c \in {EmptyRange} /\ c' \in Values
Spec == Init /\ [][Next]_vars

S(v) == ToSet(v)
UnionAssociative == S(Union(Union(a, b), c)) = S(Union(a, Union(b, c)))
UnionCommutative == S(Union(a, b)) = S(Union(b, a))
InterAssociative == S(Intersection(Intersection(a, b), c)) = S(Intersection(a, Intersection(b, c)))
InterCommutative == S(Intersection(a, b)) = S(Intersection(b, a))
UnionIdempotent  == S(Union(Union(a, b), b)) = S(Union(a, b))
InterIdempotent  == S(Intersection(Intersection(a, b), b)) = S(Intersection(a, b))
DeMorgan == /\ Den(Complement(Union(a, b))) = Den(Intersection(Complement(a), Complement(b)))
            /\ Den(Complement(Intersection(a, b))) = Den(Union(Complement(a), Complement(b)))
Distributive == Den(Intersection(a, Union(b, c))) = Den(Union(Intersection(a, b), Intersection(a, c)))

ValSeq == SetToSeq(Values)
ASSUME EmitOn => \A i \in 1 .. Len(ValSeq) :
    PrintT(<<"V", i, 0, IF IsEmpty(ValSeq[i]) THEN 1 ELSE 0, ToString(Enc(ValSeq[i]))>>)
=============================================================================
