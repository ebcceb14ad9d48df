--------------------------- MODULE SetProof --------------------------------
(***************************************************************************)
(* add_range for any number of pieces at any integer positions, proved     *)
(* with TLAPS (RangeAlgebra!AddRange is its executable form, enumerated by *)
(* TLC over few positions).  The pieces are a set here: where the new one  *)
(* is inserted is left to TLC.                                             *)
(*                                                                         *)
(* While some piece overlaps r it is taken out and r grows over it; then r *)
(* is put in.  Whatever the order in which overlapping pieces are found,   *)
(* pieces stay non-empty and pairwise disjoint and the members are exactly *)
(* those of the old pieces and of r.                                       *)
(***************************************************************************)
EXTENDS Integers, TLAPS

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Pieces == Int \X Int
Empty(p) == p[1] > p[2]
Meet(p, q) == <<Max2(p[1], q[1]), Min2(p[2], q[2])>>
Meets(p, q) == ~Empty(Meet(p, q))
Combine(p, q) == <<Min2(p[1], q[1]), Max2(p[2], q[2])>>
In(x, p) == p[1] <= x /\ x <= p[2]
InSome(x, P) == \E p \in P : In(x, p)

(* Facts about two ranges: intersection, emptiness, combination, complement *)
THEOREM MeetExact == \A p, q \in Pieces, x \in Int : In(x, Meet(p, q)) <=> In(x, p) /\ In(x, q)
BY DEF Pieces, Meet, In, Max2, Min2
THEOREM EmptyExact == \A p \in Pieces : Empty(p) <=> \A x \in Int : ~In(x, p)
<1> SUFFICES ASSUME NEW p \in Pieces PROVE Empty(p) <=> \A x \in Int : ~In(x, p)
  OBVIOUS
<1>1. p[1] \in Int /\ p[2] \in Int BY DEF Pieces
<1>2. ASSUME ~Empty(p) PROVE In(p[1], p) BY <1>1, <1>2 DEF Empty, In
<1> QED BY <1>1, <1>2 DEF Empty, In
THEOREM MeetsExact == \A p, q \in Pieces : Meets(p, q) <=> \E x \in Int : In(x, p) /\ In(x, q)
<1> SUFFICES ASSUME NEW p \in Pieces, NEW q \in Pieces
             PROVE  Meets(p, q) <=> \E x \in Int : In(x, p) /\ In(x, q)
  OBVIOUS
<1>1. Meet(p, q) \in Pieces BY DEF Meet, Pieces, Max2, Min2
<1>2. Empty(Meet(p, q)) <=> \A x \in Int : ~In(x, Meet(p, q)) BY <1>1, EmptyExact
<1>3. \A x \in Int : In(x, Meet(p, q)) <=> In(x, p) /\ In(x, q) BY MeetExact
<1> QED BY <1>2, <1>3 DEF Meets
THEOREM CombineExact ==
    \A p, q \in Pieces, x \in Int : Meets(p, q) => (In(x, Combine(p, q)) <=> In(x, p) \/ In(x, q))
BY DEF Pieces, Meets, Meet, Empty, Combine, In, Max2, Min2
THEOREM CombineNonEmpty ==
    \A p, q \in Pieces : ~Empty(p) /\ ~Empty(q) => Combine(p, q) \in Pieces /\ ~Empty(Combine(p, q))
BY DEF Pieces, Empty, Combine, Max2, Min2
\* the complement of a bounded range: everything up to lo - 1 and from hi + 1
THEOREM ComplementExact ==
    \A p \in Pieces, x \in Int : ~Empty(p) => (~In(x, p) <=> x <= p[1] - 1 \/ x >= p[2] + 1)
BY DEF Pieces, Empty, In
\* ... and its two sides do not meet
THEOREM ComplementApart ==
    \A p \in Pieces, x \in Int : ~Empty(p) => ~(x <= p[1] - 1 /\ x >= p[2] + 1)
BY DEF Pieces, Empty

----------------------------------------------------------------------------
VARIABLES P, r, done, D0
vars == <<P, r, done, D0>>

Apart(S) == \A p, q \in S : p # q => ~Meets(p, q)
Init == /\ P \in SUBSET Pieces /\ r \in Pieces
        /\ \A p \in P : ~Empty(p)
        /\ Apart(P)
        /\ ~Empty(r)
        /\ done = FALSE
        /\ D0 = { x \in Int : InSome(x, P) \/ In(x, r) }
Absorb == /\ ~done
          /\ \E q \in P : /\ Meets(q, r)
                          /\ P' = P \ {q}
                          /\ r' = Combine(r, q)
          /\ UNCHANGED <<done, D0>>
Insert == /\ ~done
          /\ \A q \in P : ~Meets(q, r)
          /\ P' = P \cup {r}
          /\ done' = TRUE
          /\ UNCHANGED <<r, D0>>
Next == Absorb \/ Insert
Spec == Init /\ [][Next]_vars

Inv == /\ P \in SUBSET Pieces /\ r \in Pieces /\ done \in BOOLEAN
       /\ \A p \in P : ~Empty(p)
       /\ ~Empty(r)
       /\ Apart(P)
       /\ D0 = { x \in Int : InSome(x, P) \/ In(x, r) }
       /\ done => r \in P
Correct == done => /\ D0 = { x \in Int : InSome(x, P) }
                   /\ Apart(P)
                   /\ \A p \in P : ~Empty(p)

LEMMA MeetsSym == \A p, q \in Pieces : Meets(p, q) <=> Meets(q, p)
BY MeetsExact

THEOREM Safety == Spec => []Correct
<1>1. Init => Inv BY DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE Absorb
    <3>1. PICK q \in P : Meets(q, r) /\ P' = P \ {q} /\ r' = Combine(r, q) BY <2>1 DEF Absorb
    <3>2. q \in Pieces /\ r \in Pieces /\ ~Empty(q) /\ ~Empty(r) BY DEF Inv
    <3>3. r' \in Pieces /\ ~Empty(r') BY <3>1, <3>2, CombineNonEmpty
    <3>4. Meets(r, q) BY <3>1, <3>2, MeetsSym
    <3>5. \A x \in Int : In(x, r') <=> In(x, r) \/ In(x, q) BY <3>1, <3>2, <3>4, CombineExact
    <3>6. \A x \in Int : (InSome(x, P') \/ In(x, r')) <=> (InSome(x, P) \/ In(x, r))
      BY <3>1, <3>5 DEF InSome
    <3>7. D0' = D0 /\ done' = done BY <2>1 DEF Absorb
    <3>8. D0' = { x \in Int : InSome(x, P') \/ In(x, r') } BY <3>6, <3>7 DEF Inv
    <3>9. Apart(P') BY <3>1 DEF Apart, Inv
    <3>10. P' \in SUBSET Pieces /\ (\A p \in P' : ~Empty(p)) BY <3>1 DEF Inv
    <3>11. done' = FALSE BY <2>1 DEF Absorb, Inv
    <3> QED BY <3>3, <3>8, <3>9, <3>10, <3>11 DEF Inv
  <2>2. CASE Insert
    <3>1. P' = P \cup {r} /\ r' = r /\ D0' = D0 /\ done' = TRUE BY <2>2 DEF Insert
    <3>2. \A q \in P : ~Meets(q, r) /\ ~Meets(r, q) BY <2>2, MeetsSym DEF Insert, Inv
    <3>3. Apart(P') BY <3>1, <3>2 DEF Apart, Inv
    <3>4. \A x \in Int : (InSome(x, P') \/ In(x, r')) <=> (InSome(x, P) \/ In(x, r)) BY <3>1 DEF InSome
    <3>5. D0' = { x \in Int : InSome(x, P') \/ In(x, r') } BY <3>1, <3>4 DEF Inv
    <3> QED BY <3>1, <3>3, <3>5 DEF Inv
  <2>3. CASE UNCHANGED vars
    BY <2>3 DEF Inv, vars, Apart, InSome
  <2> QED BY <2>1, <2>2, <2>3 DEF Next
<1>3. Inv => Correct
  <2> SUFFICES ASSUME Inv, done PROVE D0 = { x \in Int : InSome(x, P) } BY DEF Correct, Inv
  <2>1. \A x \in Int : (InSome(x, P) \/ In(x, r)) <=> InSome(x, P) BY DEF InSome, Inv
  <2> QED BY <2>1 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
----------------------------------------------------------------------------
(* Intersection of sets of any number of pieces: the non-empty meets of    *)
(* pairs are exact, and as disjoint as the operands.                       *)
SetMeet(A, B) == { m \in Pieces : ~Empty(m) /\ \E a \in A, b \in B : m = Meet(a, b) }

THEOREM SetMeetExact ==
    ASSUME NEW A \in SUBSET Pieces, NEW B \in SUBSET Pieces, NEW x \in Int
    PROVE  InSome(x, SetMeet(A, B)) <=> InSome(x, A) /\ InSome(x, B)
<1>1. ASSUME NEW m \in SetMeet(A, B), In(x, m) PROVE InSome(x, A) /\ InSome(x, B)
  <2>1. PICK a \in A, b \in B : m = Meet(a, b) BY DEF SetMeet
  <2>2. In(x, a) /\ In(x, b) BY <1>1, <2>1, MeetExact
  <2> QED BY <2>2 DEF InSome
<1>2. ASSUME NEW a \in A, NEW b \in B, In(x, a), In(x, b) PROVE InSome(x, SetMeet(A, B))
  <2>1. In(x, Meet(a, b)) BY <1>2, MeetExact
  <2>2. Meet(a, b) \in Pieces BY DEF Meet, Pieces, Max2, Min2
  <2>3. ~Empty(Meet(a, b)) BY <2>1, <2>2, EmptyExact
  <2>4. Meet(a, b) \in SetMeet(A, B) BY <2>2, <2>3 DEF SetMeet
  <2> QED BY <2>1, <2>4 DEF InSome
<1> QED BY <1>1, <1>2 DEF InSome

THEOREM SetMeetApart ==
    ASSUME NEW A \in SUBSET Pieces, NEW B \in SUBSET Pieces, Apart(A), Apart(B)
    PROVE  Apart(SetMeet(A, B))
<1> SUFFICES ASSUME NEW m \in SetMeet(A, B), NEW n \in SetMeet(A, B), Meets(m, n) PROVE m = n BY DEF Apart
<1>1. PICK a \in A, b \in B : m = Meet(a, b) BY DEF SetMeet
<1>2. PICK c \in A, d \in B : n = Meet(c, d) BY DEF SetMeet
<1>3. m \in Pieces /\ n \in Pieces BY <1>1, <1>2 DEF Meet, Pieces, Max2, Min2
<1>4. PICK x \in Int : In(x, m) /\ In(x, n) BY <1>3, MeetsExact
<1>5. In(x, a) /\ In(x, b) BY <1>1, <1>4, MeetExact
<1>6. In(x, c) /\ In(x, d) BY <1>2, <1>4, MeetExact
<1>7. Meets(a, c) /\ Meets(b, d) BY <1>5, <1>6, MeetsExact
<1>8. a = c /\ b = d BY <1>7 DEF Apart
<1> QED BY <1>1, <1>2, <1>8

(* The unbounded tail of a lower-bounded set swallows the pieces it meets: *)
(* one step of defragment, whichever piece is taken.                       *)
InTail(x, lo) == x >= lo
TailMeets(p, lo) == ~Empty(<<Max2(p[1], lo), p[2]>>)
THEOREM SwallowExact ==
    ASSUME NEW S \in SUBSET Pieces, NEW lo \in Int, NEW q \in S, TailMeets(q, lo), ~Empty(q), NEW x \in Int
    PROVE  (InSome(x, S) \/ InTail(x, lo)) <=> (InSome(x, S \ {q}) \/ InTail(x, Min2(lo, q[1])))
<1>1. q[1] \in Int /\ q[2] \in Int BY DEF Pieces
<1>2. InTail(x, Min2(lo, q[1])) <=> In(x, q) \/ InTail(x, lo)
  BY <1>1 DEF TailMeets, Empty, InTail, In, Max2, Min2
<1> QED BY <1>2 DEF InSome
\* when no piece meets the tail, every piece ends before it
THEOREM TailApart ==
    ASSUME NEW p \in Pieces, NEW lo \in Int, ~Empty(p), ~TailMeets(p, lo), NEW x \in Int
    PROVE  ~(In(x, p) /\ InTail(x, lo))
<1>1. p[1] \in Int /\ p[2] \in Int BY DEF Pieces
<1> QED BY <1>1 DEF TailMeets, Empty, InTail, In, Max2
=============================================================================
