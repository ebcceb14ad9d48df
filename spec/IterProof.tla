----------------------------- MODULE IterProof ------------------------------
(***************************************************************************)
(* The iterator of a bounded range over a type with any number of values,  *)
(* proved with TLAPS (Iter.tla is its executable form, enumerated by TLC   *)
(* over few values).  The values of the type are Lo .. Hi.  The iterator   *)
(* holds the next value from the front and from the back; a step off the   *)
(* type leaves None.  nth and nth_back jump first.                         *)
(*                                                                         *)
(* However the two ends are interleaved, every value of the range has been *)
(* yielded from the front, from the back, skipped by a jump, or is still   *)
(* to come, and only one of these; fronts ascend and backs descend.        *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS Lo, Hi, First, Last    \* the type, and the range
ASSUME Limits == Lo \in Int /\ Hi \in Int /\ Lo <= Hi /\ First \in Lo .. Hi /\ Last \in Lo .. Hi
None == Hi + 1                   \* no value of the type
Opt == (Lo .. Hi) \cup {None}

Forward(t, n)  == IF t + n <= Hi THEN t + n ELSE None
Backward(t, n) == IF t - n >= Lo THEN t - n ELSE None
Left(c, b) == c # None /\ b # None /\ c <= b

VARIABLES cur, back, front, rear, out   \* out: what the last call returned
vars == <<cur, back, front, rear, out>>
\* front: everything below it has been passed from the front (ghost); rear likewise
Init == cur = First /\ back = Last /\ front = First /\ rear = Last /\ out = None

NthFront(n) ==
    LET c == IF cur = None THEN None ELSE Forward(cur, n) IN
    IF Left(c, back) THEN cur' = Forward(c, 1) /\ out' = c /\ front' = c + 1 /\ UNCHANGED <<back, rear>>
    ELSE cur' = c /\ out' = None /\ front' = rear + 1 /\ UNCHANGED <<back, rear>>
NthBack(n) ==
    LET b == IF back = None THEN None ELSE Backward(back, n) IN
    IF Left(cur, b) THEN back' = Backward(b, 1) /\ out' = b /\ rear' = b - 1 /\ UNCHANGED <<cur, front>>
    ELSE back' = b /\ out' = None /\ rear' = front - 1 /\ UNCHANGED <<cur, front>>
Next == \E n \in Nat : NthFront(n) \/ NthBack(n)
Spec == Init /\ [][Next]_vars

\* The values still to come are front .. rear, and the fields say so.
Inv == /\ cur \in Opt /\ back \in Opt /\ front \in Int /\ rear \in Int /\ out \in Opt
       /\ front <= rear => First <= front /\ rear <= Last
       /\ Left(cur, back) <=> front <= rear
       /\ front <= rear => cur = front /\ back = rear

THEOREM Invariant == Spec => []Inv
<1> USE Limits
<1>1. Init => Inv BY DEF Init, Inv, Opt, None, Left
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. ASSUME NEW n \in Nat, NthFront(n) PROVE Inv'
    BY <2>1 DEF NthFront, Inv, Opt, None, Left, Forward
  <2>2. ASSUME NEW n \in Nat, NthBack(n) PROVE Inv'
    BY <2>2 DEF NthBack, Inv, Opt, None, Left, Backward
  <2>3. CASE UNCHANGED vars BY <2>3 DEF Inv, vars, Left
  <2> QED BY <2>1, <2>2, <2>3 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* What a call returns is the right one of the values still to come.
THEOREM FrontExact ==
    ASSUME Inv, NEW n \in Nat, NthFront(n)
    PROVE  IF front + n <= rear THEN out' = front + n /\ front' = front + n + 1 /\ rear' = rear
           ELSE out' = None /\ ~(front' <= rear')
BY Limits DEF NthFront, Inv, Opt, None, Left, Forward
THEOREM BackExact ==
    ASSUME Inv, NEW n \in Nat, NthBack(n)
    PROVE  IF rear - n >= front THEN out' = rear - n /\ rear' = rear - n - 1 /\ front' = front
           ELSE out' = None /\ ~(front' <= rear')
BY Limits DEF NthBack, Inv, Opt, None, Left, Backward
\* the size is the number of values still to come
THEOREM SizeExact == Inv => (Left(cur, back) => back - cur + 1 = rear - front + 1)
BY DEF Inv
=============================================================================
