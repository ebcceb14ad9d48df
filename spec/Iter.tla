-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* A client iterates any bounded range or bounded set over N consecutive   *)
(* values of T from both ends, in any interleaving.                        *)
(*   it    the iterator, as the code represents it                         *)
(*   rem   ghost: the ascending list of values still to come               *)
(*   lbl   the last call, its concrete and its entitled result             *)
(***************************************************************************)
EXTENDS IterModel

CONSTANT EmitOn

VARIABLES it, rem, lbl
vars == <<it, rem, lbl>>
View == <<it, rem>>

Iterable == { BoundedRange(lo, hi) : lo \in LoBounds, hi \in HiBounds }
            \cup { BoundedSet(rs) : rs \in PieceLists(PosLo, PosHi) }

Init == \E v \in Iterable :
          /\ it = IterOf(v)
          /\ rem = Ascending(Members(v), 0)
          /\ lbl = <<"init", 0, NONE, NONE>>
          /\ EmitOn => PrintT(<<"I", MaskOf(rem), ToString(Enc(v))>>)

Args == (0 .. (N + 1)) \cup {Huge}
Do(op, n) == LET r == Call(it, op, n)
                 a == AbsCall(rem, op, n)
             IN  /\ it' = r[2] /\ rem' = a[2] /\ lbl' = <<op, n, r[1], a[1]>>
Next == \/ Do("next", 0) \/ Do("next_back", 0)
        \/ \E n \in Args : Do("nth", n) \/ Do("nth_back", n)
Spec == Init /\ [][Next]_vars

\* the iterator stands for exactly the values still to come (C06, C07)
Refines == \A v \in TMin .. TMax : v \in Remaining(it) <=> \E j \in DOMAIN rem : rem[j] = v
\* every call returns what the list walk returns (C06, C07)
Results == [][lbl'[3] = lbl'[4]]_vars
\* observers, without walking (C08)
SizeExact == Size(it) = Len(rem)
LastExact == LastCall(it) = (IF rem = <<>> THEN NONE ELSE LastOf(rem))
MinMax    == /\ MinCall(it) = (IF rem = <<>> THEN NONE ELSE Head(rem))
             /\ MaxCall(it) = (IF rem = <<>> THEN NONE ELSE LastOf(rem))
\* exhausted stays exhausted, from both ends
Fused == [][rem = <<>> => rem' = <<>> /\ lbl'[3] = NONE]_vars
\* nothing reappears
Shrinks == [][ \A j \in DOMAIN rem' : \E k \in DOMAIN rem : rem[k] = rem'[j] ]_vars

OpCode == [ next |-> 0, next_back |-> 1, nth |-> 2, nth_back |-> 3 ]
Res(r) == IF r = NONE THEN 0 - 1 ELSE r
Emit == EmitOn =>
    PrintT(<<"T", MaskOf(rem), OpCode[lbl'[1]], lbl'[2], Res(lbl'[4]), MaskOf(rem')>>)
EmitObs == EmitOn => PrintT(<<"O", MaskOf(rem), Size(it), Res(LastCall(it)), Res(MinCall(it)), Res(MaxCall(it))>>)
=============================================================================
