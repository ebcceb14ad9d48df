----------------------------- MODULE LowerIter -----------------------------
(***************************************************************************)
(* Iteration of lower-bounded ranges and sets.  Such an iterator never     *)
(* ends; what it owes the client is every contained value of T in          *)
(* ascending order (like std's RangeFrom it may panic or wrap once it is   *)
(* asked to step past T::MAX), so rem lists the values still to come in    *)
(* 0 .. TMax and a call is explored while rem can serve it.                *)
(***************************************************************************)
EXTENDS IterModel

CONSTANT EmitOn

VARIABLES it, rem, lbl
vars == <<it, rem, lbl>>
View == <<it, rem>>

\* LowerBoundedRangeIter is the bound below the values still to come;
\* LowerBoundedSetIter a set iterator followed by one of those.
LNew(v) == [ ps |-> IF v.k = "LowerBoundedSet" THEN SNew(v.rs) ELSE <<>>, lo |-> v.lo ]
TailNext(i) == LET t == FirstVal(i.lo) IN <<t, [i EXCEPT !.lo = LoExc(t)]>>
TailNth(i, n) == TailNext([i EXCEPT !.lo = @ + 2 * n])
LNext(i) == LET r == SNext(i.ps) IN
            IF r[1] # NONE THEN <<r[1], [i EXCEPT !.ps = r[2]]>>
            ELSE TailNext([i EXCEPT !.ps = r[2]])
LNth(i, n) == LET size == SSize(i.ps)
                  r    == SNth(i.ps, n)
              IN  IF r[1] # NONE THEN <<r[1], [i EXCEPT !.ps = r[2]]>>
                  ELSE TailNth([i EXCEPT !.ps = r[2]], n - size)

Iterable == { LowerBoundedRange(lo) : lo \in LoBounds }
            \cup UNION { { LowerBoundedSet(rs, lo) : rs \in PieceLists(PosLo, Min2(lo - 1, PosHi)) }
                         : lo \in LoBounds }
DenOf(v) == { x \in 0 .. TMax :
                       \/ LoInc(x) >= v.lo
                       \/ v.k = "LowerBoundedSet" /\ LoInc(x) \in PiecesDen(v.rs) }

Init == \E v \in Iterable :
          /\ it = LNew(v)
          /\ rem = Ascending(DenOf(v), 0)
          /\ lbl = <<"init", 0, NONE, NONE>>
          /\ EmitOn => PrintT(<<"I", MaskOf(rem), ToString(Enc(v))>>)

Do(op, n, r) == LET a == AbsCall(rem, op, n)
                IN  /\ n < Len(rem)
                    /\ it' = r[2] /\ rem' = a[2] /\ lbl' = <<op, n, r[1], a[1]>>
Next == \/ Do("next", 0, LNext(it))
        \/ \E n \in 0 .. TMax : Do("nth", n, LNth(it, n))
Spec == Init /\ [][Next]_vars

Results == [][lbl'[3] = lbl'[4]]_vars
\* the tail is never behind what is still to come, nor ahead of it
Refines == { rem[j] : j \in DOMAIN rem } = SRem(it.ps) \cup { x \in 0 .. TMax : LoInc(x) >= it.lo }
\* pieces end before the tail starts
Apart == \A x \in SRem(it.ps) : LoInc(x) < it.lo

OpCode == [ next |-> 0, nth |-> 2 ]
Emit == EmitOn => PrintT(<<"T", MaskOf(rem), OpCode[lbl'[1]], lbl'[2], lbl'[4], MaskOf(rem')>>)
=============================================================================
