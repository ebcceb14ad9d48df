----------------------------- MODULE IndexModel -----------------------------
(***************************************************************************)
(* What a crate range selects from a container of L elements that may be   *)
(* cut at the offsets in cuts.  M stands for usize::MAX.                   *)
(*   r = <<kind, start included?, start, end included?, end>>              *)
(***************************************************************************)
EXTENDS Integers
CONSTANT M
Panic == <<0 - 1, 0 - 1>>

\* the std range a crate range stands for, as <<s, e>> half open
Start(inc, a) == IF inc = 1 THEN a ELSE a + 1          \* may be M+1: no such index
Finish(inc, b) == IF inc = 1 THEN b + 1 ELSE b
Resolve(r, L) ==
    CASE r[1] = "BoundedRange" ->
            IF Start(r[2], r[3]) > M THEN <<M, M>>
            ELSE IF Finish(r[4], r[5]) > M THEN Panic
            ELSE <<Start(r[2], r[3]), Finish(r[4], r[5])>>
      [] r[1] = "LowerBoundedRange" ->
            IF Start(r[2], r[3]) > M THEN Panic ELSE <<Start(r[2], r[3]), L>>
      [] r[1] = "UpperBoundedRange" ->
            IF Finish(r[4], r[5]) > M THEN Panic ELSE <<0, Finish(r[4], r[5])>>
      [] r[1] = "UnboundedRange" -> <<0, L>>
      [] r[1] = "EmptyRange"     -> <<0, 0>>
Select(r, L, cuts) ==
    LET x == Resolve(r, L) IN
    IF x = Panic \/ x[1] > x[2] \/ x[2] > L \/ x[1] \notin cuts \/ x[2] \notin cuts THEN Panic ELSE x

Has(r, i) ==
    CASE r[1] = "BoundedRange" -> /\ i >= Start(r[2], r[3]) /\ i < Finish(r[4], r[5])
      [] r[1] = "LowerBoundedRange" -> i >= Start(r[2], r[3])
      [] r[1] = "UpperBoundedRange" -> i < Finish(r[4], r[5])
      [] r[1] = "UnboundedRange" -> TRUE
      [] r[1] = "EmptyRange" -> FALSE
=============================================================================
