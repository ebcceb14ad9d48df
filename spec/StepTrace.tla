----------------------------- MODULE StepTrace -----------------------------
(***************************************************************************)
(* Trace validation of Step for the built-in element types.  A value of T  *)
(* is its rank (the number of smaller values of T), so that successors add *)
(* one, T::MIN is 0 and T::MAX is Max; signed integers and char (which     *)
(* skips the surrogates) look alike from here.                             *)
(*   fwd, bwd          forward_checked, backward_checked: rank or none     *)
(*   forward, backward the unchecked versions (unspecified out of range)   *)
(*   steps             steps_between                                       *)
(*   *_row             the same for one start and every second argument    *)
(*                     0, 1, 2, ... of a small type (plain integers)       *)
(*   page              forward or backward by d from every value a .. z    *)
(***************************************************************************)
EXTENDS BigNum, TLC, Json

CONSTANT TraceFile
Chunks == ndJsonDeserialize(TraceFile)

VARIABLES c, l, verdict
vars == <<c, l, verdict>>
Init == c \in 1 .. Len(Chunks) /\ l = 1 /\ verdict = "ok"

None == <<>>
Fwd(max, a, n) == LET s == BAdd(a, n) IN IF BLeq(s, max) THEN s ELSE None
Bwd(a, n)      == IF BLeq(n, a) THEN BSub(a, n) ELSE None
Steps(a, b)    == IF BLt(b, a) THEN None
                  ELSE LET d == BSub(b, a) IN IF BLeq(d, BUsizeMax) THEN d ELSE None
\* the successor relation is what the arithmetic iterates
Sound(max, a, n) ==
    LET f == Fwd(max, a, n) IN
    f # None => /\ Bwd(f, n) = a
                /\ BLeq(n, BUsizeMax) => Steps(a, f) = n

RowFwd(max, a)  == [ i \in 1 .. (max + 4) |-> IF a + i - 1 <= max THEN a + i - 1 ELSE 0 - 1 ]
RowBwd(max, a)  == [ i \in 1 .. (max + 4) |-> IF a - (i - 1) >= 0 THEN a - (i - 1) ELSE 0 - 1 ]
RowStep(max, a) == [ i \in 1 .. (max + 1) |-> IF i - 1 >= a THEN i - 1 - a ELSE 0 - 1 ]
Page(a, z, d, smax) == [ i \in 1 .. (z - a + 1) |-> LET r == a + i - 1 + d IN IF r < 0 \/ r > smax THEN 0 - 1 ELSE r ]

Right(max, smax, e) ==
    IF e.ok # 1
    THEN \* panicking is allowed to forward/backward only, out of range
         \/ e.op = "forward" /\ e.ok = 0 /\ Fwd(max, e.a, e.n) = None
         \/ e.op = "backward" /\ e.ok = 0 /\ Bwd(e.a, e.n) = None
    ELSE CASE e.op = "fwd"       -> e.res = Fwd(max, e.a, e.n) /\ Sound(max, e.a, e.n)
           [] e.op = "bwd"       -> e.res = Bwd(e.a, e.n)
           [] e.op = "steps"     -> e.res = Steps(e.a, e.n)
           [] e.op = "forward"   -> Fwd(max, e.a, e.n) # None => e.res = Fwd(max, e.a, e.n)
           [] e.op = "backward"  -> Bwd(e.a, e.n) # None => e.res = Bwd(e.a, e.n)
           [] e.op = "fwd_row"   -> e.res = RowFwd(smax, e.a)
           [] e.op = "bwd_row"   -> e.res = RowBwd(smax, e.a)
           [] e.op = "steps_row" -> e.res = RowStep(smax, e.a)
           [] e.op = "page"      -> e.res = Page(e.a, e.z, e.d, smax)

Next == /\ verdict = "ok" /\ l <= Len(Chunks[c].ev)
        /\ l' = l + 1 /\ c' = c
        /\ LET e == Chunks[c].ev[l]
           IN  verdict' = IF Right(Chunks[c].max, Chunks[c].smax, e) THEN "ok" ELSE e.op
Spec == Init /\ [][Next]_vars
Accepted == verdict = "ok"
\* Checked on falsified recordings, in which the last event is a lie.
Rejected == l > Len(Chunks[c].ev) => ~Accepted
=============================================================================
