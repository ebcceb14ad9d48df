---------------------------- MODULE BigIterTrace ----------------------------
(***************************************************************************)
(* Trace validation of iterators over wide ranges and sets of the 128-bit  *)
(* and 64-bit types, char, and everything smaller.  Values are ranks (see  *)
(* StepTrace).  The model state is the list of closed intervals of values  *)
(* still to come; it is computed from the bounds of the pieces alone.      *)
(*   make      pieces <<lo included?, lo, hi included?, hi>>; lower = 1:   *)
(*             the last one has no upper bound (it is written with the     *)
(*             bound T::MAX; steps past that are not recorded)             *)
(*   next, next_back, nth, nth_back       with the result observed         *)
(*   size, len, count, last, min, max     observers                        *)
(***************************************************************************)
EXTENDS BigNum, TLC, Json

CONSTANTS TraceFile, Cats
Chunks == ndJsonDeserialize(TraceFile)

VARIABLES c, l, ivs, lower, verdict
vars == <<c, l, ivs, lower, verdict>>
Init == /\ c \in 1 .. Len(Chunks) /\ l = 1 /\ ivs = <<>> /\ lower = FALSE /\ verdict = "ok"

None == <<>>
Max == Chunks[c].max

\* the closed interval of values a piece admits, or <<>>
Closed(p) ==
    IF p[1] = 0 /\ p[2] = Max THEN <<>>          \* excluded T::MAX as start
    ELSE IF p[3] = 0 /\ p[4] = BZero THEN <<>>   \* excluded T::MIN as end
    ELSE LET a == IF p[1] = 1 THEN p[2] ELSE BAdd(p[2], BOne)
             b == IF p[3] = 1 THEN p[4] ELSE BSub(p[4], BOne)
         IN  IF BLeq(a, b) THEN << <<a, b>> >> ELSE <<>>
RECURSIVE Intervals(_)
Intervals(ps) == IF ps = <<>> THEN <<>> ELSE Closed(Head(ps)) \o Intervals(Tail(ps))

SizeOf(iv) == BAdd(BSub(iv[2], iv[1]), BOne)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN BZero ELSE BAdd(SizeOf(Head(s)), Total(Tail(s)))
Front(s) == SubSeq(s, 1, Len(s) - 1)
LastOf(s) == s[Len(s)]

\* <<result, intervals left>> of skipping n values and taking one
RECURSIVE Take(_, _)
Take(s, n) ==
    IF s = <<>> THEN <<None, <<>> >>
    ELSE LET iv == Head(s)
             k  == SizeOf(iv)
         IN  IF BLeq(k, n) THEN Take(Tail(s), BSub(n, k))
             ELSE LET v == BAdd(iv[1], n) IN
                  <<v, (IF v = iv[2] THEN <<>> ELSE << <<BAdd(v, BOne), iv[2]>> >>) \o Tail(s)>>
RECURSIVE TakeBack(_, _)
TakeBack(s, n) ==
    IF s = <<>> THEN <<None, <<>> >>
    ELSE LET iv == LastOf(s)
             k  == SizeOf(iv)
         IN  IF BLeq(k, n) THEN TakeBack(Front(s), BSub(n, k))
             ELSE LET v == BSub(iv[2], n) IN
                  <<v, Front(s) \o (IF v = iv[1] THEN <<>> ELSE << <<iv[1], BSub(v, BOne)>> >>)>>

Cat(e) == IF e.op \in {"size", "len", "count", "last", "max"} \/ (e.op = "min" /\ ~lower) THEN "size"
          ELSE IF lower THEN "lower"
          ELSE IF e.op = "next" THEN "next" ELSE "ends"

Moves == {"next", "next_back", "nth", "nth_back"}
After(e) == CASE e.op = "next"      -> Take(ivs, BZero)
              [] e.op = "nth"       -> Take(ivs, e.n)
              [] e.op = "next_back" -> TakeBack(ivs, BZero)
              [] e.op = "nth_back"  -> TakeBack(ivs, e.n)

Right(e) ==
    IF e.ok # 1 THEN FALSE
    ELSE CASE e.op \in Moves -> e.res = After(e)[1]
           [] e.op = "size"  ->
                  IF lower THEN e.hi = None
                  ELSE LET t == Total(ivs) IN
                       IF BLeq(t, BUsizeMax) THEN e.lo = t /\ e.hi = t
                       ELSE e.hi = None /\ BLeq(e.lo, t)
           [] e.op \in {"len", "count"} -> e.res = Total(ivs)
           [] e.op = "last"  -> e.res = (IF ivs = <<>> THEN None ELSE LastOf(ivs)[2])
           [] e.op = "max"   -> e.res = (IF ivs = <<>> THEN None ELSE LastOf(ivs)[2])
           [] e.op = "min"   -> e.res = (IF ivs = <<>> THEN None ELSE Head(ivs)[1])

Next == /\ verdict = "ok" /\ l <= Len(Chunks[c].ev)
        /\ l' = l + 1 /\ c' = c
        /\ LET e == Chunks[c].ev[l] IN
           IF e.op = "make"
           THEN /\ lower' = (e.lower = 1)
                /\ ivs' = Intervals(e.pieces)
                /\ verdict' = IF e.ok = 1 THEN "ok" ELSE IF e.lower = 1 THEN "lower" ELSE "next"
           ELSE /\ lower' = lower
                /\ ivs' = IF e.op \in Moves THEN After(e)[2] ELSE ivs
                /\ verdict' = IF Right(e) THEN "ok" ELSE Cat(e)
Spec == Init /\ [][Next]_vars
Accepted == verdict = "ok" \/ verdict \notin Cats
\* intervals stay non-empty, ascending and apart
ModelSane == /\ \A i \in DOMAIN ivs : BLeq(ivs[i][1], ivs[i][2])
             /\ \A i \in 1 .. (Len(ivs) - 1) : BLt(ivs[i][2], ivs[i + 1][1])
\* Checked on falsified recordings, in which the last event is a lie.
Rejected == l > Len(Chunks[c].ev) => ~Accepted
=============================================================================
