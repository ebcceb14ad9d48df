----------------------------- MODULE ConvTrace ------------------------------
(***************************************************************************)
(* Trace validation of conversions with endpoints anywhere in types as     *)
(* wide as u128.  Values are ranks (see StepTrace).  A history starts from *)
(* some range and converts it again and again; the ghost mem is the closed *)
(* interval of values the first one contains, <<>> if it contains none.    *)
(*   new     r = <<kind, start included?, start, end included?, end>>      *)
(*   conv    t = the target type; ok; r = what came out (not judged by its *)
(*           bounds but by the values they admit)                          *)
(* An inclusive std range that says it is spent is written with its end    *)
(* excluded.                                                               *)
(***************************************************************************)
EXTENDS BigNum, TLC, Json
CONSTANT TraceFile
Chunks == ndJsonDeserialize(TraceFile)

VARIABLES c, l, mem, verdict
vars == <<c, l, mem, verdict>>
Init == c \in 1 .. Len(Chunks) /\ l = 1 /\ mem = <<>> /\ verdict = "ok"

Max == Chunks[c].max
NoLower == {"RangeTo", "RangeToInclusive", "RangeFull", "UpperBoundedRange", "UnboundedRange"}
NoUpper == {"RangeFrom", "RangeFull", "LowerBoundedRange", "UnboundedRange"}
\* the closed interval of values of T a range admits
Admits(r) ==
    IF r[1] = "EmptyRange" THEN <<>>
    ELSE LET free == r[1] \in NoLower
             open == r[1] \in NoUpper
         IN  IF ~free /\ r[2] = 0 /\ r[3] = Max THEN <<>>
             ELSE IF ~open /\ r[4] = 0 /\ r[5] = BZero THEN <<>>
             ELSE LET a == IF free THEN BZero ELSE IF r[2] = 1 THEN r[3] ELSE BAdd(r[3], BOne)
                      b == IF open THEN Max ELSE IF r[4] = 1 THEN r[5] ELSE BSub(r[5], BOne)
                  IN  IF BLeq(a, b) THEN <<a, b>> ELSE <<>>
\* can the target hold exactly these values?
Expressible(t) ==
    CASE t = "Range"            -> mem = <<>> \/ mem[2] # Max
      [] t = "RangeInclusive"   -> TRUE                \* an inverted one is empty
      [] t = "RangeFrom"        -> mem # <<>> /\ mem[2] = Max
      [] t = "RangeTo"          -> mem = <<>> \/ (mem[1] = BZero /\ mem[2] # Max)
      [] t = "RangeToInclusive" -> mem # <<>> /\ mem[1] = BZero
      [] t = "RangeFull"        -> mem = <<BZero, Max>>
      [] OTHER                  -> TRUE                \* crate types: any bounds
InType(r) == \A k \in {3, 5} : BLeq(r[k], Max)

Next == /\ verdict = "ok" /\ l <= Len(Chunks[c].ev)
        /\ l' = l + 1 /\ c' = c
        /\ LET e == Chunks[c].ev[l] IN
           IF e.op = "new" THEN mem' = Admits(e.r) /\ verdict' = "ok"
           ELSE /\ mem' = mem
                /\ verdict' = IF ~Expressible(e.t) THEN (IF e.ok = 0 THEN "ok" ELSE "returned")
                              ELSE IF e.ok = 0 THEN "panicked"
                              ELSE IF ~InType(e.r) \/ e.r[1] # e.t THEN "malformed"
                              ELSE IF Admits(e.r) = mem THEN "ok" ELSE "members"
Spec == Init /\ [][Next]_vars
Accepted == verdict = "ok"
\* Checked on falsified recordings, in which the last event is a lie.
Rejected == l > Len(Chunks[c].ev) => ~Accepted
=============================================================================
