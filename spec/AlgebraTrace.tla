---------------------------- MODULE AlgebraTrace ----------------------------
(***************************************************************************)
(* Trace validation (code -> spec) of recorded histories of set-algebra    *)
(* calls.  A history is a sequence of calls on a few registers holding     *)
(* values; every event carries what the code was observed to do:           *)
(*    ok     the call returned (0: it panicked)                            *)
(*    has    the probed positions the result contains                      *)
(*    empty  is_empty of the result                                        *)
(*    it     iterating it, if bounded, returned values or None             *)
(*    kind   its static type                                               *)
(*    eq/ne  the registers of the same type it compares equal / unequal to *)
(*    hd     registers it equals but whose hash differs                    *)
(*    law    union and intersection: the operands swapped, and one of them *)
(*           applied once more, give an equal set with an equal hash; and  *)
(*           copying the result over another value (clone_from) gives an   *)
(*           equal value                                                   *)
(*    list   on = 1: what iterating it yields, as points (recorded where   *)
(*           the points are neighbours in T): fwd, back, both ends in turn *)
(*           (front half, then back half reversed), size_hint().1, last;   *)
(*           on = 2: iterating panicked; on = 0: not recorded              *)
(* The model keeps the value each register must hold and, as ghost, the    *)
(* set of positions it must denote, using the operators of RangeAlgebra.   *)
(*                                                                         *)
(* Every mismatch belongs to a category; Cats selects the categories the   *)
(* current check decides.  A mismatch of another category ends the history *)
(* (the model no longer describes the registers).                          *)
(*                                                                         *)
(* With Light, only the meaning of the registers is tracked, not the shape *)
(* the code must give them: membership, emptiness, disjointness, equality  *)
(* of what is equal and the listings are still judged, over hundreds of    *)
(* points and pieces.                                                      *)
(***************************************************************************)
EXTENDS RangeAlgebra, TLC, Json

CONSTANTS Cats, TraceFile, Light

Chunks == ndJsonDeserialize(TraceFile)

VARIABLES c, l, regs, dens, verdict
vars == <<c, l, regs, dens, verdict>>

ToSetOf(s) == { s[i] : i \in DOMAIN s }

Regs == 1 .. 8

Init == /\ c \in 1 .. Len(Chunks)
        /\ l = 1
        /\ regs = [ r \in Regs |-> EmptyRange ]
        /\ dens = [ r \in Regs |-> {} ]
        /\ verdict = "ok"

KindCode(v) == Enc(v)[1]

Result(e) ==
    CASE e.op = "make"         -> Dec(e.enc)
      [] e.op = "union"        -> Union(regs[e.a], regs[e.b])
      [] e.op = "intersection" -> Intersection(regs[e.a], regs[e.b])
      [] e.op = "complement"   -> Complement(regs[e.a])
      [] e.op = "to_inner"     -> ToInner(regs[e.a])
      [] e.op = "to_set"       -> ToSet(regs[e.a])
      [] e.op = "reload"       -> regs[e.a]
Meaning(e) ==
    CASE e.op = "make"         -> Den(Dec(e.enc))
      [] e.op = "union"        -> dens[e.a] \cup dens[e.b]
      [] e.op = "intersection" -> dens[e.a] \cap dens[e.b]
      [] e.op = "complement"   -> Positions \ dens[e.a]
      [] OTHER                 -> dens[e.a]
OpCat(e) ==
    CASE e.op = "union"        -> "union"
      [] e.op = "intersection" -> "intersection"
      [] e.op = "complement"   -> "complement"
      [] e.op = "reload"       -> "serde"
      [] OTHER                 -> "build"

RECURSIVE AscFrom(_, _)
AscFrom(d, v) == IF v >= N THEN <<>> ELSE (IF LoInc(v) \in d THEN <<v>> ELSE <<>>) \o AscFrom(d, v + 1)
Reversed(s) == [ i \in 1 .. Len(s) |-> s[Len(s) + 1 - i] ]
IterCats == {"fwd", "ends", "size", "lower"}
\* Iterating the result yields the points in it.
JudgeList(li, k, d) ==
    IF li.on = 0 \/ Cats \cap IterCats = {} THEN "ok"
    ELSE LET want == AscFrom(d, 0)
             low  == k \in {KindCode(LowerBoundedRange(1)), KindCode(LowerBoundedSet(<<>>, 1))}
         IN  IF li.on = 2 THEN (IF low THEN "lower" ELSE IF Cats = {"lower"} THEN "other"
                                    ELSE CHOOSE x \in IterCats : x \in Cats)
             ELSE IF low THEN (IF "size" \in Cats THEN (IF li.size # 0 - 1 THEN "size" ELSE "ok")
                               ELSE IF li.fwd # want THEN "lower" ELSE "ok")
             ELSE IF "fwd" \in Cats /\ li.fwd # want THEN "fwd"
             ELSE IF "ends" \in Cats /\ (li.back # Reversed(want) \/ li.both # want) THEN "ends"
             ELSE IF "size" \in Cats /\ (li.size # Len(want) \/ li.last # (IF want = <<>> THEN 0 - 1 ELSE want[Len(want)]))
                  THEN "size"
             ELSE "ok"

\* What was observed and is not what the model says.  Wrong members explain
\* everything else, so nothing else is judged then.
Mismatches(e, v, d) ==
    LET probed == ToSetOf(Chunks[c].probed)
        has    == ToSetOf(e.has)
        When(P, cat) == IF P THEN {cat} ELSE {}
    IN  IF e.ok = 0 THEN {IF "total" \in Cats THEN "total" ELSE OpCat(e)}
        ELSE IF has # (d \cap probed) THEN {OpCat(e)}
        ELSE When(~Light /\ e.kind # KindCode(v), "type")
             \cup When((e.empty = 1) # (d = {}), "empty")
             \cup When(\E j \in ToSetOf(e.eq) : (dens[j] \cap probed) # has, "eq")
             \cup When(~Light /\ d # {} /\ \E j \in ToSetOf(e.ne) : regs[j] = v, "eq")
             \cup When(e.hd # <<>>, "eq")
             \cup When(e.law = 0, "eq")           \* Laws: UnionCommutative .. InterIdempotent
             \cup When(e.it = 0, "total")
             \cup ({JudgeList(e.list, e.kind, d)} \ {"ok"})
Judge(e, v, d) ==
    LET ms == Mismatches(e, v, d)
    IN  IF ms = {} THEN "ok"
        ELSE IF ms \cap Cats # {} THEN CHOOSE m \in ms \cap Cats : TRUE
        ELSE CHOOSE m \in ms : TRUE

Call(e) ==
    LET v == IF Light THEN EmptyRange ELSE Result(e)
        d == Meaning(e)
    IN  /\ regs' = [regs EXCEPT ![e.dst] = v]
        /\ dens' = [dens EXCEPT ![e.dst] = d]
        /\ verdict' = Judge(e, v, d)

Query(e) ==                      \* disjoint, intersects
    LET apart == dens[e.a] \cap dens[e.b] = {}
        want  == IF e.op = "disjoint" THEN apart ELSE ~apart
    IN  /\ UNCHANGED <<regs, dens>>
        /\ verdict' = IF e.ok = 0 THEN (IF "total" \in Cats THEN "total" ELSE "empty")
                      ELSE IF (e.res = 1) # want THEN "empty" ELSE "ok"

Next == /\ verdict = "ok"
        /\ l <= Len(Chunks[c].ev)
        /\ l' = l + 1
        /\ c' = c
        /\ LET e == Chunks[c].ev[l]
           IN  IF e.op \in {"disjoint", "intersects"} THEN Query(e) ELSE Call(e)

Spec == Init /\ [][Next]_vars

\* The code did what the specification says, as far as this check decides.
Accepted == verdict = "ok" \/ verdict \notin Cats
\* The model itself stays sane along every recorded history.
ModelSane == Light \/ \A r \in Regs : Den(regs[r]) = dens[r] /\ WellFormed(regs[r])
\* Checked on falsified recordings, in which the last event is a lie.
Rejected == l > Len(Chunks[c].ev) => ~Accepted
=============================================================================
