----------------------------- MODULE IndexTrace -----------------------------
(***************************************************************************)
(* Trace validation of indexing in containers far larger than Index.tla    *)
(* enumerates.  A history is one container (len, where it may be cut) and  *)
(* a sequence of reads and writes through crate ranges, with the place     *)
(* that was handed out; after a write, which elements have changed.        *)
(* Indices are below 10^6, or the last few of usize written as             *)
(* M - (usize::MAX - i), or next to a power of two written as              *)
(* 10^6 + 1000 k + (i - 2^k); the recorder uses no others, so that order   *)
(* and successors are kept and nothing else matters beyond the container.  *)
(*   read, write   r, ok, got = <<offset, length>>                         *)
(*   write also     touched = <<first, last + 1, how many>> changed        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT TraceFile
Far == 2000000
INSTANCE IndexModel WITH M <- Far
Chunks == ndJsonDeserialize(TraceFile)
CutsOf == [ i \in 1 .. Len(Chunks) |->
              IF Chunks[i].cuts = <<>> THEN 0 .. Chunks[i].len
              ELSE { Chunks[i].cuts[j] : j \in DOMAIN Chunks[i].cuts } ]

VARIABLES c, l, verdict
vars == <<c, l, verdict>>
Init == c \in 1 .. Len(Chunks) /\ l = 1 /\ verdict = "ok"

Right(e) ==
    LET s == Select(e.r, Chunks[c].len, CutsOf[c])
    IN  IF s = Panic THEN e.ok = 0 /\ (e.op = "write" => e.touched[3] = 0)
        ELSE /\ e.ok = 1
             /\ e.got[2] = s[2] - s[1]
             /\ s[1] # s[2] => e.got[1] = s[1]         \* where nothing is selected it does not matter from where
             /\ e.op = "write" => IF s[1] = s[2] THEN e.touched[3] = 0
                                  ELSE e.touched = <<s[1], s[2], s[2] - s[1]>>
\* the selection is the members below len (first and last of them, and their neighbours)
Sound(e) ==
    LET s == Select(e.r, Chunks[c].len, CutsOf[c])
    IN  (s # Panic /\ s[1] # s[2]) =>
            /\ Has(e.r, s[1]) /\ Has(e.r, s[2] - 1)
            /\ s[1] > 0 => ~Has(e.r, s[1] - 1)
            /\ s[2] < Chunks[c].len => ~Has(e.r, s[2])

Next == /\ verdict = "ok" /\ l <= Len(Chunks[c].ev)
        /\ l' = l + 1 /\ c' = c
        /\ LET e == Chunks[c].ev[l]
           IN  verdict' = IF ~Sound(e) THEN "model" ELSE IF Right(e) THEN "ok" ELSE e.op
Spec == Init /\ [][Next]_vars
ModelSane == verdict # "model"
Accepted == verdict \in {"ok", "model"}
\* Checked on falsified recordings, in which the last event is a lie.
Rejected == l > Len(Chunks[c].ev) => ~Accepted
=============================================================================
