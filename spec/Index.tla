------------------------------- MODULE Index -------------------------------
(***************************************************************************)
(* Indexing containers with crate ranges.  A container has L elements      *)
(* (bytes for strings); cuts is the set of offsets at which it may be cut  *)
(* (every offset for slices, the character boundaries for strings).        *)
(* Indices are 0 .. M where M stands for usize::MAX, far beyond L.         *)
(* The machine reads, or writes through IndexMut, and the content must     *)
(* change exactly at the selected places.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, EmitOn

M == MaxLen + 3                  \* usize::MAX; M-1 is usize::MAX - 1
Idx == 0 .. M
INSTANCE IndexModel WITH M <- MaxLen + 3

F == {0, 1}
Ranges == { <<"BoundedRange", i, a, j, b>> : i \in F, a \in Idx, j \in F, b \in Idx }
          \cup { <<"LowerBoundedRange", i, a, 0, 0>> : i \in F, a \in Idx }
          \cup { <<"UpperBoundedRange", 0, 0, j, b>> : j \in F, b \in Idx }
          \cup { <<"UnboundedRange", 0, 0, 0, 0>>, <<"EmptyRange", 0, 0, 0, 0>> }

\* all ways of cutting L bytes into characters of one to four bytes
RECURSIVE Cuts(_)
Cuts(L) == IF L = 0 THEN { {0} }
           ELSE { c \cup {L} : c \in UNION { Cuts(L - w) : w \in { w \in 1 .. 4 : w <= L } } }

VARIABLES len, cuts, marks, lbl
vars == <<len, cuts, marks, lbl>>
View == <<len, cuts, marks>>
Init == /\ len \in 0 .. MaxLen /\ cuts \in Cuts(len)
        /\ marks = {} /\ lbl = <<"init">>
Read(r)  == /\ UNCHANGED <<len, cuts, marks>>
            /\ lbl' = <<"read", r, Select(r, len, cuts)>>
Write(r) == LET s == Select(r, len, cuts) IN
            /\ marks = {}              \* one write from a clean container
            /\ r[1] # "EmptyRange"     \* offered for reading only
            /\ marks' = IF s = Panic THEN marks ELSE s[1] .. (s[2] - 1)
            /\ UNCHANGED <<len, cuts>>
            /\ lbl' = <<"write", r, s>>
Next == \E r \in Ranges : Read(r) \/ Write(r)
Spec == Init /\ [][Next]_vars

\* what is selected is exactly the members below len
Exact == [][ lbl'[3] # Panic =>
               (lbl'[3][1] .. (lbl'[3][2] - 1)) = { i \in 0 .. (len - 1) : Has(lbl'[2], i) } ]_vars
\* a write touches exactly those
Touched == [][ lbl'[1] = "write" /\ lbl'[3] # Panic => marks' = { i \in 0 .. (len - 1) : Has(lbl'[2], i) } ]_vars
\* a range whose members all lie inside, on boundaries and not inverted, is accepted
Accepts == [][ \A r \in {lbl'[2]} :
                 (r[1] = "BoundedRange" /\ Start(r[2], r[3]) \in cuts /\ Finish(r[4], r[5]) \in cuts
                    /\ Start(r[2], r[3]) <= Finish(r[4], r[5])) => lbl'[3] # Panic ]_vars

RECURSIVE Mask(_, _)
Mask(S, x) == IF x > MaxLen THEN 0 ELSE (IF x \in S THEN 2 ^ x ELSE 0) + Mask(S, x + 1)
Emit == EmitOn => PrintT(<<"X", IF lbl'[1] = "read" THEN 0 ELSE 1, len, Mask(cuts, 0), lbl'[2][1], lbl'[2][2],
                           lbl'[2][3], lbl'[2][4], lbl'[2][5], lbl'[3][1], lbl'[3][2]>>)
=============================================================================
