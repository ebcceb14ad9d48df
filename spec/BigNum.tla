------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Natural numbers up to 144 bits as little-endian sequences of six 24-bit *)
(* limbs: TLC's integers have 32 bits, the crate's element types have 128. *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL B == 16777216
LOCAL W == 6
BZero == <<0, 0, 0, 0, 0, 0>>
BOne  == <<1, 0, 0, 0, 0, 0>>
BOf(i) == <<i % B, i \div B, 0, 0, 0, 0>>            \* 0 <= i < 2^31
IsBig(a) == Len(a) = W /\ \A i \in 1 .. W : a[i] \in 0 .. (B - 1)

RECURSIVE AddFrom(_, _, _, _)
LOCAL AddFrom(a, b, i, c) ==
    IF i > W THEN <<>>
    ELSE LET s == a[i] + b[i] + c
         IN  <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
BAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
LOCAL SubFrom(a, b, i, c) ==
    IF i > W THEN <<>>
    ELSE LET d == a[i] - b[i] - c
         IN  IF d < 0 THEN <<d + B>> \o SubFrom(a, b, i + 1, 1)
             ELSE <<d>> \o SubFrom(a, b, i + 1, 0)
BSub(a, b) == SubFrom(a, b, 1, 0)                      \* requires a >= b

RECURSIVE LessFrom(_, _, _)
LOCAL LessFrom(a, b, i) ==
    IF i = 0 THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
BLt(a, b)  == LessFrom(a, b, W)
BLeq(a, b) == ~LessFrom(b, a, W)
BUsizeMax == <<B - 1, B - 1, 65535, 0, 0, 0>>          \* 2^64 - 1
=============================================================================
