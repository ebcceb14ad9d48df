---------------------------- MODULE BigNumCheck ----------------------------
(***************************************************************************)
(* Sanity of BigNum: its operators agree with TLC's integers wherever both *)
(* exist, and carries ripple through all limbs.                            *)
(***************************************************************************)
EXTENDS BigNum, TLC
Small == {0, 1, 2, 16777214, 16777215, 16777216, 16777217, 33554431, 1073741823}
TopLimb == [ i \in 1 .. 6 |-> 16777215 ]
VARIABLE x
Init == x \in Small \X Small
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Agrees == LET a == x[1] b == x[2] IN
    /\ IsBig(BOf(a))
    /\ a + b < 2147483647 => BAdd(BOf(a), BOf(b)) = BOf(a + b)
    /\ a >= b => BSub(BOf(a), BOf(b)) = BOf(a - b)
    /\ BLt(BOf(a), BOf(b)) <=> a < b
    /\ BLeq(BOf(a), BOf(b)) <=> a <= b
    /\ BSub(BAdd(BUsizeMax, BOf(a)), BOf(a)) = BUsizeMax
    /\ BAdd(BUsizeMax, BOne) = <<0, 0, 65536, 0, 0, 0>>
    /\ BAdd(TopLimb, BOne) = BZero
    /\ BSub(<<0, 0, 65536, 0, 0, 0>>, BOne) = BUsizeMax
=============================================================================
