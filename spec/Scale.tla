------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Families of values whose number of pieces grows with n: combs of many   *)
(* kinds, alone, with a head, with a tail, with both, and the ranges that  *)
(* cut or cover them.  Every family is combined with every other by every  *)
(* operation; for each n the result is what RangeAlgebra computes and is   *)
(* checked against the meaning.                                            *)
(*                                                                         *)
(* TLC explores n in NS.  The emitted values are affine in n and in the    *)
(* index of the piece; the harness fits that form to some of the n, checks *)
(* it on the others, and so obtains the specification's result for n in    *)
(* the thousands, where it runs the real code.                             *)
(***************************************************************************)
EXTENDS RangeAlgebra, TLC
CONSTANTS NS, EmitOn

Seqn(n, F(_)) == [ i \in 1 .. n |-> F(i - 1) ]
Cl(a, b) == <<LoInc(a), HiInc(b)>>          \* a ..= b
Ho(a, b) == <<LoInc(a), HiExc(b)>>          \* a .. b
Op(a, b) == <<LoExc(a), HiExc(b)>>          \* both excluded
Oc(a, b) == <<LoExc(a), HiInc(b)>>

Comb(n)   == Seqn(n, LAMBDA i : Cl(4 * i + 4, 4 * i + 5))
Comb1(n)  == Seqn(n, LAMBDA i : Cl(4 * i + 5, 4 * i + 6))
Comb2(n)  == Seqn(n, LAMBDA i : Ho(4 * i + 6, 4 * i + 7))
Touch(n)  == Seqn(n, LAMBDA i : Ho(4 * i + 4, 4 * i + 8))
TouchO(n) == Seqn(n, LAMBDA i : Oc(4 * i + 4, 4 * i + 8))
Gaps(n)   == Seqn(n, LAMBDA i : Op(4 * i + 5, 4 * i + 8))
Dots(n)   == Seqn(2 * n, LAMBDA i : Cl(2 * i + 4, 2 * i + 4))
Hollow(n) == Seqn(n, LAMBDA i : Op(4 * i + 4, 4 * i + 5))       \* no values, if these are neighbours in T
Chain(n)  == Seqn(n, LAMBDA i : Cl(3 * i + 4, 3 * i + 7))       \* each overlaps the next
Nested(n) == Seqn(n, LAMBDA i : Cl(n + 3 - i, n + 4 + i))       \* each contains the previous
End(n)    == 4 * n + 8

Fam(f, n) ==
    CASE f = 1  -> BoundedSet(Comb(n))
      [] f = 2  -> BoundedSet(Comb1(n))
      [] f = 3  -> BoundedSet(Comb2(n))
      [] f = 4  -> BoundedSet(Touch(n))
      [] f = 5  -> BoundedSet(TouchO(n))
      [] f = 6  -> BoundedSet(Dots(n))
      [] f = 7  -> LowerBoundedSet(Comb(n), LoInc(End(n)))
      [] f = 8  -> LowerBoundedSet(Gaps(n), LoExc(End(n)))
      [] f = 9  -> UpperBoundedSet(HiExc(3), Comb1(n))
      [] f = 10 -> UpperBoundedSet(HiInc(3), Touch(n))
      [] f = 11 -> PiecewiseSet(HiInc(2), Comb(n), LoInc(End(n)))
      [] f = 12 -> PiecewiseSet(HiExc(3), Gaps(n), LoExc(End(n)))
      [] f = 13 -> BoundedRange(LoInc(0), HiInc(End(n) + 1))                 \* covers every comb
      [] f = 14 -> RangeInclusive(5, End(n) - 6, FALSE)                      \* cuts the first and last piece
      [] f = 15 -> RangeFrom(9)
      [] f = 16 -> RangeTo(End(n) - 7)
      [] f = 17 -> UpperBoundedRange(HiInc(6))
      [] f = 18 -> LowerBoundedRange(LoExc(End(n) - 5))
      [] f = 19 -> Range(9, 4)                                               \* inverted
      [] f = 20 -> RangeFull
      [] f = 21 -> EmptyRange
      [] f = 22 -> UnboundedRange
      [] f = 23 -> BoundedSet(<<Cl(1, 2)>> \o Hollow(n) \o <<Cl(4 * n + 4, 4 * n + 5)>>)
      [] f = 24 -> LowerBoundedSet(Hollow(n), LoInc(End(n)))
Fams == 1 .. 24
Raw(g, n) == CASE g = 1 -> Comb(n) [] g = 2 -> Touch(n) [] g = 3 -> Chain(n) [] g = 4 -> Nested(n) [] g = 5 -> Dots(n)
Raws == 1 .. 5

\* union of the pieces one after another, onto a starting value
RECURSIVE FoldUnion(_, _)
FoldUnion(v, ps) == IF ps = <<>> THEN v ELSE FoldUnion(Union(v, BoundedRange(ps[1][1], ps[1][2])), Tail(ps))
Reverse(s) == [ i \in 1 .. Len(s) |-> s[Len(s) + 1 - i] ]
EvensOdds(s) == [ i \in 1 .. Len(s) |-> LET h == (Len(s) + 1) \div 2 IN
                                         IF i <= h THEN s[2 * i - 1] ELSE s[2 * (i - h)] ]
\* starting values for folding: one of every kind of set
Start(k, n) == CASE k = 1 -> BoundedSet(<<>>) [] k = 2 -> LowerBoundedSet(<<>>, LoInc(End(n)))
                 [] k = 3 -> UpperBoundedSet(HiExc(2), <<>>) [] k = 4 -> PiecewiseSet(HiExc(2), <<>>, LoInc(End(n)))

VARIABLES n, f, val, den, lbl
vars == <<n, f, val, den, lbl>>
Init == /\ n \in NS /\ f \in Fams /\ val = Fam(f, n) /\ den = Den(val) /\ lbl = <<"init", 0>>
First == lbl[1] = "init"
UnionCall == \E g \in Fams : /\ val' = Union(val, Fam(g, n)) /\ den' = den \cup Den(Fam(g, n)) /\ lbl' = <<"union", g>>
InterCall == \E g \in Fams : /\ val' = Intersection(val, Fam(g, n)) /\ den' = den \cap Den(Fam(g, n))
                             /\ lbl' = <<"intersection", g>>
ComplCall == val' = Complement(val) /\ den' = Positions \ den /\ lbl' = <<"complement", 0>>
SetCall   == val' = ToSet(val) /\ den' = den /\ lbl' = <<"to_set", 0>>
\* building a set piece by piece, in three orders that must agree
FoldCall  == /\ f = 1
             /\ \E k \in 1 .. 4, g \in Raws :
                  LET s == Start(k, n) IN
                  /\ val' = FoldUnion(s, Raw(g, n))
                  /\ den' = Den(s) \cup PiecesDen(Raw(g, n))
                  /\ lbl' = <<"fold", 10 * k + g>>
Next == First /\ n' = n /\ f' = f /\ (UnionCall \/ InterCall \/ ComplCall \/ SetCall \/ FoldCall)
Spec == Init /\ [][Next]_vars

Exact == Den(val) = den
Shape == WellFormed(val)
EmptyExact == IsEmpty(val) <=> den = {}
OrderFree == lbl[1] = "fold" =>
    LET s == Start(lbl[2] \div 10, n)
        r == Raw(lbl[2] % 10, n)
    IN  /\ FoldUnion(s, Reverse(r)) = val
        /\ FoldUnion(s, EvensOdds(r)) = val

OpCode == [ union |-> 0, intersection |-> 1, complement |-> 2, to_set |-> 4, fold |-> 9 ]
ASSUME EmitOn => \A m \in NS : /\ \A g \in Fams : PrintT(<<"F", g, m, ToString(Enc(Fam(g, m)))>>)
                               /\ \A k \in 1 .. 4 : PrintT(<<"F", 100 + k, m, ToString(Enc(Start(k, m)))>>)
                               /\ \A g \in Raws : PrintT(<<"F", 200 + g, m, ToString(Enc(BoundedSet(Raw(g, m))))>>)
Emit == EmitOn => PrintT(<<"S", OpCode[lbl'[1]], f, lbl'[2], n, IF den' = {} THEN 1 ELSE 0, ToString(Enc(val'))>>)
=============================================================================
