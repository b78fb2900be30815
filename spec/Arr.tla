--------------------------------- MODULE Arr ---------------------------------
(***************************************************************************)
(* Arrays and broadcasting.  An array is a record [sh, v]: its shape (a    *)
(* sequence of positive integers, <<>> for a scalar) and its elements in   *)
(* row-major order.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LOCAL MaxI(a, b) == IF a >= b THEN a ELSE b

RECURSIVE ProdTo(_, _)
ProdTo(s, n) == IF n = 0 THEN 1 ELSE s[n] * ProdTo(s, n - 1)
Size(sh) == ProdTo(sh, Len(sh))

(* the k-th dimension counted from the last one; missing dimensions are 1 *)
DimFromEnd(sh, k) == IF k > Len(sh) THEN 1 ELSE sh[Len(sh) + 1 - k]

Compatible(s, t) == \A k \in 1 .. MaxI(Len(s), Len(t)) :
   LET a == DimFromEnd(s, k) b == DimFromEnd(t, k) IN a = b \/ a = 1 \/ b = 1

Bcast2(s, t) == LET n == MaxI(Len(s), Len(t)) IN
   [k \in 1 .. n |-> MaxI(DimFromEnd(s, n + 1 - k), DimFromEnd(t, n + 1 - k))]

RECURSIVE BcastTo(_, _)
BcastTo(shs, n) == IF n = 0 THEN <<>> ELSE Bcast2(BcastTo(shs, n - 1), shs[n])
Bcast(shs) == BcastTo(shs, Len(shs))                  \* shs: sequence of shapes

BroadcastableTo(sh, bsh) == Compatible(sh, bsh) /\ Bcast2(sh, bsh) = bsh

(* Row-major position (0-based) in an array of shape sh of the element that
   broadcasting puts at row-major position p (0-based) of shape bsh. *)
RECURSIVE PosRec(_, _, _, _, _, _)
PosRec(sh, bsh, p, k, stride, acc) ==
   IF k > Len(bsh) THEN acc
   ELSE LET nb == DimFromEnd(bsh, k)
            ns == DimFromEnd(sh, k)
            i  == p % nb
        IN PosRec(sh, bsh, p \div nb, k + 1, stride * ns,
                  acc + (IF ns = 1 THEN 0 ELSE i * stride))
Pos(sh, bsh, p) == PosRec(sh, bsh, p, 1, 1, 0)

At(a, bsh, p) == a.v[Pos(a.sh, bsh, p) + 1]
AtLeast1d(a) == IF a.sh = <<>> THEN [sh |-> <<1>>, v |-> a.v] ELSE a
=============================================================================
