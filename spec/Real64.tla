------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  A real number is represented by the IEEE-754  *)
(* binary64 number nearest to it, written as the tuple <<hi, lo>> of the   *)
(* two (signed) 32-bit halves of its bit pattern.                          *)
(* TLC evaluates the operators below with the Java methods of the same     *)
(* name in class Real64 (module override); their bodies here only say      *)
(* that they are uninterpreted inside TLA+.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Uninterpreted == CHOOSE x \in {} : TRUE

RAdd(x, y) == Uninterpreted      \* x + y
RSub(x, y) == Uninterpreted      \* x - y
RMul(x, y) == Uninterpreted      \* x * y
RDiv(x, y) == Uninterpreted      \* x / y
RNeg(x)    == Uninterpreted      \* -x
RAbs(x)    == Uninterpreted      \* |x|
RExp(x)    == Uninterpreted      \* e^x
RExpm1(x)  == Uninterpreted      \* e^x - 1
RLn(x)     == Uninterpreted      \* natural logarithm
RLog10(x)  == Uninterpreted      \* decimal logarithm
RSqrt(x)   == Uninterpreted
RCos(x)    == Uninterpreted
RSin(x)    == Uninterpreted
RAcos(x)   == Uninterpreted
RAtan2(y, x) == Uninterpreted
RPowI(x, n) == Uninterpreted     \* x^n for an integer n
RFrac(n, m) == Uninterpreted     \* n / m for integers n, m
RPi        == Uninterpreted
RInf       == Uninterpreted
RSum(s)    == Uninterpreted      \* sum of a sequence of reals
RDot(s, t) == Uninterpreted      \* sum of s[i] * t[i]
RLt(x, y)  == Uninterpreted      \* x < y
RLe(x, y)  == Uninterpreted      \* x <= y
REq(x, y)  == Uninterpreted      \* x = y  (0 = -0, NaN # NaN)
RIsNaN(x)  == Uninterpreted
RIsFinite(x) == Uninterpreted
RStr(x)    == Uninterpreted      \* decimal string (for messages)
RHash(key, n) == Uninterpreted   \* pseudo-random number in 0..n-1 from a tuple of integers

(* A sequence itself.  (TLC evaluates [i \in 1..n |-> e] at every access; the
   override evaluates its elements once.) *)
Eager(s)   == s
EagerF(f)  == f                  \* the same for any function

R0 == RFrac(0, 1)
R1 == RFrac(1, 1)
R2 == RFrac(2, 1)
RI(n) == RFrac(n, 1)

x ++ y  == RAdd(x, y)
x -- y == RSub(x, y)
x ** y == RMul(x, y)
x // y == RDiv(x, y)

RTen == RFrac(10, 1)
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RLt(x, y) THEN x ELSE y
RSgn(x) == IF RLt(R0, x) THEN R1 ELSE IF RLt(x, R0) THEN RNeg(R1) ELSE R0
=============================================================================
