-------------------------------- MODULE Dual --------------------------------
(***************************************************************************)
(* Dual numbers a + b*eps with eps^2 = 0, written <<a, b>>.  Evaluating a  *)
(* model at dual numbers gives its value (part a) together with its exact  *)
(* directional derivative (part b); this is how the specification defines  *)
(* the Jacobian.                                                           *)
(***************************************************************************)
EXTENDS Real64

Re(u) == u[1]
Du(u) == u[2]
DC(x) == <<x, R0>>               \* a constant
DV(x) == <<x, R1>>               \* the variable with respect to which we derive
DN(n) == DC(RI(n))

DAdd(u, v) == <<u[1] ++ v[1], u[2] ++ v[2]>>
DSub(u, v) == <<u[1] -- v[1], u[2] -- v[2]>>
DMul(u, v) == <<u[1] ** v[1], (u[1] ** v[2]) ++ (u[2] ** v[1])>>
DDiv(u, v) == <<u[1] // v[1],
                ((u[2] ** v[1]) -- (u[1] ** v[2])) // (v[1] ** v[1])>>
DNeg(u) == <<RNeg(u[1]), RNeg(u[2])>>
DScale(x, u) == <<x ** u[1], x ** u[2]>>     \* real times dual
DExp(u) == LET e == RExp(u[1]) IN <<e, e ** u[2]>>
DSqrt(u) == LET s == RSqrt(u[1]) IN
              <<s, IF REq(u[2], R0) THEN R0 ELSE u[2] // (R2 ** s)>>
DSin(u) == <<RSin(u[1]), RCos(u[1]) ** u[2]>>
DCos(u) == <<RCos(u[1]), RNeg(RSin(u[1])) ** u[2]>>
DPowI(u, n) ==
   IF n = 0 THEN DC(R1)
   ELSE <<RPowI(u[1], n),
          IF REq(u[2], R0) THEN R0 ELSE (RI(n) ** RPowI(u[1], n - 1)) ** u[2]>>
DAbs(u) == IF RLt(u[1], R0) THEN DNeg(u) ELSE u        \* (not differentiable at 0)
DLn(u) == <<RLn(u[1]), IF REq(u[2], R0) THEN R0 ELSE u[2] // u[1]>>
(* u^v for u > 0 (and the value for u = 0) *)
DPow(u, v) == IF REq(u[1], R0) THEN DC(IF REq(v[1], R0) THEN R1 ELSE R0) ELSE DExp(DMul(v, DLn(u)))
DPow32(u) == DMul(u, DSqrt(u))                         \* u^(3/2)
DLog10(u) == <<RLog10(u[1]), u[2] // (u[1] ** RLn(RI(10)))>>

RECURSIVE DSumTo(_, _)
DSumTo(s, n) == IF n = 0 THEN DC(R0) ELSE DAdd(DSumTo(s, n - 1), s[n])
DSum(s) == DSumTo(s, Len(s))
=============================================================================
