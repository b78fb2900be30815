-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Parameter expressions as abstract syntax trees.                         *)
(*   [k |-> "num", v |-> real]      [k |-> "sym", n |-> name]              *)
(*   [k |-> op, l |-> e, r |-> e]   op in add, sub, mul, div, powe  *)
(*   [k |-> "pow", l |-> e, n |-> integer]                                 *)
(*   [k |-> f, l |-> e]             f in neg, exp, sqrt, sin, cos, abs, log*)
(***************************************************************************)
EXTENDS Dual, FiniteSets

ENum(x) == [k |-> "num", v |-> x]
ESym(n) == [k |-> "sym", n |-> n]

Binary == {"add", "sub", "mul", "div", "powe"}
Unary  == {"neg", "exp", "sqrt", "sin", "cos", "abs", "log"}

RECURSIVE Vars(_)
Vars(e) == IF e.k = "num" THEN {}
           ELSE IF e.k = "sym" THEN {e.n}
           ELSE IF e.k \in Binary THEN Vars(e.l) \cup Vars(e.r)
           ELSE Vars(e.l)

RECURSIVE Eval(_, _)
Eval(e, env) ==                                \* env: name -> dual number
   CASE e.k = "num"  -> DC(e.v)
     [] e.k = "sym"  -> env[e.n]
     [] e.k = "add"  -> DAdd(Eval(e.l, env), Eval(e.r, env))
     [] e.k = "sub"  -> DSub(Eval(e.l, env), Eval(e.r, env))
     [] e.k = "mul"  -> DMul(Eval(e.l, env), Eval(e.r, env))
     [] e.k = "div"  -> DDiv(Eval(e.l, env), Eval(e.r, env))
     [] e.k = "pow"  -> DPowI(Eval(e.l, env), e.n)
     [] e.k = "powe" -> DPow(Eval(e.l, env), Eval(e.r, env))
     [] e.k = "abs"  -> DAbs(Eval(e.l, env))
     [] e.k = "log"  -> DLn(Eval(e.l, env))
     [] e.k = "neg"  -> DNeg(Eval(e.l, env))
     [] e.k = "exp"  -> DExp(Eval(e.l, env))
     [] e.k = "sqrt" -> DSqrt(Eval(e.l, env))
     [] e.k = "sin"  -> DSin(Eval(e.l, env))
     [] e.k = "cos"  -> DCos(Eval(e.l, env))

(* e with the names r[n] instead of n (for n in DOMAIN r) *)
RECURSIVE Rename(_, _)
Rename(e, r) ==
   CASE e.k = "num" \/ e.k = "arr" -> e
     [] e.k = "sym"     -> IF e.n \in DOMAIN r THEN ESym(r[e.n]) ELSE e
     [] e.k \in Binary -> [e EXCEPT !.l = Rename(e.l, r), !.r = Rename(e.r, r)]
     [] OTHER           -> [e EXCEPT !.l = Rename(e.l, r)]
=============================================================================
