-------------------------------- MODULE Pick --------------------------------
(***************************************************************************)
(* Deterministic pseudo-random choices of values, expressions, scattering  *)
(* functions and arrays.  c is a tuple of integers that identifies the     *)
(* choice (seed, case, step, ...).                                         *)
(***************************************************************************)
EXTENDS RT1

P(c, n) == RHash(c, n)                             \* 0 .. n-1
PS(c, s) == s[1 + RHash(c, Len(s))]                \* an element of a sequence
Chance(c, percent) == RHash(c, 100) < percent
Milli(k) == RFrac(k, 1000)
Num(c, lo, hi) == Milli(lo + RHash(c, hi - lo + 1))   \* lo/1000 .. hi/1000

(* ------------------------------- arrays -------------------------------- *)
BaseShapes == <<<<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 2>>, <<2, 2>>>>
(* shapes that can be broadcast to <<n, m>> *)
SubShape(c, b) == PS(c, <<<<>>, <<1>>, <<b[2]>>, <<1, b[2]>>, <<b[1], 1>>, <<b[1], b[2]>>>>)
ArrTypes == <<"np", "np", "np", "list", "nc", "ro">>
ArrOf(c, sh, lo, hi) ==
   [sh |-> sh, v |-> Eager([i \in 1 .. Size(sh) |-> Num(c \o <<i>>, lo, hi)]),
    ty |-> IF sh = <<>> THEN PS(c \o <<71>>, <<"py", "py", "np0">>) ELSE PS(c \o <<72>>, ArrTypes)]
NpArr(a) == IF a.sh = <<>> THEN a ELSE [a EXCEPT !.ty = "np"]

(* ------------------------------- symbols ------------------------------- *)
Pool  == <<"x", "y", "S", "N", "Q", "tau_v">>
APool == <<"t1", "t2", "w">>
Lo(n) == IF n = "t1" \/ n = "t2" THEN 60 ELSE 50
Hi(n) == IF n = "t1" \/ n = "t2" THEN 640 ELSE 950
ValFor(c, n, sh) == ArrOf(c, sh, Lo(n), Hi(n))

(* ----------------------------- expressions ----------------------------- *)
EB(k, l, r) == [k |-> k, l |-> l, r |-> r]
EU(k, l) == [k |-> k, l |-> l]
EPow(l, n) == [k |-> "pow", l |-> l, n |-> n]
EM(k) == ENum(Milli(k))
(* maps of (0,1) x (0,1) to (0,1) *)
Tmpl(i, e, f) ==
   CASE i = 0 -> e
     [] i = 1 -> EB("mul", e, f)
     [] i = 2 -> EB("div", EB("add", e, f), EM(2000))
     [] i = 3 -> EB("sub", EM(1000), e)
     [] i = 4 -> EPow(e, 2)
     [] i = 5 -> EU("exp", EU("neg", e))
     [] i = 6 -> EU("sqrt", e)
     [] i = 7 -> EB("add", EB("mul", EM(500), e), EM(250))
     [] i = 8 -> EU("sin", e)
     [] i = 9 -> EB("div", e, EB("add", EM(1000), f))
     [] i = 10 -> EB("mul", EU("cos", e), f)
     [] i = 11 -> EB("mul", e, EPow(f, 3))
     [] i = 12 -> EU("abs", EB("sub", e, ENum(RFrac(4995, 10000))))
     [] i = 13 -> EU("log", EB("add", EM(1000), e))
     [] i = 14 -> EB("powe", e, EB("add", f, EM(300)))
ExprOver(c, names) ==
   LET s(k) == ESym(PS(c \o <<k>>, names)) IN
   IF Chance(c \o <<1>>, 25) THEN s(2)
   ELSE IF Chance(c \o <<3>>, 70) THEN Tmpl(P(c \o <<4>>, 15), s(5), s(6))
   ELSE Tmpl(P(c \o <<7>>, 15), Tmpl(P(c \o <<8>>, 15), s(9), s(10)), s(11))
Expr01(c) == ExprOver(c, Pool)

(* ------------------------- scattering functions ------------------------ *)
(* sym: percentage of parameters that are expressions *)
Asym(c, sym) ==
   IF ~ Chance(c \o <<1>>, sym)
   THEN LET k == IF Chance(c \o <<11>>, 10) THEN 650 + P(c \o <<2>>, 300) ELSE 50 + P(c \o <<2>>, 600) IN
        IF Chance(c \o <<7>>, 8) THEN IF Chance(c \o <<8>>, 60) THEN EM(0) ELSE ENum(RPowI(RTen, -(3 + P(c \o <<9>>, 8))))
        ELSE IF Chance(c \o <<3>>, 50) THEN EM(k) ELSE EM(-k)
   ELSE LET e == EB("add", EM(100), EB("mul", EM(500), Expr01(c \o <<4>>))) IN
        PS(c \o <<5>>, <<ESym(PS(c \o <<6>>, APool) ), e, EU("neg", e)>>)
AsymT(c, sym) == LET e == Asym(c, sym) IN IF e = ESym("w") THEN ESym("t1") ELSE e
AElem(c, sym) ==
   IF Chance(c \o <<1>>, sym) THEN LET e == Expr01(c \o <<2>>) IN IF Chance(c \o <<3>>, 50) THEN e ELSE EU("neg", e)
   ELSE IF Chance(c \o <<5>>, 8) THEN EM(1000 * (P(c \o <<6>>, 3) - 1))
   ELSE EM(P(c \o <<4>>, 2001) - 1000)
DefaultA(k) == IF k \in {"VIso", "Ray", "VHG", "HGR", "VUsr"} THEN <<EM(-1000), EM(1000), EM(1000)>>
               ELSE <<EM(1000), EM(1000), EM(1000)>>
Elem(c, k, sym, maxnc) ==
   LET da == Chance(c \o <<21>>, 40) IN
   [k |-> k, t |-> AsymT(c \o <<22>>, sym), i |-> IF Chance(c \o <<28>>, 12) THEN 5 + P(c \o <<23>>, 10) ELSE P(c \o <<23>>, 5),
    a |-> IF da THEN DefaultA(k)
          ELSE <<AElem(c \o <<24>>, sym \div 3), AElem(c \o <<25>>, sym \div 4), AElem(c \o <<26>>, sym \div 4)>>,
    da |-> da, nc |-> IF k \in {"VIso", "SIso", "Ray"} THEN 0 ELSE 1 + P(c \o <<27>>, maxnc), m |-> <<>>]
(* a function of the same kind, with the same generalisation parameters and
   number of coefficients, but another asymmetry or power *)
TwinE(f, c, sym) == [f EXCEPT !.t = AsymT(c \o <<22>>, sym), !.i = (f.i + 1 + P(c \o <<23>>, 3)) % 5]
VKinds == <<"VIso", "Ray", "VHG", "VHG", "HGR", "HGR", "VUsr">>
SKinds == <<"SIso", "Cos", "Cos", "SHG", "SHG", "HGN", "HGN", "SUsr">>
Weight(c, sym) ==
   IF Chance(c \o <<1>>, sym) THEN IF Chance(c \o <<2>>, 30) THEN ESym("w") ELSE Expr01(c \o <<3>>)
   ELSE IF Chance(c \o <<5>>, 12) THEN EM(PS(c \o <<6>>, <<0, 1000, 2000, -50, -1000>>))
   ELSE EM(100 + P(c \o <<4>>, 900))
(* (whether parameters are needed whose member has the weight 0, or which
   cancel, is left open) *)
WeightOf(f, c, sym) == LET w == Weight(c, sym) IN
                       IF MVars(f) # {} /\ w \in {EM(0), EM(-1000)} THEN EM(700) ELSE w
Lin(c, k, kinds, sym, maxnc, n) ==
   LET m0 == Elem(c \o <<31>>, PS(c \o <<32>>, kinds), sym, maxnc)
       mem(j) == LET e == Elem(c \o <<33, j>>, PS(c \o <<34, j>>, kinds), sym, maxnc) IN
                 (* some members are the object of the first one or its twin,
                    others share the a-vector of the first one *)
                 IF j = 1 THEN m0
                 ELSE IF Chance(c \o <<48, j>>, 18)
                      THEN IF Chance(c \o <<49, j>>, 60) THEN m0 @@ [rep |-> TRUE] ELSE TwinE(m0, c \o <<47, j>>, sym)
                 ELSE IF Chance(c \o <<35, j>>, 50)
                      THEN IF Chance(c \o <<37, j>>, 35)       \* some of its elements, or all
                           THEN [e EXCEPT !.a = Eager([i \in 1 .. 3 |-> IF Chance(c \o <<38, i, j>>, 60) THEN m0.a[i] ELSE e.a[i]]), !.da = FALSE]
                           ELSE [e EXCEPT !.a = m0.a, !.da = m0.da /\ DefaultA(e.k) = m0.a] ELSE e
   IN [k |-> k, t |-> EM(0), i |-> 0, a |-> <<EM(0), EM(0), EM(0)>>, da |-> FALSE, nc |-> 0,
       m |-> Eager([j \in 1 .. n |-> LET e == mem(j) IN [w |-> WeightOf(e, c \o <<36, j>>, sym), f |-> e]])]
Style(c) == PS(c, <<"num", "num", "int", "sympy", "real">>)
WithId(f, id, c) == f @@ [id |-> id, as |-> Style(c)]
LOCAL Style2(f, as) == f @@ [as |-> as]
(* members of a combination use the style of the combination *)
Styled(f, id, c) ==
   LET as == Style(c) IN
   IF IsLin(f) THEN [f EXCEPT !.m = Eager([j \in 1 .. Len(f.m) |-> [w |-> f.m[j].w, f |-> Style2(f.m[j].f, as)]])]
                    @@ [id |-> id, as |-> as]
   ELSE f @@ [id |-> id, as |-> as]
(* of a combination: other weights, or a twin of the first member *)
Twin(f, c, id, sym) ==
   LET g == [f EXCEPT !.id = id] IN
   IF ~ IsLin(f) THEN TwinE(g, c, sym)
   ELSE IF \E j \in 1 .. Len(f.m) : "rep" \in DOMAIN f.m[j].f
        THEN [g EXCEPT !.m = Eager([j \in 1 .. Len(f.m) |-> [f.m[j] EXCEPT !.w = WeightOf(f.m[j].f, c \o <<46, j>>, sym)]])]
        ELSE [g EXCEPT !.m[1].f = TwinE(f.m[1].f, c, sym)]
VolF(c, id, sym, maxnc, lin) ==
   Styled(IF Chance(c \o <<41>>, lin) THEN Lin(c, "VLin", VKinds, sym, maxnc, 2 + P(c \o <<42>>, 2))
          ELSE Elem(c, PS(c \o <<43>>, VKinds), sym, maxnc), id, c \o <<44>>)
SurfF(c, id, sym, maxnc, lin) ==
   Styled(IF Chance(c \o <<41>>, lin) THEN Lin(c, "SLin", SKinds, sym, maxnc, 2 + P(c \o <<42>>, 2))
          ELSE Elem(c, PS(c \o <<43>>, SKinds), sym, maxnc), id, c \o <<44>>)
=============================================================================
