------------------------------ MODULE Scatter ------------------------------
(***************************************************************************)
(* The scattering distribution functions.                                  *)
(*                                                                         *)
(* A function is described by a record                                     *)
(*   [k  |-> kind, t |-> expression (asymmetry), i |-> power,              *)
(*    a  |-> <<e1, e2, e3>> (scattering-angle parameters, expressions),    *)
(*    nc |-> number of expansion coefficients (0: not specified),          *)
(*    m  |-> <<[w |-> expression, f |-> function], ...>> (LinComb)]        *)
(* The kinds VIso, Ray, VHG, HGR are volume and SIso, Cos, SHG, HGN        *)
(* surface functions; VUsr and SUsr are classes of the user derived from   *)
(* the base classes; VLin and SLin are linear combinations.                *)
(***************************************************************************)
EXTENDS Expr, Quad

IsLin(f) == f.k \in {"VLin", "SLin"}
Members(f) == IF IsLin(f) THEN f.m ELSE <<[w |-> ENum(R1), f |-> f]>>

(* ---- profile: the function of the cosine x of the scattering angle ---- *)
LOCAL HGden(t, x) ==                                \* (1 + t^2 - 2 t x)^(3/2)
   DPow32(DSub(DAdd(DN(1), DMul(t, t)), DScale(R2, DMul(t, x))))
LOCAL HG(t, x, norm) == DDiv(DSub(DN(1), DMul(t, t)), DScale(norm, HGden(t, x)))

(* reflectance for vertical incidence of the surface Henyey-Greenstein
   function: integral of HG(a1 * mu) * mu over the upper hemisphere *)
NadirReflectance(t, a1) ==
   DSum([j \in 1 .. 64 |->
      DScale((R2 ** RPi) ** (G64e.w[j] ** G64e.x[j]),
             HG(t, DScale(G64e.x[j], a1), RPi))])

(* functions that do not depend on the scattering angle (nor on a) *)
Flat(f) == f.k \in {"VIso", "SIso"} \/ (f.k \in {"VHG", "SHG", "HGN", "VUsr", "SUsr"} /\ f.t = ENum(R0))

(* what the profile depends on besides x *)
ProfPar(f, env) ==
   LET t == Eval(f.t, env) IN
   [t |-> t, nad |-> IF f.k = "HGN" /\ ~ Flat(f) THEN NadirReflectance(t, Eval(f.a[1], env)) ELSE DC(R1)]
ProfileAt(f, pp, x) ==
   LET t == pp.t IN
   CASE f.k = "VIso" -> DC(R1 // (RI(4) ** RPi))
     [] f.k = "SIso" -> DC(R1 // RPi)
     [] f.k = "Ray"  -> DScale(RI(3) // (RI(16) ** RPi), DAdd(DN(1), DMul(x, x)))
     [] f.k = "VHG"  -> HG(t, x, RI(4) ** RPi)
     [] f.k = "HGR"  -> DDiv(DMul(DScale(RI(3), DAdd(DN(1), DMul(x, x))), HG(t, x, RI(8) ** RPi)),
                             DAdd(DN(2), DMul(t, t)))
     [] f.k = "SHG"  -> HG(t, x, RPi)
     [] f.k \in {"VUsr", "SUsr"} -> LET u == DAdd(DN(1), DMul(t, x)) IN
                        DScale(R1 // (IF f.k = "VUsr" THEN RI(4) ** RPi ELSE RPi), DMul(u, u))
     [] f.k = "HGN"  -> DDiv(HG(t, x, RPi), pp.nad)
     [] f.k = "Cos"  -> IF RLt(Re(x), R0) THEN DC(R0)
                        ELSE DScale((IF REq(Re(x), R0) THEN RFrac(1, 2) ELSE R1) // RPi, DPowI(x, f.i))
Profile(f, env, x) == ProfileAt(f, ProfPar(f, env), x)

(* cosine of the generalised scattering angle; K holds the three products of
   the angle functions: cos cos, sin sin cos cos, sin sin sin sin *)
Kvec(t0, te, p0, pe) ==
   LET ss == RSin(t0) ** RSin(te) IN
   <<RCos(t0) ** RCos(te), (ss ** RCos(p0)) ** RCos(pe), (ss ** RSin(p0)) ** RSin(pe)>>
ScatAngle(f, env, K) ==
   IF Flat(f) THEN DC(R0)
   ELSE DAdd(DAdd(DScale(K[1], Eval(f.a[1], env)), DScale(K[2], Eval(f.a[2], env))),
             DScale(K[3], Eval(f.a[3], env)))

(* value of the scattering function *)
Phase(f, env, K) ==
   DSum([j \in 1 .. Len(Members(f)) |->
      LET m == Members(f)[j] IN DMul(Eval(m.w, env), Profile(m.f, env, ScatAngle(m.f, env, K)))])

(* ---- symbols a function needs ---- *)
LOCAL AVars(f) == UNION {Vars(f.a[i]) : i \in 1..3}
MVars(f) == CASE Flat(f) -> {}
              [] f.k \in {"Ray", "Cos"} -> AVars(f)
              [] OTHER -> AVars(f) \cup Vars(f.t)
FVars(f) == UNION {Vars(Members(f)[j].w) \cup MVars(Members(f)[j].f) : j \in 1 .. Len(Members(f))}

(* ---- Legendre expansion ---- *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
NC1(f) == CASE f.k \in {"VIso", "SIso"} -> 1 [] f.k = "Ray" -> 3 [] OTHER -> f.nc
(* 0 if it is not specified (for a combination: for any of its members) *)
NCoefs(f) == LET s == {NC1(Members(f)[j].f) : j \in 1 .. Len(Members(f))} IN
             IF 0 \in s THEN 0 ELSE MaxOf(s)

(* the first n coefficients of an elementary function:
   (2k+1)/2 * Integral over [-1,1] of profile(x) * P_k(x) *)
Coefs(f, env, n) ==
   LET half == f.k = "Cos"                         \* zero for x < 0
       G == IF half THEN G64h ELSE G64p
       T == IF half THEN LegTabH ELSE LegTabP
       pp == EagerF(ProfPar(f, env))
       neg == f.k \in {"VHG", "HGR", "SHG", "HGN"} /\ RLt(Re(pp.t), R0) \* peak near -1: reflected
       v == Eager([i \in 1 .. 64 |-> Re(ProfileAt(f, pp, DC(IF neg THEN RNeg(G.x[i]) ELSE G.x[i])))])
   IN Eager([k \in 1 .. n |-> RFrac(IF neg /\ k % 2 = 0 THEN 1 - 2*k ELSE 2*k - 1, 2) ** RDot(v, T[k])])

(* members of a combination that share the same a form a group; all members
   of a group are expanded to the largest ncoefs of the group *)
Leaders(f) == {i \in 1 .. Len(Members(f)) : \A j \in 1 .. i - 1 : Members(f)[j].f.a # Members(f)[i].f.a}
Group(f, i) == {j \in 1 .. Len(Members(f)) : Members(f)[j].f.a = Members(f)[i].f.a}
LOCAL GroupRec(f, env, i) ==
   LET n == MaxOf({NC1(Members(f)[j].f) : j \in Group(f, i)})
       c == [j \in Group(f, i) |-> Coefs(Members(f)[j].f, env, n)]
       w == Eager([j \in 1 .. Len(Members(f)) |-> Re(Eval(Members(f)[j].w, env))])
       iso == \A j \in Group(f, i) : Flat(Members(f)[j].f)   \* a is irrelevant
   IN [a |-> Eager([q \in 1..3 |-> IF iso THEN R0 ELSE Re(Eval(Members(f)[i].f.a[q], env))]),
       c |-> Eager([k \in 1 .. n |-> RSum([j \in 1 .. Len(Members(f)) |->
                                  IF j \in Group(f, i) THEN w[j] ** c[j][k] ELSE R0])])]
RECURSIVE GroupsRec(_, _, _, _)
GroupsRec(f, env, i, s) ==
   IF i > Len(Members(f)) THEN s
   ELSE GroupsRec(f, env, i + 1, IF i \in Leaders(f) THEN Append(s, GroupRec(f, env, i)) ELSE s)
Groups(f, env) == GroupsRec(f, env, 1, <<>>)

(* value of the truncated expansion *)
ExpandAt(groups, K) ==
   RSum([g \in 1 .. Len(groups) |-> LegendreSum(groups[g].c, RDot(groups[g].a, K))])
=============================================================================
