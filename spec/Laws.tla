-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws that the quantities of the specification have to obey.  They do    *)
(* not concern the implementation: they are checks of the specification    *)
(* itself against independent statements of the theory (normalisation,     *)
(* closed forms, reciprocity, limits, convergence, derivatives as limits   *)
(* of differences), and of the operators that TLC evaluates with Java      *)
(* methods against their TLA+ definitions.                                 *)
(* Every law is checked on LAW_COUNT pseudo-random configurations.         *)
(***************************************************************************)
EXTENDS Results, Pick, IOUtils

VARIABLE lwCase

Group0 == IOEnv.LAW_GROUP
Seed0  == atoi(IOEnv.LAW_SEED)
Count0 == atoi(IOEnv.LAW_COUNT)

Tol(k) == RPowI(RTen, -k)
Close(x, y, tol) == RLe(RAbs(x -- y), tol ** RMax(R1, RMax(RAbs(x), RAbs(y))))
EnvOf(c) == LET ns == <<"x", "y", "S", "N", "Q", "tau_v", "t1", "t2", "w">>
                v == Eager([i \in 1 .. Len(ns) |-> DC(Num(c \o <<i>>, Lo(ns[i]), Hi(ns[i])))])
            IN EagerF([n \in {ns[i] : i \in 1 .. Len(ns)} |-> v[CHOOSE i \in 1 .. Len(ns) : ns[i] = n]])
Zen(c) == IF Chance(c \o <<9>>, 10) THEN R0 ELSE Num(c, 0, 1450)
Azi(c) == Num(c, -3200, 6400)
Point(c) == [tau |-> DC(Num(c \o <<1>>, 10, 2500)), omega |-> DC(Num(c \o <<2>>, 20, 950)),
             N |-> DC(Num(c \o <<3>>, 20, 950)), bsf |-> DC(Num(c \o <<4>>, 0, 900)), I0 |-> Num(c \o <<5>>, 200, 4000),
             t0 |-> Zen(c \o <<6>>), te |-> Zen(c \o <<7>>), p0 |-> Azi(c \o <<8>>), pe |-> Azi(c \o <<9>>)]
Swap(q) == [q EXCEPT !.t0 = q.te, !.te = q.t0, !.p0 = q.pe, !.pe = q.p0]
KOf(q) == Kvec(q.t0, q.te, q.p0, q.pe)
Poly(x, n) == RPowI(x, n)
Integral(G, f(_)) == RSum([i \in 1 .. Len(G.x) |-> G.w[i] ** f(G.x[i])])

(* ---- operators evaluated by Java methods ---- *)
Overrides(c) ==
   LET n == 1 + P(c \o <<1>>, 20)
       s == Eager([i \in 1 .. n |-> Num(c \o <<2, i>>, -900, 900)])
       x == Num(c \o <<3>>, -1000, 1000)
       V == VolF(c \o <<4>>, 1, 0, 4, 30)  S == SurfF(c \o <<5>>, 2, 0, 4, 30)
       gv == Groups(V, EnvOf(c))  gs == Groups(S, EnvOf(c))
       v == <<Num(c \o <<6>>, -900, 900), Num(c \o <<7>>, -900, 900), Num(c \o <<8>>, -900, 900)>>
       w == <<Num(c \o <<9>>, -900, 900), Num(c \o <<10>>, -900, 900), Num(c \o <<11>>, -900, 900)>>
       m == 1 + P(c \o <<12>>, 9)
       cf == Eager([k \in 1 .. m |-> RCos(RI(k))])  sf == Eager([k \in 1 .. m |-> RSin(RI(k))])
   IN /\ Close(LegendreSum(s, x), RDot(s, Legendre(n, x)), Tol(13))
      /\ Close(PhiSum(gv, gs, v, w, cf, sf), PhiSumDef(gv, gs, v, w, cf, sf), Tol(12))
      /\ Eager(s) = s /\ EagerF([i \in 1 .. n |-> s[i]]) = s
      /\ RAdd(x, RSub(v[1], x)) = RSub(RAdd(x, v[1]), x) \/ Close(RAdd(x, RSub(v[1], x)), v[1], Tol(15))
      /\ Close((RSin(x) ** RSin(x)) ++ (RCos(x) ** RCos(x)), R1, Tol(15))
      /\ Close(RLn(RExp(x)), x, Tol(14)) /\ Close(RExpm1(x), RExp(x) -- R1, Tol(14))
      /\ Close(RSqrt(RAbs(x)) ** RSqrt(RAbs(x)), RAbs(x), Tol(15))
      /\ Close(RTen ** RLog10(RExp(x)), RTen ** (x // RLn(RTen)), Tol(14))
      /\ Close(RCos(RAcos(x)), x, Tol(14)) /\ Close(RAtan2(RSin(x), RCos(x)), x, Tol(14))

(* ---- quadrature ---- *)
Quadrature(c) ==
   LET n == P(c \o <<1>>, 60)
       lim == Num(c \o <<2>>, 1, 100)
       MG == MuGrid(lim)
       a == Num(c \o <<3>>, -900, 900)
       k == P(c \o <<4>>, 23)  l == P(c \o <<5>>, 23)
   IN /\ Close(Integral(G64, LAMBDA x : Poly(x, n)), IF n % 2 = 1 THEN R0 ELSE RFrac(2, n + 1), Tol(13))
      /\ Close(Integral(G12, LAMBDA x : Poly(x, n % 24)), IF n % 2 = 1 THEN R0 ELSE RFrac(2, (n % 24) + 1), Tol(13))
      /\ Close(Integral(G64h, LAMBDA x : Poly(x, n)), RFrac(1, n + 1), Tol(13))
      /\ Close(Integral(MG, LAMBDA x : Poly(x, n % 20)), RFrac(1, (n % 20) + 1), Tol(12))
      /\ Close(Integral(MG, LAMBDA x : RExp(a ** x)), IF REq(a, R0) THEN R1 ELSE RExpm1(a) // a, Tol(13))
      (* orthogonality of the Legendre polynomials *)
      /\ Close(RSum([i \in 1 .. 64 |-> (LegTab[k + 1][i] ** LegTab[l + 1][i]) // G64.w[i]]),
               IF k = l THEN RFrac(2, 2 * k + 1) ELSE R0, Tol(13))

(* ---- scattering functions ---- *)
Normal(c) ==                         \* normalisation of the profiles, closed forms
   LET k == PS(c \o <<1>>, <<"VIso", "Ray", "VHG", "HGR">>)
       V == Elem(c \o <<2>>, k, 40, 4)
       H == Elem(c \o <<3>>, "SHG", 40, 4)
       HN == Elem(c \o <<4>>, "HGN", 40, 4)
       L == Elem(c \o <<5>>, "Cos", 0, 4)
       env == EnvOf(c \o <<6>>)
       VD == [V EXCEPT !.a = DefaultA(k)]
       x == Num(c \o <<7>>, -999, 999)
       az == Azi(c \o <<8>>)  th == Zen(c \o <<9>>)
       ppn == EagerF(ProfPar(HN, env))
       t == Re(Eval(H.t, env))
   IN (* volume functions: 1 over the sphere *)
      /\ Close((R2 ** RPi) ** Integral(G64e, LAMBDA y : Re(Profile(V, env, DC(y))) ++ Re(Profile(V, env, DC(RNeg(y))))), R1, Tol(9))
      (* the same over both angles of the exit direction, with the default a *)
      /\ (Chance(c \o <<10>>, 25) /\ (k \in {"VIso", "Ray"} \/ RLe(RAbs(Re(Eval(V.t, env))), RFrac(13, 20)))) =>
         Close(RSum([i \in 1 .. 12 |-> G12.w[i] ** RSum([j \in 1 .. 24 |->
               (RPi // RI(12)) ** Re(Phase(VD, env, Kvec(th, RAcos(G12.x[i]), az, (RPi // RI(12)) ** RI(j))))])]), R1, Tol(2))
      (* nadir reflectance 1 of Lambertian and nadir-normalised functions; of the cosine lobes (i+2)/2-fold power *)
      /\ Close((R2 ** RPi) ** Integral(G64e, LAMBDA m : m ** Re(ProfileAt(HN, ppn, ScatAngle(HN, env, <<m, R0, R0>>)))), R1, Tol(10))
      /\ Close((R2 ** RPi) ** Integral(G64h, LAMBDA m : m ** (R1 // RPi)), R1, Tol(13))
      /\ Close((R2 ** RPi) ** Integral(G64h, LAMBDA m : m ** Re(Profile(L, env, DC(m)))), RFrac(2, L.i + 2), Tol(12))
      (* Henyey-Greenstein: as a series of Legendre polynomials *)
      /\ RLe(RAbs(t), RFrac(13, 20)) =>
         Close(Re(Profile(H, env, DC(x))),
               LegendreSum(Eager([n \in 1 .. 90 |-> (RI(2 * n - 1) ** RPowI(t, n - 1)) // RPi]), x), Tol(9))
      /\ \A f \in {V, H, HN} : RLt(R0, Re(Profile(f, env, DC(x))))

Expansion(c) ==
   LET env == EnvOf(c \o <<1>>)
       n == 1 + P(c \o <<2>>, 10)
       V == Elem(c \o <<3>>, "VHG", 40, 4)  t == Re(Eval(V.t, env))
       R == Elem(c \o <<4>>, "HGR", 40, 4)  u == Re(Eval(R.t, env))
       L == Elem(c \o <<5>>, "Cos", 0, 4)
       Y == Elem(c \o <<6>>, "Ray", 0, 4)
       x == Num(c \o <<7>>, -1000, 1000)
       cv == Coefs(V, env, 24)
       cr == Coefs(R, env, 24)
       cl == Coefs(L, env, n)
       cy == Coefs(Y, env, 6)
       i == L.i
   IN (* closed forms *)
      /\ \A k \in 1 .. n : Close(cv[k], (RI(2 * k - 1) ** RPowI(t, k - 1)) // (RI(4) ** RPi), Tol(9))
      /\ Close(cy[1], R1 // (RI(4) ** RPi), Tol(13)) /\ Close(cy[3], RFrac(1, 8) // RPi, Tol(13))
      /\ \A k \in {2, 4, 5, 6} : Close(cy[k], R0, Tol(13))
      (* cosine lobe: Int_0^1 x^i P_0 and P_1 *)
      /\ Close(cl[1], RFrac(1, 2 * (i + 1)) // RPi, Tol(13))
      /\ n >= 2 => Close(cl[2], RFrac(3, 2 * (i + 2)) // RPi, Tol(13))
      (* convergence to the function (geometric with ratio |t|) *)
      /\ LET e == RPowI(RAbs(t), 23) ** RI(40) IN RLe(RAbs(LegendreSum(cv, x) -- Re(Profile(V, env, DC(x)))), RMax(e, Tol(9)))
      /\ LET e == RPowI(RAbs(u), 20) ** RI(60) IN RLe(RAbs(LegendreSum(cr, x) -- Re(Profile(R, env, DC(x)))), RMax(e, Tol(9)))
      (* more coefficients do not change the first ones *)
      /\ \A k \in 1 .. n : Coefs(V, env, n)[k] = cv[k]

Combination(c) ==
   LET lin == Lin(c \o <<1>>, PS(c \o <<2>>, <<"VLin">>), VKinds, 40, 4, 2 + P(c \o <<3>>, 2))
       sin == Lin(c \o <<4>>, "SLin", SKinds, 40, 4, 2 + P(c \o <<5>>, 2))
       env == EnvOf(c \o <<6>>)
       q == Point(c \o <<7>>)  K == KOf(q)
       mems(f) == 1 .. Len(Members(f))
       w(f, j) == Re(Eval(f.m[j].w, env))
       ok(f) ==
         /\ Close(Re(Phase(f, env, K)), RSum([j \in mems(f) |-> w(f, j) ** Re(Phase(f.m[j].f, env, K))]), Tol(12))
         (* expansion: every member expanded to the number of its group *)
         /\ LET nn(j) == MaxOf({NC1(f.m[i].f) : i \in Group(f, j)})
                mexp(j) == LET g == f.m[j].f
                               x == IF g.k \in {"VIso", "SIso"} THEN R0 ELSE Re(ScatAngle(g, env, K)) IN
                           LegendreSum(Coefs(g, env, nn(j)), x)
                pure == \A j \in mems(f) : f.m[j].f.k \notin {"VIso", "SIso"}
            IN pure => Close(ExpandAt(Groups(f, env), K), RSum([j \in mems(f) |-> w(f, j) ** mexp(j)]), Tol(12))
         /\ NCoefs(f) = MaxOf({NC1(f.m[j].f) : j \in mems(f)})
         /\ FVars(f) = UNION {Vars(f.m[j].w) \cup FVars(f.m[j].f) : j \in mems(f)}
         (* the groups partition the members *)
         /\ UNION {Group(f, i) : i \in Leaders(f)} = mems(f)
         /\ \A i, j \in Leaders(f) : i # j => Group(f, i) \cap Group(f, j) = {}
   IN ok(lin) /\ ok(sin)

(* ---- first-order terms ---- *)
Terms(c) ==
   LET V == VolF(c \o <<1>>, 1, 40, 3, 25)  S == SurfF(c \o <<2>>, 2, 40, 3, 25)
       env == EnvOf(c \o <<3>>)  q == Point(c \o <<4>>)
       srf(r) == Re(SurfaceTerm(S, env, r))  vol(r) == Re(VolumeTerm(V, env, r))
       w(r) == [r EXCEPT !.tau = DC(Re(r.tau) ** R2)]
       bare == ((q.I0 ** RCos(q.t0)) ** Re(q.N)) ** Re(Phase(S, env, KOf(q)))
       phV == Re(Phase(V, env, KOf(q)))
       cs == RCos(q.t0) ** RCos(q.te)
   IN (* limits *)
      /\ Close(srf([q EXCEPT !.tau = DC(R0)]), bare, Tol(13)) /\ REq(vol([q EXCEPT !.tau = DC(R0)]), R0)
      /\ Close(srf([q EXCEPT !.bsf = DC(R1)]), bare, Tol(13)) /\ REq(vol([q EXCEPT !.bsf = DC(R1)]), R0)
      /\ REq(vol([q EXCEPT !.omega = DC(R0)]), R0) /\ REq(srf([q EXCEPT !.N = DC(R0)]), R0)
      (* optically thick: the surface is hidden, the volume saturates *)
      /\ Close(srf([q EXCEPT !.tau = DC(RI(3000)), !.bsf = DC(R0)]), R0, Tol(13))
      /\ Close(vol([q EXCEPT !.tau = DC(RI(3000)), !.bsf = DC(R0)]),
               (((q.I0 ** RCos(q.t0)) ** Re(q.omega)) ** phV) // (RCos(q.t0) ++ RCos(q.te)), Tol(12))
      (* more vegetation: less surface, more volume (in magnitude) *)
      /\ RLe(RAbs(srf(w(q))), RAbs(srf(q)) ++ Tol(14)) /\ RLe(RAbs(vol(q)), RAbs(vol(w(q))) ++ Tol(14))
      (* thin layer: vol ~ tau * omega * (1-bsf) * I0 * p / cos(t_ex) *)
      /\ LET e == Tol(7)
             lead == ((((e ** Re(q.omega)) ** (R1 -- Re(q.bsf))) ** q.I0) ** phV) // RCos(q.te)
         IN RLe(RAbs(vol([q EXCEPT !.tau = DC(e)]) -- lead), (RI(10) ** Tol(7)) ** (RAbs(lead) // RMin(RCos(q.t0), RCos(q.te))))
      (* reciprocity of both terms, per incident energy *)
      /\ Close(srf(q) // RCos(q.t0), srf(Swap(q)) // RCos(q.te), Tol(12))
      /\ Close(vol(q) // RCos(q.t0), vol(Swap(q)) // RCos(q.te), Tol(12))
      (* linear in I0; in N; in omega *)
      /\ Close(srf([q EXCEPT !.I0 = q.I0 ** RI(3)]), srf(q) ** RI(3), Tol(13))
      /\ Close(vol([q EXCEPT !.omega = DC(Re(q.omega) // R2)]), vol(q) // R2, Tol(13))
      (* azimuths enter by periodic functions only *)
      /\ Close(srf([q EXCEPT !.p0 = q.p0 ++ (R2 ** RPi)]), srf(q), Tol(10))
      (* monostatic: the exit direction is the incident one, seen from the other side *)
      /\ LET m == [q EXCEPT !.te = q.t0, !.pe = q.p0 ++ RPi]
             k == KOf(m) IN
         /\ Close(k[1], RCos(q.t0) ** RCos(q.t0), Tol(14))
         /\ Close(k[2] ++ k[3], RNeg(RSin(q.t0) ** RSin(q.t0)), Tol(12))

Derivative(c) ==
   LET V == VolF(c \o <<1>>, 1, 60, 3, 25)  S == SurfF(c \o <<2>>, 2, 60, 3, 25)
       q == Point(c \o <<4>>)  env == EnvOf(c \o <<3>>)
       n == PS(c \o <<5>>, <<"x", "y", "S", "N", "Q", "tau_v", "t1", "t2", "w">>)
       d == PS(c \o <<6>>, <<"tau", "omega", "N", "bsf">>)
       h == Tol(5)
       sum(e, r) == DAdd(SurfaceTerm(S, e, r), VolumeTerm(V, e, r))
       dn == Du(sum([env EXCEPT ![n] = DV(Re(env[n]))], q))
       fd == (Re(sum([env EXCEPT ![n] = DC(Re(env[n]) ++ h)], q)) -- Re(sum([env EXCEPT ![n] = DC(Re(env[n]) -- h)], q))) // (R2 ** h)
       dd == Du(sum(env, [q EXCEPT ![d] = DV(Re(q[d]))]))
       ff == (Re(sum(env, [q EXCEPT ![d] = DC(Re(q[d]) ++ h)])) -- Re(sum(env, [q EXCEPT ![d] = DC(Re(q[d]) -- h)]))) // (R2 ** h)
       e == Expr01(c \o <<7>>)
       de == Du(Eval(e, [env EXCEPT ![n] = DV(Re(env[n]))]))
       fe == (Re(Eval(e, [env EXCEPT ![n] = DC(Re(env[n]) ++ h)])) -- Re(Eval(e, [env EXCEPT ![n] = DC(Re(env[n]) -- h)]))) // (R2 ** h)
       (* kinks of cosine lobes: the scattering angle may change its sign *)
       lobes(f) == {j \in 1 .. Len(Members(f)) : Members(f)[j].f.k = "Cos"}
       smooth == \A j \in lobes(S) : RLt(Tol(2), RAbs(Re(ScatAngle(Members(S)[j].f, env, KOf(q)))))
       scale == R1 ++ RAbs(dn)
   IN /\ (smooth => RLe(RAbs(dn -- fd), Tol(4) ** scale))
      /\ RLe(RAbs(dd -- ff), Tol(5) ** (R1 ++ RAbs(dd)))
      /\ RLe(RAbs(de -- fe), Tol(5) ** (R1 ++ RAbs(de)))
      /\ (n \notin Vars(e) => REq(de, R0))

(* ---- interaction ---- *)
Kernels(c) ==
   LET tau == Num(c \o <<1>>, 1, 3000)  m == Num(c \o <<2>>, 20, 1000)  u == Num(c \o <<3>>, 20, 1000)
       e == R1 ++ Tol(9)
   IN /\ RLe(R0, Kernel(tau, m, u))
      /\ Close(Kernel(tau, m, m ** e), Kernel(tau, m, m), Tol(6))              \* continuous
      /\ Close(Kernel(tau, m, u), Kernel(tau, u, m), Tol(9))                   \* symmetric
      /\ (RLt(Tol(2), RAbs(m -- u)) =>
            Close(Kernel(tau, m, u), (RExp(RNeg(tau // m)) -- RExp(RNeg(tau // u))) // (m -- u), Tol(11)))
      /\ REq(Kernel(R0, m, u), R0)
Interactions(c) ==
   LET V == VolF(c \o <<1>>, 1, 30, 3, 25)  S == SurfF(c \o <<2>>, 2, 30, 3, 25)
       env == EnvOf(c \o <<3>>)  q == Point(c \o <<4>>)
       int(r) == InteractionTerm(V, S, env, r)
       sc == InteractionScale(V, S, env, q) ++ Tol(9)
       iv == Elem(c, "VIso", 0, 1)  is == Elem(c, "SIso", 0, 1)
       tau == Re(q.tau)
       (* both isotropic: Int_0^1 mu kernel / (2 pi) dmu, here with another quadrature *)
       fi(m) == Integral(G64h, LAMBDA y : LET mu == y ** y IN ((R2 ** y) ** mu) ** Kernel(tau, m, mu)) // (R2 ** RPi)
       gv == Groups(V, env)  gs == Groups(S, env)
       nf == 1 + MaxOf({Len(gv[j].c) : j \in 1 .. Len(gv)}) + MaxOf({Len(gs[j].c) : j \in 1 .. Len(gs)})
       ph(n, s) == Eager([k \in 1 .. n |-> ((RFrac(2 * k, n) ** RPi) ++ s)])
       az(n, s) == LET f == ph(n, s) IN
                   PhiSum(gv, gs, <<RFrac(3, 10), RFrac(4, 10), RFrac(-3, 10)>>, <<RFrac(2, 10), RFrac(-5, 10), RFrac(3, 10)>>,
                          Eager([k \in 1 .. n |-> RCos(f[k])]), Eager([k \in 1 .. n |-> RSin(f[k])])) // RI(n)
   IN /\ RIsFinite(int(q))
      (* reciprocity *)
      /\ RLe(RAbs((int(q) // RCos(q.t0)) -- (int(Swap(q)) // RCos(q.te))), Tol(9) ** (sc // RMin(RCos(q.t0), RCos(q.te))))
      (* limits *)
      /\ REq(int([q EXCEPT !.tau = DC(R0)]), R0) /\ REq(int([q EXCEPT !.omega = DC(R0)]), R0)
      /\ REq(int([q EXCEPT !.N = DC(R0)]), R0) /\ REq(int([q EXCEPT !.bsf = DC(R1)]), R0)
      /\ RLe(RAbs(int([q EXCEPT !.tau = DC(Tol(8))])), Tol(6) ** (R1 ++ sc))
      (* bilinear: N, omega, I0 *)
      /\ Close(int([q EXCEPT !.N = DC(Re(q.N) // R2)]), int(q) // R2, Tol(12))
      (* isotropic functions, by substitution mu = y^2 *)
      /\ Close(Fint(Groups(iv, env), Groups(is, env), tau, q.t0, q.p0, q.te, q.pe), fi(RCos(q.t0)), Tol(7))
      (* the azimuth sum does not depend on the number and offset of the nodes *)
      /\ Close(az(nf, R0), az(nf + 3, R1), Tol(12))

Law(c) ==
   CASE Group0 = "overrides"   -> Overrides(c)
     [] Group0 = "quadrature"  -> Quadrature(c)
     [] Group0 = "normal"      -> Normal(c)
     [] Group0 = "expansion"   -> Expansion(c)
     [] Group0 = "combination" -> Combination(c)
     [] Group0 = "terms"       -> Terms(c)
     [] Group0 = "derivative"  -> Derivative(c)
     [] Group0 = "kernels"     -> Kernels(c)
     [] Group0 = "interaction" -> Interactions(c)

LawInit == lwCase \in 1 .. Count0
LawSpec == LawInit /\ [][UNCHANGED lwCase]_lwCase
LawHolds == Law(<<Seed0, 77, lwCase>>)
=============================================================================
