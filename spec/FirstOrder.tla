----------------------------- MODULE FirstOrder -----------------------------
(***************************************************************************)
(* The first-order solution of the radiative transfer equation at one      *)
(* point.  q holds the values of the model parameters at this point:       *)
(*   q.tau, q.omega, q.N, q.bsf (dual numbers), q.I0 (real), and the       *)
(*   angles q.t0, q.te, q.p0, q.pe (reals).                                *)
(***************************************************************************)
EXTENDS Scatter

LOCAL Mu0(q) == RCos(q.t0)
LOCAL MuE(q) == RCos(q.te)
(* two-way transmission exp(-tau/mu0 - tau/mue) *)
Gamma2(q) == DExp(DNeg(DAdd(DScale(R1 // Mu0(q), q.tau), DScale(R1 // MuE(q), q.tau))))

SurfaceTerm(S, env, q) ==
   LET brdf == Phase(S, env, Kvec(q.t0, q.te, q.p0, q.pe))
       att  == DAdd(DMul(DSub(DN(1), q.bsf), Gamma2(q)), q.bsf)
   IN DScale(q.I0 ** Mu0(q), DMul(DMul(q.N, brdf), att))

VolumeTerm(V, env, q) ==
   LET p == Phase(V, env, Kvec(q.t0, q.te, q.p0, q.pe))
   IN DScale((q.I0 ** Mu0(q)) // (Mu0(q) ++ MuE(q)),
         DMul(DMul(DSub(DN(1), q.bsf), q.omega), DMul(DSub(DN(1), Gamma2(q)), p)))

(* ---- interaction ---- *)
(* (exp(-tau/m) - exp(-tau/mu)) / (m - mu), continuous at mu = m *)
Kernel(tau, m, mu) ==
   LET d == tau ** ((m -- mu) // (mu ** m)) IN      \* tau/mu - tau/m
   IF REq(m, mu) THEN (RExp(RNeg(tau // m)) ** tau) // (m ** m)
   ELSE IF RLt(R0, d)
        THEN (RExp(RNeg(tau // m)) ** RNeg(RExpm1(RNeg(d)))) // (m -- mu)
        ELSE (RExp(RNeg(tau // mu)) ** RExpm1(d)) // (m -- mu)

(* panels of the mu-quadrature, graded towards mu = 0 where exp(-tau/mu) changes *)
RECURSIVE EdgesRec(_, _, _)
EdgesRec(b, lim, n) == IF n = 0 \/ RLt(b, lim) THEN <<R0, b>>
                       ELSE Append(EdgesRec(b // RI(3), lim, n - 1), b)
MuGrid(lim) ==
   LET e == EdgesRec(R1, lim, 9)
       n == Len(e) - 1
       P == Eager([j \in 1 .. n |-> OnInterval(G12, e[j], e[j + 1])])
   IN [x |-> Eager([k \in 1 .. 12 * n |-> P[((k - 1) \div 12) + 1].x[((k - 1) % 12) + 1]]),
       w |-> Eager([k \in 1 .. 12 * n |-> P[((k - 1) \div 12) + 1].w[((k - 1) % 12) + 1]])]

LOCAL MaxDeg(gs) == MaxOf({Len(gs[j].c) : j \in 1 .. Len(gs)})

(* sum of the product of both expansions over the azimuth nodes, whose cosines
   and sines are cf and sf  (TLC evaluates it with the same sum of Java class
   FirstOrder; module Laws checks that both agree) *)
PhiSumDef(gv, gs, v, s, cf, sf) ==
   RSum([k \in 1 .. Len(cf) |->
      ExpandAt(gv, <<v[1], v[2] ** cf[k], v[3] ** sf[k]>>) **
      ExpandAt(gs, <<s[1], s[2] ** cf[k], s[3] ** sf[k]>>)])
PhiSum(gv, gs, v, s, cf, sf) == PhiSumDef(gv, gs, v, s, cf, sf)

(* Fint(incident, exit) = Int_0^1 dmu mu kernel(mu) Int_0^2pi dphi p^(in -> s) BRDF^(s -> out)
   with the truncated Legendre expansions gv and gs.  The azimuth integral of a
   trigonometric polynomial is exact with more nodes than its degree. *)
Fint(gv, gs, tau, tin, pin, tout, pout) ==
   LET m   == RCos(tin)
       G   == MuGrid(RMin(tau, m) // RI(10))
       nf  == MaxDeg(gv) + MaxDeg(gs)
       phi == Eager([k \in 1 .. nf |-> RFrac(2 * k - 1, nf) ** RPi])
       cf  == Eager([k \in 1 .. nf |-> RCos(phi[k])])
       sf  == Eager([k \in 1 .. nf |-> RSin(phi[k])])
       civ == RNeg(RCos(tin)) siv == RSin(tin)         \* propagation: pi - tin
       cpi == RCos(pin) spi == RSin(pin)
       co == RCos(tout) so == RSin(tout) cpo == RCos(pout) spo == RSin(pout)
   IN RSum([j \in 1 .. Len(G.x) |->
        LET mu == G.x[j]
            sn == RSqrt((R1 -- mu) ** (R1 ++ mu))
            v1 == civ ** mu  v2 == (siv ** sn) ** cpi  v3 == (siv ** sn) ** spi
            s1 == co ** mu   s2 == (so ** sn) ** cpo   s3 == (so ** sn) ** spo
        IN ((G.w[j] ** mu) ** Kernel(tau, m, mu)) ** PhiSum(gv, gs, <<v1, v2, v3>>, <<s1, s2, s3>>, cf, sf)])
      ** (RFrac(2, nf) ** RPi)

InteractionTerm(V, S, env, q) ==
   LET gv == Groups(V, env)
       gs == Groups(S, env)
       tau == Re(q.tau)
       pre == ((Re(q.N) ** (R1 -- Re(q.bsf))) ** Re(q.omega)) ** (q.I0 ** Mu0(q))
   IN IF REq(tau, R0) \/ REq(pre, R0) THEN R0
      ELSE pre **
           ((RExp(RNeg(tau // MuE(q))) ** Fint(gv, gs, tau, q.t0, q.p0, q.te, q.pe)) ++
            (RExp(RNeg(tau // Mu0(q))) ** Fint(gv, gs, tau, q.te, q.pe, q.t0, q.p0)))

(* magnitude against which absolute errors of the interaction term are judged *)
InteractionScale(V, S, env, q) ==
   RAbs(((Re(q.N) ** (R1 -- Re(q.bsf))) ** Re(q.omega)) ** (q.I0 ** Mu0(q)))

(* ---- units ---- *)
SigNorm(q) == ((RI(4) ** RPi) ** Mu0(q)) // q.I0
=============================================================================
