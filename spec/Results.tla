------------------------------- MODULE Results -------------------------------
(***************************************************************************)
(* The values that calls return, as functions of the configuration, and    *)
(* the comparison of an observation of the implementation with them.       *)
(*                                                                         *)
(* An expected real is a record [v, t]: value and absolute tolerance.      *)
(* The tolerances only cover rounding; an observation is accepted if it    *)
(* lies in [v - t, v + t] (in dB: in the image of this interval).          *)
(*                                                                         *)
(* Why(st, ev, obs) is "" if the observation obs of call ev in state st    *)
(* conforms to the specification, and names the discrepancy otherwise.     *)
(***************************************************************************)
EXTENDS RT1

X(v, t) == [v |-> v, t |-> IF REq(v, R0) THEN R0 ELSE t]
(* where weights of both signs may cancel, a zero is subject to rounding *)
Mixed(f, env) ==
   LET w(j) == Re(Eval(Members(f)[j].w, env)) IN
   /\ \E j \in 1 .. Len(Members(f)) : RLt(R0, w(j))
   /\ \E j \in 1 .. Len(Members(f)) : RLt(w(j), R0)
XF(f, env, v, t) == IF Mixed(f, env) THEN [v |-> v, t |-> t] ELSE X(v, t)
XAdd(x, y) == [v |-> x.v ++ y.v, t |-> x.t ++ y.t]
XScale(c, x) == [v |-> c ** x.v, t |-> RAbs(c) ** x.t]

E9  == RPowI(RTen, -9)
E10 == RPowI(RTen, -10)
E12 == RPowI(RTen, -12)
E13 == RPowI(RTen, -13)
LinTol(v, scale) == (E10 ** RAbs(v)) ++ scale

Within(obs, x) == ~ RIsNaN(obs) /\ RLe(RAbs(obs -- x.v), x.t)

LOCAL DBof(x) == RTen ** RLog10(x)
WithinDB(obs, x) ==
   LET lo == x.v -- x.t  hi == x.v ++ x.t IN
   IF RLt(R0, lo) THEN /\ ~ RIsNaN(obs)
                       /\ RLe(DBof(lo) -- E9, obs) /\ RLe(obs, DBof(hi) ++ E9)
   ELSE IF RLt(hi, R0) THEN RIsNaN(obs)                  \* logarithm of a negative number
   ELSE IF REq(x.v, R0) /\ REq(x.t, R0) THEN REq(obs, RNeg(RInf))
   ELSE RIsNaN(obs) \/ RLe(obs, DBof(hi) ++ E9)

(* ------------------------- contributions at a point -------------------- *)
PhaseAbs(f, env, K) ==
   RSum(Eager([j \in 1 .. Len(Members(f)) |->
      LET m == Members(f)[j] IN
      RAbs(Re(DMul(Eval(m.w, env), Profile(m.f, env, ScatAngle(m.f, env, K)))))]))
LOCAL KQ(q) == Kvec(q.t0, q.te, q.p0, q.pe)

XSurface(o, env, q) ==
   LET v == Re(SurfaceTerm(o.S, env, q))
       s == RAbs((q.I0 ** RCos(q.t0)) ** Re(q.N)) ** PhaseAbs(o.S, env, KQ(q))
       a == RMax(RAbs(Re(q.bsf)), RAbs(R1 -- Re(q.bsf)) **
                RExp(RNeg(Re(q.tau) ** ((R1 // RCos(q.t0)) ++ (R1 // RCos(q.te))))))
   IN XF(o.S, env, v, LinTol(v, (E12 ** s) ** a))
XVolume(o, env, q) ==
   LET v == Re(VolumeTerm(o.V, env, q))
       s == RAbs((q.I0 ** Re(q.omega)) ** (R1 -- Re(q.bsf))) ** PhaseAbs(o.V, env, KQ(q))
   IN XF(o.V, env, v, LinTol(v, E13 ** s))
XInteraction(o, env, q) ==
   LET v == InteractionTerm(o.V, o.S, env, q)
       f == IF Mixed(o.V, env) THEN o.V ELSE o.S
   IN XF(f, env, v, (E9 ** RAbs(v)) ++ (E9 ** InteractionScale(o.V, o.S, env, q)))

(* 4 pi cos(t_0) / I0 for sigma0 *)
Factor(o, q) == IF o.sig0 THEN SigNorm(q) ELSE R1

Accept(o, obs, q, x) ==
   LET y == XScale(Factor(o, q), x) IN IF o.dB THEN WithinDB(obs, y) ELSE Within(obs, y)

LOCAL ElemOK(o, bsh, p, obs, n) ==
   LET env == Env(o, bsh, p)
       q == PointAt(o, env, bsh, p)
       s == XSurface(o, env, q)
       v == XVolume(o, env, q)
       i == IF o.intQ THEN XInteraction(o, env, q) ELSE X(R0, R0)
       row(r) == obs.v[(r - 1) * n + p + 1]
   IN /\ Accept(o, row(2), q, s)
      /\ Accept(o, row(3), q, v)
      /\ o.intQ => Accept(o, row(4), q, i)
      /\ Accept(o, row(1), q, XAdd(XAdd(s, v), i))

LOCAL At1(bad) == IF bad = {} THEN "" ELSE "value at element " \o ToString(CHOOSE p \in bad : \A r \in bad : p <= r)

WhyCalc(o, obs) ==
   LET bsh == ModelShape(o)
       n   == Size(bsh)
   IN IF obs.sh # <<IF o.intQ THEN 4 ELSE 3>> \o bsh THEN "shape"
      ELSE At1({p \in 0 .. n - 1 : ~ ElemOK(o, bsh, p, obs, n)})

WhyTerm(o, op, obs) ==
   LET bsh == ModelShape(o)
       n   == Size(bsh)
       ok(p) == LET env == Env(o, bsh, p)
                    q == PointAt(o, env, bsh, p)
                IN Accept(o, At(obs, bsh, p), q,
                      CASE op = "surface" -> XSurface(o, env, q)
                        [] op = "volume" -> XVolume(o, env, q)
                        [] op = "interaction" -> XInteraction(o, env, q))
   IN IF ~ BroadcastableTo(obs.sh, bsh) THEN "shape"
      ELSE At1({p \in 0 .. n - 1 : ~ ok(p)})

(* ------------------------------- jacobian ------------------------------ *)
(* d(surface + volume)/d(key) in the chosen units: the dual part of the
   model evaluated with the dual number key + eps *)
XJac(o, bsh, p, key) ==
   LET env == EnvD(o, bsh, p, IF key \in DefNames THEN "" ELSE key)
       q0 == PointAt(o, env, bsh, p)
       q  == CASE key = "tau"      -> [q0 EXCEPT !.tau = DV(Re(q0.tau))]
               [] key = "omega"    -> [q0 EXCEPT !.omega = DV(Re(q0.omega))]
               [] key = "NormBRDF" -> [q0 EXCEPT !.N = DV(Re(q0.N))]
               [] key = "bsf"      -> [q0 EXCEPT !.bsf = DV(Re(q0.bsf))]
               [] OTHER -> q0
       s  == SurfaceTerm(o.S, env, q)
       v  == VolumeTerm(o.V, env, q)
       c  == IF o.dB THEN (RTen // RLn(RTen)) // (Re(s) ++ Re(v)) ELSE Factor(o, q)
       d  == c ** (Du(s) ++ Du(v))
       sc == RAbs(c) ** RSum(<<RAbs(Du(s)), RAbs(Du(v)), RAbs(Re(s)), RAbs(Re(v))>>)
       (* (in dB there is no derivative where the signal vanishes) *)
       open == o.dB /\ RLe(RAbs(Re(s) ++ Re(v)), E13 ** RMax(RAbs(q.I0), RAbs(Re(s))))
   IN [v |-> d, t |-> (E9 ** RAbs(d)) ++ (E10 ** sc), open |-> open]
LOCAL WithinJac(obs, x) == x.open \/ Within(obs, x)

LOCAL WhyJacKey(o, bsh, key, obs) ==
   IF obs.sh # bsh THEN "shape of the derivative with respect to " \o key
   ELSE LET bad == {p \in 0 .. Size(bsh) - 1 : ~ WithinJac(obs.v[p + 1], XJac(o, bsh, p, key))}
        IN IF bad = {} THEN "" ELSE "derivative with respect to " \o key
WhyJacList(o, ev, obs) ==
   LET bsh == ModelShape(o)
       n   == Len(ev.keys)
       w   == IF Len(obs.list) # n THEN {"number of entries"}
              ELSE {WhyJacKey(o, bsh, ev.keys[k], obs.list[k]) : k \in 1 .. n}
   IN IF w \subseteq {""} THEN "" ELSE CHOOSE s \in w : s # ""

(* sparse format: parameters with one value get one column, others one
   column for each timestamp (each row of the two-dimensional result) *)
LOCAL KeySize(o, key) ==
   IF key \in DefNames
   THEN IF o.def[key].k = "arr" THEN Size(o.def[key].a.sh)
        ELSE Size(BcastSet(o, DefVars(o.def[key]), <<>>))
   ELSE Size(o.pd[key].sh)
LOCAL Width(o, key, bsh) == IF KeySize(o, key) = 1 THEN 1 ELSE bsh[1]
RECURSIVE FirstCol(_, _, _, _)
FirstCol(o, keys, bsh, k) == IF k = 1 THEN 0 ELSE FirstCol(o, keys, bsh, k - 1) + Width(o, keys[k - 1], bsh)
WhyJacSparse(o, ev, obs) ==
   LET bsh  == ModelShape(o)
       rows == Size(bsh)
       m    == bsh[Len(bsh)]                                   \* angles per timestamp
       nk   == Len(ev.keys)
       cols == FirstCol(o, ev.keys, bsh, nk + 1)
       ok(k, p) ==
         LET w == Width(o, ev.keys[k], bsh)
             c == FirstCol(o, ev.keys, bsh, k)
             x == XJac(o, bsh, p, ev.keys[k])
         IN \A j \in 1 .. w :
               LET e == obs.v[p * cols + c + j] IN
               IF w = 1 \/ j = (p \div m) + 1 THEN WithinJac(e, x) ELSE REq(e, R0)
   IN IF obs.sh # <<rows, cols>> THEN "shape of the sparse jacobian"
      ELSE IF \A k \in 1 .. nk : \A p \in 0 .. rows - 1 : ok(k, p) THEN ""
      ELSE "entries of the sparse jacobian"

(* -------------------------- reading the state -------------------------- *)
RECURSIVE Strip(_)
Strip(sh) == IF sh # <<>> /\ Head(sh) = 1 THEN Strip(Tail(sh)) ELSE sh
SameArray(a, b, tol) ==
   /\ Strip(a.sh) = Strip(b.sh)
   /\ \A i \in 1 .. Len(a.v) : Within(a.v[i], [v |-> b.v[i], t |-> tol ** RMax(R1, RAbs(b.v[i]))])

WhyDef(o, d, obs) ==
   IF o.def[d].k = "arr" THEN IF SameArray(obs, o.def[d].a, R0) THEN "" ELSE "value of " \o d
   ELSE LET sh == BcastSet(o, DefVars(o.def[d]), <<>>)
            x  == [sh |-> sh, v |-> [i \in 1 .. Size(sh) |->
                      Re(Eval(o.def[d], EagerF([n \in DefVars(o.def[d]) |-> DC(At(o.pd[n], sh, i - 1))])))]]
        IN IF SameArray(obs, x, E12) THEN "" ELSE "value of " \o d
WhyParams(o, obs) ==
   IF KwNames(obs.kw) # DOMAIN o.pd THEN "names of the stored parameters"
   ELSE IF \A n \in DOMAIN o.pd : SameArray(KwGet(obs.kw, n), o.pd[n], R0) THEN ""
   ELSE "values of the stored parameters"
WhyFlags(o, obs) ==
   IF obs.sig0 = o.sig0 /\ obs.dB = o.dB /\ obs.intQ = o.intQ /\ SameArray(obs.I0, o.I0, R0)
   THEN "" ELSE "settings"

(* ------------------------- scattering functions ------------------------ *)
FEnv(kw, bsh, p) == EagerF([n \in KwNames(kw) |-> DC(At(KwGet(kw, n), bsh, p))])
LOCAL KwShapes(kw) == [i \in 1 .. Len(kw) |-> kw[i].v.sh]
WhyScatCalc(ev, obs) ==
   LET bsh == Bcast(<<ev.t0.sh, ev.te.sh, ev.p0.sh, ev.pe.sh>> \o KwShapes(ev.kw))
       x(p) == LET env == FEnv(ev.kw, bsh, p)
                   K == Kvec(At(ev.t0, bsh, p), At(ev.te, bsh, p), At(ev.p0, bsh, p), At(ev.pe, bsh, p))
                   v == Re(Phase(ev.f, env, K))
               IN XF(ev.f, env, v, LinTol(v, E12 ** PhaseAbs(ev.f, env, K)))
   IN IF obs.sh # bsh THEN "shape"
      ELSE At1({p \in 0 .. Size(bsh) - 1 : ~ Within(obs.v[p + 1], x(p))})
WhyExpand(ev, obs) ==
   LET env == FEnv(ev.kw, <<>>, 0)
       v == ExpandAt(Groups(ev.f, env), Kvec(ev.t0.v[1], ev.te.v[1], ev.p0.v[1], ev.pe.v[1]))
   IN IF Within(obs.v[1], [v |-> v, t |-> (E9 ** RAbs(v)) ++ E10]) THEN "" ELSE "value of the expansion"
WhyCoefs(ev, obs) ==
   LET c == Coefs(ev.f, FEnv(ev.kw, <<>>, 0), ev.n) IN
   IF Len(obs.v) = ev.n /\ \A k \in 1 .. ev.n : Within(obs.v[k], [v |-> c[k], t |-> (E9 ** RAbs(c[k])) ++ E10])
   THEN "" ELSE "legendre coefficients"
RejScat(ev) ==
   CASE ev.op = "scalc" -> IF FVars(ev.f) \subseteq KwNames(ev.kw) THEN {} ELSE {"TypeError"}
     [] ev.op \in {"expand", "ncoefs"} -> IF NCoefs(ev.f) = 0 THEN {"AttributeError"} ELSE {}
     [] OTHER -> {}
ScatOps == {"scalc", "expand", "coefs", "ncoefs"}

(* ------------------------------ conformance ---------------------------- *)
Val(st, ev, obs) ==
   IF ev.op \in ScatOps
   THEN CASE ev.op = "scalc"  -> WhyScatCalc(ev, obs)
          [] ev.op = "expand" -> WhyExpand(ev, obs)
          [] ev.op = "coefs"  -> WhyCoefs(ev, obs)
          [] ev.op = "ncoefs" -> IF obs.n = NCoefs(ev.f) THEN "" ELSE "number of coefficients"
   ELSE LET so == After(st, ev) IN
        CASE ev.op = "calc" -> WhyCalc(so.objs[ev.o], obs)
          [] ev.op \in {"surface", "volume", "interaction"} -> WhyTerm(so.objs[ev.o], ev.op, obs)
          [] ev.op = "jac" -> IF ev.fmt = "list" THEN WhyJacList(so.objs[ev.o], ev, obs)
                              ELSE WhyJacSparse(so.objs[ev.o], ev, obs)
          [] ev.op = "angle" -> IF SameArray(obs, Angle(so.objs[ev.o], ev.a), E12) THEN "" ELSE "value of " \o ev.a
          [] ev.op = "def" -> WhyDef(so.objs[ev.o], ev.d, obs)
          [] ev.op = "params" -> WhyParams(so.objs[ev.o], obs)
          [] ev.op = "flags" -> WhyFlags(so.objs[ev.o], obs)
          [] ev.op = "getbackend" -> IF obs.s = st.backend THEN "" ELSE "backend"
          [] OTHER -> ""

Why(st, ev, obs) ==
   LET rej == IF ev.op \in ScatOps THEN RejScat(ev) ELSE Rejects(st, ev)
       names == {obs.names[i] : i \in 1 .. Len(obs.names)}
   IN IF ~ obs.intact THEN "an input array was modified"
      ELSE IF rej = {} THEN IF obs.exc # "" THEN "unexpected " \o obs.exc ELSE Val(st, ev, obs)
      ELSE IF obs.exc = "" THEN IF ev.op = "interaction" /\ MayOmit(st, ev) THEN "" ELSE "accepted, but has to be rejected"
      ELSE IF obs.exc \notin rej THEN "wrong exception " \o obs.exc
      ELSE IF ev.op \in ScatOps THEN ""
      ELSE IF ~ (MustName(st, ev, obs.exc) \subseteq names) THEN "the message does not name all missing parameters"
      ELSE IF OneOf(st, ev, obs.exc) # {} /\ OneOf(st, ev, obs.exc) \cap names = {} THEN "the message does not name the angle"
      ELSE ""
=============================================================================
