-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* What the plotting functions show: hemispherical reflectance, polar      *)
(* plots, and the analyzer widgets with their sliders.                     *)
(*                                                                         *)
(* st.wid maps the numbers of the widgets that were created to records     *)
(*   o       the model that is shown        kind  "2d" or "3d"             *)
(*   sl      the sliders, a sequence of [n, min, max, val, label]          *)
(*   range   name of the parameter whose range is shown, or ""             *)
(*   contribs  (3d) the contributions that are shown, e.g. <<"t", "s">>    *)
(*   inc     (3d) the incidence angle in degrees                           *)
(***************************************************************************)
EXTENDS Results

LOCAL Deg(x) == (x ** RPi) // RI(180)              \* degrees to radians
LOCAL RInt(k, m) == RFrac(k, m)

(* ----------------------- hemispherical reflectance --------------------- *)
G32  == Gauss(32)
HemT == OnInterval(G32, R0, RDiv(RPi, R2))
HemCT == Eager([j \in 1 .. 32 |-> RCos(HemT.x[j])])
HemST == Eager([j \in 1 .. 32 |-> RSin(HemT.x[j])])
HemW  == Eager([j \in 1 .. 32 |-> RMul(HemT.w[j], RMul(HemCT[j], HemST[j]))])
NPhi == 48
HemCP == Eager([k \in 1 .. NPhi |-> RCos(RMul(RFrac(2 * k - 1, NPhi), RPi))])
HemSP == Eager([k \in 1 .. NPhi |-> RSin(RMul(RFrac(2 * k - 1, NPhi), RPi))])
G16 == Gauss(16)

(* Int_0^2pi profile(A + B cos phi + C sin phi) dphi.  Cosine lobes vanish for
   negative arguments: A + D cos(phi - delta) > 0 on an interval *)
LOCAL AzimuthSmooth(f, pp, a, b, c) ==
   (RFrac(2, NPhi) ** RPi) ** RSum(Eager([k \in 1 .. NPhi |->
        Re(ProfileAt(f, pp, DC((a ++ (b ** HemCP[k])) ++ (c ** HemSP[k]))))]))
LOCAL AzimuthLobe(f, pp, a, b, c) ==
   LET d == RSqrt((b ** b) ++ (c ** c)) IN
   IF RLe(d, a) THEN AzimuthSmooth(f, pp, a, b, c)
   ELSE IF RLe(a, RNeg(d)) THEN R0
   ELSE LET h == RAcos(RNeg(a) // d)               \* half width of the interval
        IN (R2 ** h) ** RSum(Eager([k \in 1 .. 16 |->
             (G16.w[k] // R2) ** Re(ProfileAt(f, pp, DC(a ++ (d ** RCos(h ** G16.x[k])))))]))
G24 == Gauss(24)
LOCAL HemSmoothMember(f, pp, c0, b0, d0) ==
   RSum(Eager([j \in 1 .. 32 |-> HemW[j] ** AzimuthSmooth(f, pp, c0 ** HemCT[j], b0 ** HemST[j], d0 ** HemST[j])]))
(* a lobe: the azimuth integral is not smooth where |A| = D *)
LOCAL HemLobePart(f, pp, c0, b0, d0, lo, hi) ==
   LET n == OnInterval(G24, lo, hi) IN
   RSum(Eager([j \in 1 .. 24 |->
      LET ct == RCos(n.x[j]) st == RSin(n.x[j]) IN
      (n.w[j] ** (ct ** st)) ** AzimuthLobe(f, pp, c0 ** ct, b0 ** st, d0 ** st)]))
LOCAL HemLobeMember(f, pp, c0, b0, d0) ==
   LET e == RAtan2(RAbs(c0), RSqrt((b0 ** b0) ++ (d0 ** d0))) IN
   HemLobePart(f, pp, c0, b0, d0, R0, e) ++ HemLobePart(f, pp, c0, b0, d0, e, RPi // R2)
LOCAL HemMember(f, env, t0, p0) ==
   LET pp == EagerF(ProfPar(f, env))
       iso == Flat(f)
       a == Eager([q \in 1 .. 3 |-> IF iso THEN R0 ELSE Re(Eval(f.a[q], env))])
       c0 == a[1] ** RCos(t0)
       b0 == (a[2] ** RSin(t0)) ** RCos(p0)
       d0 == (a[3] ** RSin(t0)) ** RSin(p0)
   IN IF f.k = "Cos" THEN HemLobeMember(f, pp, c0, b0, d0) ELSE HemSmoothMember(f, pp, c0, b0, d0)
HemReflect(f, env, t0, p0) ==
   RSum([j \in 1 .. Len(Members(f)) |-> Re(Eval(Members(f)[j].w, env)) ** HemMember(Members(f)[j].f, env, t0, p0)])
(* the discretisation of the implementation (a grid of N x N points): a lobe
   of order 0 jumps, one of order 1 has a kink, both along a curve that may
   follow a line of the grid.  Relative to the weight of the lobe. *)
LOCAL HemGridErr(f, n) == IF f.k # "Cos" THEN R0 ELSE IF f.i = 0 THEN RFrac(4, n) ELSE RFrac(60, n * n)
LOCAL HemTol(f, env, n) ==
   RSum([j \in 1 .. Len(Members(f)) |-> RAbs(Re(Eval(Members(f)[j].w, env))) ** HemGridErr(Members(f)[j].f, n)])
(* incidence angles from ev.t[1] up to but excluding ev.t[2] in steps of ev.t[3], in quarter degrees *)
HemCount(ev) == IF ev.t[2] <= ev.t[1] THEN 0 ELSE ((ev.t[2] - ev.t[1] + ev.t[3]) - 1) \div ev.t[3]
HemAngle(ev, k) == RInt(ev.t[1] + (k - 1) * ev.t[3], 4)           \* degrees
LOCAL KwEnv(kw) == EagerF([n \in KwNames(kw) |-> DC(KwGet(kw, n).v[1])])
LOCAL HemNorm(st, ev) ==
   IF ev.via = "R"
   THEN LET o == st.objs[ev.o] IN
        IF o.def["NormBRDF"].k = "arr" THEN o.def["NormBRDF"].a.v[1]
        ELSE Re(Eval(o.def["NormBRDF"], EagerF([n \in DefVars(o.def["NormBRDF"]) |-> DC(o.pd[n].v[1])])))
   ELSE IF "NormBRDF" \in KwNames(ev.kw) THEN KwGet(ev.kw, "NormBRDF").v[1] ELSE R1
HemF(st, ev) == IF ev.via = "R" THEN st.objs[ev.o].S ELSE ev.f
WhyHem(st, ev, obs) ==
   LET f == HemF(st, ev)
       env == KwEnv(ev.kw)
       n == HemCount(ev)
       norm == HemNorm(st, ev)
       tol == RAbs(norm) ** HemTol(f, env, IF ev.dflt THEN 1000 ELSE ev.N)
       x(k) == LET v == norm ** HemReflect(f, env, Deg(HemAngle(ev, k)), ev.phi0)
               IN [v |-> v, t |-> ((RFrac(2, 10000) ** RAbs(v)) ++ tol) ++ E9]
   IN IF obs.sh # <<n>> THEN "shape"
      ELSE IF \E k \in 1 .. n : ~ Within(obs.v[k], x(k)) THEN "hemispherical reflectance"
      ELSE IF ~ ev.ret /\ (obs.x.sh # <<n>> \/ \E k \in 1 .. n : ~ Within(obs.x.v[k], [v |-> HemAngle(ev, k), t |-> E9]))
           THEN "incidence angles of the plot"
      ELSE ""

(* ------------------------------ polar plots ---------------------------- *)
(* obs.lines: the lines of the plot in order, each with ls, x (first and last
   angle) and px, py (some of its points); ev.inc in quarter degrees *)
PolSets(ev) == IF ev.sets = <<>> THEN << <<>> >> ELSE ev.sets
PolMissing(ev) == UNION {FVars(ev.f) \ KwNames(PolSets(ev)[k]) : k \in 1 .. Len(PolSets(ev))}
PolDashed(ev) == ev.aprox /\ NCoefs(ev.f) # 0
IsSurf(f) == f.k \in {"SIso", "Cos", "SHG", "HGN", "SUsr", "SLin"}
WhyPolar(ev, obs) ==
   LET sets == PolSets(ev)
       ni == Len(ev.inc)
       n == Len(sets) * ni
       solid  == SelectSeq(obs.lines, LAMBDA l : l.ls = "-")
       dashed == SelectSeq(obs.lines, LAMBDA l : l.ls = "--")
       inc(k) == Deg(RInt(ev.inc[((k - 1) % ni) + 1], 4))
       env(k) == KwEnv(sets[((k - 1) \div ni) + 1])
       lo == IF IsSurf(ev.f) THEN RNeg(RPi // R2) ELSE R0
       hi == IF IsSurf(ev.f) THEN RPi // R2 ELSE R2 ** RPi
       ranges(l) == Within(l.x[1], [v |-> lo, t |-> RFrac(5, 100)]) /\ Within(l.x[2], [v |-> hi, t |-> RFrac(5, 100)])
       okS(k) == LET e == env(k) l == solid[k] IN
          \A j \in 1 .. Len(l.px) :
             LET kv == Kvec(inc(k), l.px[j], R0, R0)  v == Re(Phase(ev.f, e, kv)) IN
             Within(l.py[j], XF(ev.f, e, v, LinTol(v, E10 ** PhaseAbs(ev.f, e, kv))))
       okD(k) == LET g == Groups(ev.f, env(k)) l == dashed[k] IN
          \A j \in 1 .. Len(l.px) :
             LET v == ExpandAt(g, Kvec(inc(k), l.px[j], R0, R0)) IN
             Within(l.py[j], [v |-> v, t |-> (E9 ** RAbs(v)) ++ E9])
   IN IF Len(solid) # n THEN "number of lines of the function"
      ELSE IF Len(dashed) # (IF PolDashed(ev) THEN n ELSE 0) THEN "number of lines of the expansion"
      ELSE IF Len(obs.lines) # Len(solid) + Len(dashed) THEN "number of lines"
      ELSE IF \E k \in 1 .. n : ~ ranges(solid[k]) THEN "range of exit angles"
      ELSE IF \E k \in 1 .. n : ~ okS(k) THEN "values of the function"
      ELSE IF \E k \in 1 .. Len(dashed) : ~ okD(k) \/ ~ ranges(dashed[k]) THEN "values of the expansion"
      ELSE IF obs.figs # (IF ev.ax THEN 0 ELSE 1) THEN "number of new figures"
      ELSE ""

(* -------------------------------- widgets ------------------------------ *)
WidOps == {"analyze", "analyze3d", "slide", "range"}
(* symbols of a model, as far as they are model parameters *)
Symbols(o) == AllDefVars(o) \cup FVars(o.V) \cup FVars(o.S)
(* ev.kw: sequence of [n, v]; v = [min, max, start (real or None), label ("" if not given)] *)
LOCAL Sliders(o, ev) ==
   LET ks == SelectSeq(ev.kw, LAMBDA e : e.n \in Symbols(o)) IN
   Eager([i \in 1 .. Len(ks) |->
      LET v == ks[i].v IN
      [n |-> ks[i].n, min |-> v.min, max |-> v.max,
       val |-> IF v.start = None THEN (v.min ++ v.max) // R2 ELSE v.start.v,
       label |-> IF v.label = "" THEN ks[i].n ELSE v.label]])
LOCAL WidMissing(o, ev) == Symbols(o) \ (KwNames(ev.kw) \cup DOMAIN o.pd)
RejWid(st, ev) ==
   IF ev.op \notin {"analyze", "analyze3d"} THEN {}
   ELSE LET o == st.objs[ev.o] IN
        (IF WidMissing(o, ev) # {} THEN {"AssertionError"} ELSE {}) \cup
        (IF (IF ev.op = "analyze" THEN o.intQ ELSE \E i \in 1 .. Len(ev.contribs) : ev.contribs[i] = "i")
              /\ (NCoefs(o.V) = 0 \/ NCoefs(o.S) = 0)
         THEN {"AttributeError"} ELSE {})

(* the model takes the values of the sliders; the angles it is evaluated at
   are the ones of the plot *)
LOCAL Shown(o, w, mode) ==
   [o EXCEPT !.mode = mode, !.fix = {"p_0"},
             !.ang = EagerF([n \in AngleNames |-> Scalar(R0)]),
             !.dB = IF w.kind = "3d" THEN FALSE ELSE o.dB,
             !.pd = EagerF([n \in {w.sl[i].n : i \in 1 .. Len(w.sl)} |->
                       Scalar(LET i == CHOOSE j \in 1 .. Len(w.sl) : w.sl[j].n = n IN w.sl[i].val)] @@ o.pd)]
LOCAL PutWid(st, i, w) ==
   [st EXCEPT !.wid = EagerF((i :> w) @@ st.wid),
              !.objs = EagerF((w.o :> Shown(st.objs[w.o], w, IF w.kind = "2d" THEN "mono" ELSE "bi")) @@ st.objs)]
AfterWid(st, ev) ==
   IF RejWid(st, ev) # {} THEN st
   ELSE CASE ev.op = "analyze" ->
               PutWid(st, ev.w, [o |-> ev.o, kind |-> "2d", sl |-> Sliders(st.objs[ev.o], ev), range |-> ev.range,
                                 contribs |-> <<>>, inc |-> R0])
          [] ev.op = "analyze3d" ->
               PutWid(st, ev.w, [o |-> ev.o, kind |-> "3d", sl |-> Sliders(st.objs[ev.o], ev), range |-> "",
                                 contribs |-> ev.contribs, inc |-> RI(45)])
          [] ev.op = "slide" ->
               LET w == st.wid[ev.w] IN
               PutWid(st, ev.w, IF ev.n = "inc" /\ w.kind = "3d" THEN [w EXCEPT !.inc = ev.v]
                                ELSE [w EXCEPT !.sl = Eager([i \in 1 .. Len(w.sl) |->
                                         IF w.sl[i].n = ev.n THEN [w.sl[i] EXCEPT !.val = ev.v] ELSE w.sl[i]])])
          [] ev.op = "range" -> PutWid(st, ev.w, [st.wid[ev.w] EXCEPT !.range = ev.n])

(* value of a contribution (0 total, 1 surface, 2 volume, 3 interaction, 4
   surface and volume) at one point *)
LOCAL PointQ(o, env, t0, te, p0, pe) ==
   LET z == [sh |-> <<>>, v |-> <<R0>>]
       q == PointAt([o EXCEPT !.mode = "bi", !.ang = [n \in AngleNames |-> z]], env, <<>>, 0)
   IN [q EXCEPT !.t0 = t0, !.te = te, !.p0 = p0, !.pe = pe]
LOCAL XContrib(o, env, q, k) ==
   CASE k = 0 -> XAdd(XAdd(XSurface(o, env, q), XVolume(o, env, q)), IF o.intQ THEN XInteraction(o, env, q) ELSE X(R0, R0))
     [] k = 1 -> XSurface(o, env, q)
     [] k = 2 -> XVolume(o, env, q)
     [] k = 3 -> XInteraction(o, env, q)
     [] k = 4 -> XAdd(XSurface(o, env, q), XVolume(o, env, q))
LOCAL Squeeze(o) ==                                \* stored parameters have one element
   [o EXCEPT !.pd = EagerF([n \in DOMAIN o.pd |-> Scalar(o.pd[n].v[1])]),
             !.I0 = Scalar(o.I0.v[1]),
             !.def = EagerF([d \in DefNames |-> IF o.def[d].k = "arr" THEN ENum(o.def[d].a.v[1]) ELSE o.def[d]])]
LOCAL With(o, n, v) == [o EXCEPT !.pd = EagerF((n :> Scalar(v)) @@ o.pd)]
LOCAL OKat(o0, te, obs, k) ==                         \* at t_0 = te degrees, monostatic
   LET o == Squeeze(o0)
       env == Env(o, <<>>, 0)
       q == PointQ(o, env, Deg(te), Deg(te), R0, RPi)
   IN Accept(o, obs, q, XContrib(o, env, q, k))

LOCAL LabelK(l) == CASE l = "Total" -> 0 [] l = "Surface" -> 1 [] l = "Volume" -> 2 [] l = "Interaction" -> 3 [] OTHER -> 4
LOCAL WhySliders(w, obs) ==
   IF Len(obs.sliders) # Len(w.sl) THEN "number of sliders"
   ELSE IF \E i \in 1 .. Len(w.sl) : LET s == obs.sliders[i] t == w.sl[i] tol(x) == [v |-> x, t |-> E12 ** RMax(R1, RAbs(x))] IN
             \/ s.n # t.n \/ s.label # t.label
             \/ ~ Within(s.min, tol(t.min)) \/ ~ Within(s.max, tol(t.max)) \/ ~ Within(s.val, tol(t.val))
        THEN "range, value or label of a slider" ELSE ""
(* obs.lines: [label, px, py]; obs.coll: for each line collection [n, x, j, y]: the
   number of its lines, one abscissa, and the ordinates of all lines there;
   obs.fill: [lo, hi] of the filled areas at this abscissa *)
LOCAL Why2d(st, w, obs) ==
   LET o == st.objs[w.o]
       ks == {0, 1, 2} \cup (IF o.intQ THEN {3} ELSE {})
       found == {LabelK(obs.lines[i].label) : i \in 1 .. Len(obs.lines)}
       nc == IF w.range = "" THEN 0 ELSE Cardinality(ks)
       s == CHOOSE i \in 1 .. Len(w.sl) : w.sl[i].n = w.range
       rv(j, n) == w.sl[s].min ++ ((w.sl[s].max -- w.sl[s].min) ** RFrac(j - 1, n - 1))
       okC(k) == LET c == obs.coll[k + 1] IN
          \A j \in {1, (c.n + 1) \div 2, c.n} : OKat(With(o, w.range, rv(j, c.n)), c.x, c.y[j], k)
   IN IF ~ (ks \subseteq found) \/ found \ (ks \cup {4}) # {} \/ Cardinality(found) # Len(obs.lines)
      THEN "lines of the plot"
      ELSE IF \E i \in 1 .. Len(obs.lines) : LET l == obs.lines[i] k == LabelK(l.label) IN
                (k = 4 /\ ~ o.intQ) \/ \E j \in 1 .. Len(l.px) : ~ OKat(o, l.px[j], l.py[j], k)
           THEN "values of the lines"
      ELSE IF Len(obs.coll) # nc THEN "lines of the parameter range"
      ELSE IF \E i \in 1 .. nc : obs.coll[i].n < 2 \/ ~ okC(i - 1) THEN "values of the parameter range"
      ELSE IF Len(obs.fill) # nc THEN "areas of the parameter range"
      ELSE IF \E i \in 1 .. nc : LET c == obs.coll[i] IN
                LET m == FoldLeft(RMin, c.y[1], c.y)  x == FoldLeft(RMax, c.y[1], c.y) IN
                (\A j \in 1 .. Len(c.y) : RIsFinite(c.y[j])) /\
                (~ Within(obs.fill[i][1], [v |-> m, t |-> E9 ** RMax(R1, RAbs(m))]) \/
                ~ Within(obs.fill[i][2], [v |-> x, t |-> E9 ** RMax(R1, RAbs(x))]))
           THEN "bounds of the parameter range"
      ELSE ""
(* obs.surf: the surfaces that were drawn: [label, sh, pts: <<[te, pe, x, y, z]>>] *)
LOCAL Why3d(st, w, samples, obs) ==
   LET o == Squeeze([st.objs[w.o] EXCEPT !.intQ = \E i \in 1 .. Len(w.contribs) : w.contribs[i] = "i"])
       ks == {CASE w.contribs[i] = "t" -> 0 [] w.contribs[i] = "s" -> 1 [] w.contribs[i] = "v" -> 2 [] w.contribs[i] = "i" -> 3 :
                 i \in 1 .. Len(w.contribs)}
       found == {LabelK(obs.surf[i].label) : i \in 1 .. Len(obs.surf)}
       env == Env(o, <<>>, 0)
       ok(k, p) == LET q == PointQ(o, env, Deg(w.inc), p.te, R0, p.pe)
                       x == XScale(Factor(o, q), XContrib(o, env, q, k))
                       st1 == RSin(p.te)
                       in(v, d) == Within(v, [v |-> d ** x.v, t |-> x.t ++ (E10 ** RAbs(x.v))])
                   IN in(p.x, st1 ** RCos(p.pe)) /\ in(p.y, st1 ** RSin(p.pe)) /\ in(p.z, RCos(p.te))
   IN IF found # ks \/ Len(obs.surf) # Cardinality(ks) THEN "surfaces of the plot"
      ELSE IF obs.nsurf # Cardinality(ks) THEN "number of surfaces in the axes"
      ELSE IF ~ Within(obs.inc, [v |-> w.inc, t |-> E9]) THEN "incidence-angle slider"
      ELSE IF \E i \in 1 .. Len(obs.surf) : \E j \in 1 .. Len(obs.surf[i].pts) : ~ ok(LabelK(obs.surf[i].label), obs.surf[i].pts[j])
           THEN "values of the surfaces"
      ELSE ""
WhyWid(st, ev, obs) ==                             \* st: after the call
   LET w == st.wid[ev.w]  s == WhySliders(w, obs) IN
   IF s # "" THEN s ELSE IF w.kind = "2d" THEN Why2d(st, w, obs) ELSE Why3d(st, w, 0, obs)

(* ------------------------------ conformance ---------------------------- *)
PlotOps == WidOps \cup {"hemr", "polar"}
RejPlot(st, ev) ==
   CASE ev.op \in WidOps -> RejWid(st, ev)
     [] ev.op = "polar" -> IF PolMissing(ev) # {} THEN {"AssertionError"} ELSE {}
     [] OTHER -> {}
(* names of which the message has to contain all *)
PlotNames(st, ev, exc) ==
   IF exc # "AssertionError" THEN {}
   ELSE CASE ev.op \in {"analyze", "analyze3d"} -> WidMissing(st.objs[ev.o], ev)
          [] OTHER -> {}
LOCAL PolNamed(ev, names) ==                       \* the missing parameters of one of the sets
   \E k \in 1 .. Len(PolSets(ev)) :
      LET m == FVars(ev.f) \ KwNames(PolSets(ev)[k]) IN m # {} /\ m \subseteq names
WhyPlot(st, ev, obs) ==
   LET rej == RejPlot(st, ev)
       names == {obs.names[i] : i \in 1 .. Len(obs.names)}
   IN IF ~ obs.intact THEN "an argument was modified"
      ELSE IF rej = {}
           THEN IF obs.exc # "" THEN "unexpected " \o obs.exc
                ELSE CASE ev.op = "hemr" -> WhyHem(st, ev, obs)
                       [] ev.op = "polar" -> WhyPolar(ev, obs)
                       [] OTHER -> WhyWid(AfterWid(st, ev), ev, obs)
      ELSE IF obs.exc = "" THEN "accepted, but has to be rejected"
      ELSE IF obs.exc \notin rej THEN "wrong exception " \o obs.exc
      ELSE IF ~ (PlotNames(st, ev, obs.exc) \subseteq names) THEN "the message does not name all missing parameters"
      ELSE IF ev.op = "polar" /\ ~ PolNamed(ev, names) THEN "the message does not name the missing parameters"
      ELSE ""
=============================================================================
