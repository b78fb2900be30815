-------------------------------- MODULE SchedX --------------------------------
(***************************************************************************)
(* Schedulers of the plotting functions, the widgets and logging, besides  *)
(* those of module Sched.                                                  *)
(***************************************************************************)
EXTENDS Sched, Machine

LOCAL Scal(c, n) == LET a == ValFor(c, n, <<>>) IN [a EXCEPT !.ty = "py"]
LOCAL ScalKw(c, names) == LET s == Shuffle(c \o <<77>>, names) IN
                          Eager([i \in 1 .. Len(s) |-> KV(s[i], Scal(c \o <<i>>, s[i]))])
(* a definition with scalar values *)
LOCAL ScalDef(c, o, d) ==
   LET e == DefCall(c, o, d, <<1, 1>>) IN
   IF e.e.k = "arr" THEN [e EXCEPT !.e = ENum(Num(c \o <<9>>, 50, 950))] ELSE e
LOCAL BackendCall(c) == [op |-> "backend", b |-> PS(c, <<"sympy", "symengine">>)]

(* ----------------------- hemispherical reflectance --------------------- *)
LOCAL HemCall(c, st, via, f) ==
   LET step == 5 + P(c \o <<1>>, 90)
       lo == IF Chance(c \o <<2>>, 40) THEN 0 ELSE P(c \o <<3>>, 200)
       n == 1 + P(c \o <<4>>, 3)
       hi == lo + n * step - (IF Chance(c \o <<5>>, 40) THEN 0 ELSE P(c \o <<6>>, step))
       dflt == Chance(c \o <<7>>, 6)
       S == IF via = "R" THEN st.objs[1].S ELSE f
   IN [op |-> "hemr", via |-> via, o |-> 1, f |-> f,
       kw |-> ScalKw(c \o <<8>>, FVars(S) \cup (IF via = "S" /\ Chance(c \o <<9>>, 60) THEN {"NormBRDF"} ELSE {})),
       call |-> PS(c \o <<10>>, <<"method", "func">>), phi0 |-> Num(c \o <<11>>, -3000, 6000), dflt |-> dflt,
       t |-> IF dflt THEN <<0, 360, 20>> ELSE <<lo, IF hi > 360 THEN 360 ELSE hi, step>>,
       N |-> IF dflt THEN 0 ELSE PS(c \o <<12>>, <<301, 401, 400, 351>>), ret |-> Chance(c \o <<13>>, 80)]
HemStep(cc, pos, st) ==
   LET c == Key(cc, pos)  o == st.objs[1]
       f == SurfF(K(cc, 2), 2, 45, 2, 30)
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, 40, 2, 0), f, FALSE)
        [] pos = 2 -> IF Chance(c, 70) THEN ScalDef(c, 1, "NormBRDF") ELSE Skip
        [] pos = 3 -> [op |-> "upd", o |-> 1, kw |-> ScalKw(c, DefVars(o.def["NormBRDF"]))]
        [] pos = 4 -> BackendCall(c)
        [] pos = 5 -> HemCall(c, st, "R", f)
        [] pos = 6 -> HemCall(c, st, "S", f)
        [] pos = 7 -> HemCall(c, st, "S", SurfF(K(cc, 3), 3, 45, 2, 20))
        [] OTHER -> End

(* ------------------------------ polar plots ---------------------------- *)
LOCAL PolCall(c, f) ==
   LET nset == IF FVars(f) = {} /\ Chance(c \o <<1>>, 60) THEN 0 ELSE 1 + P(c \o <<2>>, 2)
       gap == P(c \o <<3>>, nset + 1)                \* set that lacks a parameter
       lack == FVars(f) # {} /\ Chance(c \o <<4>>, 15)
       set(k) == ScalKw(c \o <<5, k>>,
                    IF lack /\ (k = gap \/ gap = 0) THEN FVars(f) \ {PS(c \o <<6, k>>, NameSeq(FVars(f)))} ELSE FVars(f))
   IN [op |-> "polar", f |-> f, sets |-> Eager([k \in 1 .. nset |-> set(k)]), lst |-> nset > 1 \/ Chance(c \o <<7>>, 30),
       inc |-> Eager([k \in 1 .. 1 + P(c \o <<8>>, 3) |-> P(c \o <<9, k>>, 350)]), ax |-> Chance(c \o <<10>>, 40),
       call |-> PS(c \o <<11>>, <<"method", "func">>), aprox |-> Chance(c \o <<12>>, 75), legend |-> Chance(c \o <<13>>, 60)]
LOCAL NoCoefs(c, f, pc) ==
   IF Chance(c, pc) /\ f.k \notin {"VIso", "SIso", "Ray"}
   THEN IF IsLin(f) THEN [f EXCEPT !.m = Eager([j \in 1 .. Len(f.m) |->
                             IF j = 1 /\ f.m[j].f.k \notin {"VIso", "SIso", "Ray"} THEN [f.m[j] EXCEPT !.f = [f.m[j].f EXCEPT !.nc = 0]] ELSE f.m[j]])]
        ELSE [f EXCEPT !.nc = 0]
   ELSE f
PolStep(cc, pos) ==
   LET c == Key(cc, pos)
       fv == NoCoefs(cc.c \o <<460>>, VolF(K(cc, 1), 1, 45, 5, 30), 20)
       fs == NoCoefs(cc.c \o <<461>>, SurfF(K(cc, 2), 2, 45, 5, 30), 20)
   IN CASE pos = 1 -> PolCall(c, fv)
        [] pos = 2 -> PolCall(c, fs)
        [] pos = 3 -> BackendCall(c)
        [] pos = 4 -> PolCall(c, IF Chance(c, 50) THEN fv ELSE fs)
        [] OTHER -> End

(* -------------------------------- widgets ------------------------------ *)
LOCAL Span(c, n) ==
   LET mid == Lo(n) + ((Hi(n) - Lo(n)) \div 4) + P(c \o <<1>>, (Hi(n) - Lo(n)) \div 2)
       lo == Num(c \o <<2>>, Lo(n), mid)  hi == Num(c \o <<3>>, mid + 20, Hi(n))
       len == 2 + P(c \o <<4>>, 3)                   \* number of elements of the tuple
   IN [min |-> lo, max |-> hi,
       start |-> IF len = 2 THEN None ELSE [k |-> "num", v |-> lo ++ ((hi -- lo) ** Milli(P(c \o <<5>>, 1001)))],
       label |-> IF len < 4 THEN "" ELSE PS(c \o <<6>>, <<"Optical depth", "A", "par", "x">>)]
LOCAL WidKw(c, names) == LET s == Shuffle(c \o <<77>>, names) IN
                         Eager([i \in 1 .. Len(s) |-> KV(s[i], Span(c \o <<i>>, s[i]))])
LOCAL ContribSets == <<<<"t", "s">>, <<"t">>, <<"s", "v">>, <<"t", "s", "v", "i">>, <<"v", "t">>, <<"i">>, <<"t", "v", "i">>, <<"s">>>>
LOCAL Analyze3(c, i, w, kw) ==
   [op |-> "analyze3d", o |-> i, w |-> w, kw |-> kw,
    contribs |-> PS(c \o <<21>>, ContribSets), samples |-> 4 + P(c \o <<22>>, 4)]
LOCAL AnalyzeCall(c, st, i, w) ==
   LET o == st.objs[i]
       need == Symbols(o) \ DOMAIN o.pd
       lack == need # {} /\ Chance(c \o <<1>>, 12)
       names0 == need \cup SubNames(c \o <<2>>, Symbols(o))
       names == IF lack THEN names0 \ {PS(c \o <<3>>, NameSeq(need))} ELSE names0
       used == NameSeq(names)
       kw == WidKw(c, names \cup (IF Chance(c \o <<4>>, 20) THEN {"unused"} ELSE {}))
   IN IF Chance(c \o <<5>>, 40) THEN Analyze3(c, i, w, kw)
      ELSE [op |-> "analyze", o |-> i, w |-> w, kw |-> kw,
            range |-> IF names # {} /\ ~ lack /\ Chance(c \o <<6>>, 35) THEN PS(c \o <<7>>, used) ELSE ""]
LOCAL Interact(c, st, w) ==
   LET x == st.wid[w]  n == Len(x.sl) IN
   IF x.kind = "2d" /\ Chance(c \o <<1>>, 30)
   THEN [op |-> "range", w |-> w, n |-> IF n = 0 \/ Chance(c \o <<2>>, 35) THEN "" ELSE x.sl[1 + P(c \o <<3>>, n)].n]
   ELSE IF x.kind = "3d" /\ (n = 0 \/ Chance(c \o <<4>>, 30))
   THEN [op |-> "slide", w |-> w, n |-> "inc", v |-> Num(c \o <<5>>, 200, 89000)]
   ELSE IF n = 0 THEN Skip
   ELSE LET s == x.sl[1 + P(c \o <<6>>, n)] IN
        [op |-> "slide", w |-> w, n |-> s.n, v |-> s.min ++ ((s.max -- s.min) ** Milli(P(c \o <<7>>, 1001)))]
(* objects 1 and 2 with widgets 1 and 2 *)
WidStep(cc, pos, st, hist) ==
   LET c == Key(cc, pos)  two == Chance(cc.c \o <<470>>, 40)
       i == IF pos \in 11 .. 16 THEN 2 ELSE 1
       o == st.objs[i]
       has(w) == w \in DOMAIN st.wid
       fin == IF pos < 40 THEN 1 ELSE 2
       new(k) == NewCall(c, k, VolF(K(cc, 2 * k), 2 * k, 40, 2, 15), SurfF(K(cc, 2 * k + 1), 2 * k + 1, 40, 2, 15), Chance(c \o <<9>>, 35))
   IN CASE pos = 1 -> new(1)
        [] pos = 2 -> IF Chance(c, 60) THEN ScalDef(c \o <<1>>, 1, PS(c \o <<2>>, <<"tau", "omega", "NormBRDF">>)) ELSE Skip
        [] pos = 3 -> IF Chance(c, 40) THEN ScalDef(c \o <<1>>, 1, PS(c \o <<2>>, <<"bsf", "omega", "tau">>)) ELSE Skip
        [] pos = 4 -> [op |-> "upd", o |-> 1, kw |-> ScalKw(c, SubNames(c \o <<1>>, Needed(o)))]
        [] pos = 5 -> IF Chance(c, 40) THEN BackendCall(c) ELSE Skip
        [] pos = 6 -> AnalyzeCall(c, st, 1, 1)
        [] pos \in {7, 8} -> IF has(1) THEN Interact(c, st, 1) ELSE Skip
        [] pos = 11 -> IF two THEN (IF Chance(c, 60) THEN NewCall(c, 2, st.objs[1].V, st.objs[1].S, Chance(c \o <<9>>, 35)) ELSE new(2)) ELSE Skip
        [] pos = 12 -> IF two /\ Chance(c, 50) THEN ScalDef(c, 2, PS(c \o <<2>>, <<"tau", "omega", "NormBRDF", "bsf">>)) ELSE Skip
        [] pos = 13 -> IF two THEN AnalyzeCall(c, st, 2, 2) ELSE Skip
        [] pos \in 20 .. 25 -> LET w == IF two /\ Chance(c, 50) THEN 2 ELSE 1 IN IF has(w) THEN Interact(c, st, w) ELSE Skip
        (* afterwards the models work as before *)
        [] pos \in {30, 40} -> IF pos = 40 /\ ~ two THEN End ELSE [op |-> "setbi", o |-> fin, kw |-> <<>>]
        [] pos \in {31, 41} -> GeomCall(c, fin, <<1, 2>>, AngleNames)
        [] pos \in {32, 42} -> FlagTo(fin, "dB", Chance(c, 50))
        [] pos \in {33, 43} -> [op |-> "calc", o |-> fin, kw |-> ScalKw(c, Needed(st.objs[fin]))]
        [] pos > 43 -> End
        [] OTHER -> Skip

(* -------------------------------- logging ------------------------------ *)
LOCAL LevOf(c) ==
   IF Chance(c \o <<1>>, 60)
   THEN [k |-> "name", s |-> PS(c \o <<2>>, <<"debug", "info", "warning", "error", "critical", "debug", "info", "warning", "notset", "verbose", "warn1">>),
         how |-> PS(c \o <<3>>, <<"lower", "upper", "title", "swap">>)]
   ELSE [k |-> "int", n |-> PS(c \o <<4>>, <<10, 20, 30, 40, 50, 5, 15, 25, 35, 60, 1>>)]
LOCAL CustomFmts == <<
   <<[fld |-> "message"]>>, <<[lit |-> "["], [fld |-> "levelname"], [lit |-> "] "], [fld |-> "message"]>>,
   <<[fld |-> "name"], [lit |-> "/"], [fld |-> "levelno"], [lit |-> " -> "], [fld |-> "message"], [lit |-> " <-"]>>,
   <<[lit |-> "rt1 "], [fld |-> "message"]>> >>
LOCAL FmtOf(c) ==
   LET t == P(c \o <<1>>, 10) IN
   IF t < 5 THEN [k |-> "preset", s |-> PS(c \o <<2>>, <<"plain", "basic", "timed", "debug", "minimal">>)]
   ELSE IF t < 7 THEN [k |-> "custom", parts |-> PS(c \o <<3>>, CustomFmts)]
   ELSE IF t = 7 THEN [k |-> "none"] ELSE [k |-> "omit"]
LOCAL Emit(c) == [op |-> "emit", n |-> PS(c \o <<1>>, <<10, 20, 30, 40, 50>>), msg |-> "m" \o ToString(P(c \o <<2>>, 100000)),
                  name |-> PS(c \o <<3>>, <<"rt1_model", "rt1_model", "rt1_model._calc", "rt1_model.some.thing">>)]
LogStep(cc, pos) ==
   LET c == Key(cc, pos)  t == P(c \o <<9>>, 100) IN
   IF pos > 16 THEN IF pos > 20 THEN End ELSE Emit(c)
   ELSE IF pos = 16 THEN [op |-> "handlers"]
   ELSE IF t < 35 THEN [op |-> "setlog", lev |-> LevOf(c), fmt |-> FmtOf(c \o <<8>>)]
   ELSE IF t < 45 THEN [op |-> "userh", at |-> PS(c \o <<1>>, <<"package", "root">>), lev |-> PS(c \o <<2>>, <<0, 10, 30, 40>>)]
   ELSE IF t < 52 THEN [op |-> "handlers"]
   ELSE Emit(c)

(* --------------------------------- steps ------------------------------- *)
(* families whose cases are executed with both backends and switches in between *)
BaseFam == [scatB |-> "scat", linB |-> "scatlin", jacB |-> "jac", limitB |-> "limit", shapeB |-> "shape", unitsB |-> "units",
            paramsB |-> "params", hemiB |-> "hemi", polarB |-> "polar"]
RECURSIVE StepOfX(_, _, _, _, _)
StepOfX(fam, cc, pos, st, hist) ==
   CASE fam = "hemi"  -> HemStep(cc, pos, st)
     [] fam = "polar" -> PolStep(cc, pos)
     [] fam = "wid"   -> WidStep(cc, pos, st, hist)
     [] fam = "log"   -> LogStep(cc, pos)
     [] fam \in DOMAIN BaseFam -> StepOfX(BaseFam[fam], cc, pos, st, hist)
     [] OTHER -> StepOf(fam, cc, pos, st, hist)
PlansOfX(fam, cc, hist) == PlansOf(IF fam \in DOMAIN BaseFam THEN "switch" ELSE fam, cc, hist)
=============================================================================
