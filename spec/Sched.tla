--------------------------------- MODULE Sched ---------------------------------
(***************************************************************************)
(* Schedulers: the next call of a behaviour, chosen from the current state *)
(* of the machine of module RT1 (so that e.g. exactly the missing          *)
(* parameters can be given, or exactly one is left out).                   *)
(* StepOf(family, cc, pos, st, hist) is that call, Skip, or End.           *)
(***************************************************************************)
EXTENDS Pick

End == [op |-> "end"]
Skip == [op |-> "skip"]                            \* no call at this step
KV(n, v) == [n |-> n, v |-> v]
NumArg(r) == [k |-> "num", v |-> r, ty |-> "py"]
ArrArg(a) == [k |-> "arr", a |-> a]
NameSeq(S) == SetToSeq(S)
Keep(s, T(_)) == SelectSeq(s, T)

(* a permutation *)
RECURSIVE Shuffle(_, _)
Shuffle(c, S) == IF S = {} THEN <<>>
                 ELSE LET s == NameSeq(S)
                          n == s[1 + RHash(c \o <<Cardinality(S)>>, Len(s))]
                      IN <<n>> \o Shuffle(c, S \ {n})

(* ------------------------- building blocks of schedules ---------------- *)
(* cc: [c |-> <<seed, case>>, b |-> base shape] *)
Key(cc, pos) == cc.c \o <<pos>>
Angles4 == <<"t_0", "t_ex", "p_0", "p_ex">>
AngLo(a) == IF a \in {"t_0", "t_ex"} THEN 0 ELSE -3200
AngHi(a) == IF a \in {"t_0", "t_ex"} THEN 1450 ELSE 6400
AngNum(c, a) ==
   IF a \in {"t_0", "t_ex"} /\ Chance(c \o <<81>>, 8) THEN R0 ELSE Num(c, AngLo(a), AngHi(a))
AngArr(c, a, sh) ==
   LET x == ArrOf(c, sh, AngLo(a), AngHi(a)) IN
   IF a \in {"t_0", "t_ex"} /\ Chance(c \o <<82>>, 8) THEN [x EXCEPT !.v[1] = R0] ELSE x

NewCall(c, o, V, S, intQ) ==
   [op |-> "new", o |-> o, V |-> V, S |-> S, intQ |-> intQ, sig0 |-> Chance(c \o <<1>>, 50),
    dB |-> Chance(c \o <<2>>, 35),
    I0 |-> IF Chance(c \o <<3>>, 40) THEN [sh |-> <<>>, v |-> <<R1>>, ty |-> "py"] ELSE ArrOf(c \o <<4>>, <<>>, 200, 4000)]

(* a new model that uses the functions of model src, and its fn-coefficients
   (what = "fn") or compiled functions (what = "fnevals") *)
ReuseCall(c, o, st, src, what) ==
   NewCall(c, o, st.objs[src].V, st.objs[src].S, TRUE) @@ [from |-> [o |-> src, what |-> what]]

(* fix the angles in F *)
ModeCall(c, o, mode, F) ==
   [op |-> IF mode = "mono" THEN "setmono" ELSE "setbi", o |-> o,
    kw |-> Keep([i \in 1 .. 4 |-> KV(Angles4[i], NumArg(AngNum(c \o <<i>>, Angles4[i])))],
                LAMBDA e : e.n \in F)]
Dynamic(o) == (IF o.mode = "mono" THEN {"t_0", "p_0"} ELSE AngleNames) \ o.fix
GeomCall(c, o, b, names) ==
   [op |-> "setgeom", o |-> o,
    kw |-> Keep([i \in 1 .. 4 |-> KV(Angles4[i], ArrArg(AngArr(c \o <<i>>, Angles4[i], SubShape(c \o <<i, 7>>, b))))],
                LAMBDA e : e.n \in names)]
Needed(o) == AllDefVars(o) \cup FVars(o.V) \cup FVars(o.S)
ParamKw(c, b, names) ==                            \* in a random order
   LET s == Shuffle(c \o <<77>>, names) IN
   [i \in 1 .. Len(s) |-> KV(s[i], ValFor(c \o <<i>>, s[i], SubShape(c \o <<i, 7>>, b)))]
UpdCall(c, o, b, names) == [op |-> "upd", o |-> o, kw |-> ParamKw(c, b, names)]
EvalCall(op, o, kw) == [op |-> op, o |-> o, kw |-> kw]
(* definition of tau, omega, NormBRDF or bsf *)
DefCall(c, o, d, b) ==
   LET t == P(c \o <<1>>, 10)
       as == PS(c \o <<6>>, <<"num", "int", "str", "sympy", "real">>)
       (* names that only sympy symbols can have *)
       names == IF as \in {"sympy", "real"} /\ Chance(c \o <<7>>, 30) THEN [x |-> "beta", N |-> "I"] ELSE << >>
       e == IF t < 2 THEN ENum(Num(c \o <<2>>, 50, 950))
          ELSE IF t = 2 THEN [k |-> "arr", a |-> NpArr(ArrOf(c \o <<3>>, SubShape(c \o <<4>>, <<b[1], b[2]>>), 50, 950))]
          ELSE IF t = 3 THEN ESym(d)
            ELSE Expr01(c \o <<5>>)
   IN [op |-> "setdef", o |-> o, d |-> d, e |-> Rename(e, names), as |-> as]
FlagCall(c, o) == [op |-> "setflag", o |-> o, f |-> PS(c \o <<1>>, <<"sig0", "dB", "int_Q">>), b |-> Chance(c \o <<2>>, 50)]
I0Call(c, o, b) == [op |-> "setI0", o |-> o,
    a |-> NpArr(ArrOf(c, IF Chance(c \o <<1>>, 60) THEN <<>> ELSE SubShape(c \o <<2>>, b), 200, 4000))]
Subset4(k) == {Angles4[i] : i \in {j \in 1 .. 4 : (k \div (2 ^ (j - 1))) % 2 = 1}}
ModeFix(c, mode) == IF mode = "mono" THEN (IF Chance(c, 50) THEN {"p_0"} ELSE {}) ELSE Subset4(P(c, 16))
AngleCall(o, a) == [op |-> "angle", o |-> o, a |-> a]
ReadDef(o, d) == [op |-> "def", o |-> o, d |-> d]
JacCall(c, o, keys, fmt) == [op |-> "jac", o |-> o, keys |-> keys, fmt |-> fmt]
Subseq(c, s) == Keep([i \in 1 .. Len(s) |-> [n |-> s[i], u |-> RHash(c \o <<i>>, 2)]], LAMBDA e : e.u = 1)
SubNames(c, S) == LET q == Subseq(c, NameSeq(S)) IN {q[i].n : i \in 1 .. Len(q)}
JacKeys(o) == DefNames \cup (DOMAIN o.pd \ {"tau", "omega", "NormBRDF", "bsf"})
Mode(c) == IF Chance(c, 50) THEN "mono" ELSE "bi"

(* --------------------------- weighted choices -------------------------- *)
(* ws: sequence of <<name, weight>> *)
RECURSIVE SumW(_, _)
SumW(ws, n) == IF n = 0 THEN 0 ELSE SumW(ws, n - 1) + ws[n][2]
Weighted(c, ws) ==
   LET r == RHash(c, SumW(ws, Len(ws)))
       i == CHOOSE k \in 1 .. Len(ws) : SumW(ws, k - 1) <= r /\ r < SumW(ws, k)
   IN ws[i][1]

(* --------------------------- calls in a state -------------------------- *)
(* every evaluation first gets what it needs (with high probability), so
   that most evaluations succeed and the others fail for one reason *)
Ready(o) == Unset(o) = {}
EvalOrPrepare(c, i, st, b, op, strict) ==
   LET o == st.objs[i]  lax == ~ Chance(c \o <<11>>, strict) IN
   IF ~ Ready(o) /\ ~ lax THEN GeomCall(c, i, b, Dynamic(o))
   ELSE IF op = "jac"
        THEN IF Missing(o) # {} /\ ~ lax THEN UpdCall(c, i, b, Missing(o))
             ELSE LET ks == SubNames(c \o <<12>>, JacKeys(o)) IN
                  JacCall(c, i, Shuffle(c \o <<13>>, IF ks = {} THEN {"omega"} ELSE ks), "list")
        ELSE IF op = "def"
             THEN IF Missing(o) # {} /\ ~ lax THEN UpdCall(c, i, b, Missing(o)) ELSE ReadDef(i, PS(c \o <<14>>, <<"tau", "omega", "NormBRDF", "bsf">>))
             ELSE IF op = "interaction" /\ ~ o.intQ THEN EvalCall("calc", i, IF lax THEN <<>> ELSE ParamKw(c, b, Missing(o)))
                  ELSE EvalCall(op, i, IF lax THEN ParamKw(c, b, SubNames(c \o <<15>>, Missing(o))) ELSE ParamKw(c, b, Missing(o)))

BadArg(c) == PS(c, <<[k |-> "bad", t |-> "str"], [k |-> "bad", t |-> "arr"], [k |-> "bad", t |-> "list"],
                     [k |-> "bad", t |-> "sym"], [k |-> "bad", t |-> "dict"], [k |-> "bad", t |-> "cplx"]>>)
NoneArg == [k |-> "none"]
(* a geometry call that has to be rejected, with legal arguments besides *)
BadGeom(c, i, st, b) ==
   LET o == st.objs[i]
       legal == GeomCall(c \o <<1>>, i, b, SubNames(c \o <<2>>, Dynamic(o))).kw
       has == {legal[k].n : k \in 1 .. Len(legal)}
       val(a) == ArrArg(AngArr(c \o <<3>>, a, SubShape(c \o <<4>>, b)))
       extra == LET t == P(c \o <<5>>, 4) IN
          IF t = 0 /\ o.fix # {} THEN LET a == PS(c \o <<6>>, NameSeq(o.fix)) IN KV(a, val(a))
          ELSE IF t = 1 /\ o.mode = "mono" THEN LET a == PS(c \o <<6>>, <<"t_ex", "p_ex">>) IN KV(a, val(a))
          ELSE IF t = 2 /\ (Dynamic(o) \ has) # {} THEN LET a == PS(c \o <<6>>, NameSeq(Dynamic(o) \ has)) IN KV(a, NoneArg)
          ELSE KV(PS(c \o <<6>>, <<"theta_0", "foo", "tau", "t0", "phi_ex">>), ArrArg(ArrOf(c, <<>>, 100, 900)))
       at == RHash(c \o <<7>>, Len(legal) + 1)                  \* position of the illegal argument
   IN [op |-> "setgeom", o |-> i, kw |-> SubSeq(legal, 1, at) \o <<extra>> \o SubSeq(legal, at + 1, Len(legal))]
BadMode(c, i, st, b) ==
   LET mode == Mode(c \o <<1>>)
       good == ModeCall(c \o <<2>>, i, mode, ModeFix(c \o <<3>>, mode))
       names == IF mode = "mono" THEN <<"p_0">> ELSE Angles4
       a == PS(c \o <<4>>, names)
       bad == IF Chance(c \o <<5>>, 25) THEN KV(PS(c \o <<6>>, <<"t_1", "tau", "phi">>), NumArg(Num(c, 100, 900)))
              ELSE KV(a, BadArg(c \o <<7>>))
   IN [good EXCEPT !.kw = SelectSeq(good.kw, LAMBDA e : e.n # bad.n) \o <<bad>>]

(* scattering functions: new ones, or one that another model uses *)
NewV(c, st, pos, sym, nc, lin) ==
   IF Chance(c \o <<51>>, 25) THEN st.objs[PS(c \o <<52>>, NameSeq(DOMAIN st.objs))].V
   ELSE IF Chance(c \o <<54>>, 35) THEN Twin(st.objs[PS(c \o <<52>>, NameSeq(DOMAIN st.objs))].V, c \o <<55>>, 100 + pos, sym)
   ELSE VolF(c \o <<53>>, 100 + pos, sym, nc, lin)
NewS(c, st, pos, sym, nc, lin) ==
   IF Chance(c \o <<51>>, 25) THEN st.objs[PS(c \o <<52>>, NameSeq(DOMAIN st.objs))].S
   ELSE IF Chance(c \o <<54>>, 35) THEN Twin(st.objs[PS(c \o <<52>>, NameSeq(DOMAIN st.objs))].S, c \o <<55>>, 200 + pos, sym)
   ELSE SurfF(c \o <<53>>, 200 + pos, sym, nc, lin)

(* one call of the given kind on model i *)
CallOf(kind, c, i, pos, st, b, strict) ==
   LET o == st.objs[i] IN
   CASE kind = "mode"  -> IF Chance(c \o <<3>>, 30) THEN ModeCall(c \o <<1>>, i, o.mode, o.fix)   \* other values
                          ELSE LET m == Mode(c) IN ModeCall(c \o <<1>>, i, m, ModeFix(c \o <<2>>, m))
     [] kind = "geom"  -> LET n == SubNames(c \o <<1>>, Dynamic(o)) IN
                          IF Dynamic(o) = {} THEN Skip ELSE GeomCall(c, i, b, IF n = {} THEN Dynamic(o) ELSE n)
     [] kind = "upd"   -> LET n == SubNames(c \o <<1>>, Needed(o)) IN
                          IF Chance(c \o <<2>>, 15) THEN UpdCall(c, i, b, n \cup {"extra"})
                          ELSE IF n = {} THEN Skip ELSE UpdCall(c, i, b, n)
     [] kind = "def"   -> DefCall(c, i, PS(c \o <<7>>, <<"tau", "omega", "NormBRDF", "bsf">>), b)
     [] kind = "flag"  -> FlagCall(c, i)
     [] kind = "I0"    -> I0Call(c, i, b)
     [] kind = "V"     -> [op |-> "setV", o |-> i, V |-> NewV(c, st, pos, 40, 2, 20)]
     [] kind = "S"     -> [op |-> "setS", o |-> i, S |-> NewS(c, st, pos, 40, 2, 20)]
     [] kind = "backend" -> [op |-> "backend", b |-> PS(c, <<"sympy", "symengine", "sympy", "symengine", "numpy", "SymPy", "llvm">>)]
     [] kind = "getbackend" -> [op |-> "getbackend"]
     [] kind = "mutate" -> [op |-> "mutate", o |-> i]
     [] kind = "badgeom" -> BadGeom(c, i, st, b)
     [] kind = "badmode" -> BadMode(c, i, st, b)
     [] kind = "angle" -> AngleCall(i, PS(c, Angles4))
     [] kind = "params" -> [op |-> "params", o |-> i]
     [] kind = "flags"  -> [op |-> "flags", o |-> i]
     [] kind = "readdef" -> EvalOrPrepare(c, i, st, b, "def", strict)
     [] OTHER -> EvalOrPrepare(c, i, st, b, kind, strict)

(* ------------------------------- families ------------------------------ *)
Obj0(cc, i, V, S, q) == NewCall(cc.c \o <<600 + i>>, i, V, S, q)
K(cc, i) == cc.c \o <<500, i>>

(* eval: configure one model completely, evaluate it, change its settings,
   and evaluate it again.  ir: percentage with interaction, nc: ncoefs *)
EvalStep(cc, pos, st, ir, nc, lin) ==
   LET c == Key(cc, pos)  b == cc.b
       o == st.objs[1]
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, 40, nc, lin), SurfF(K(cc, 2), 2, 40, nc, lin), Chance(c \o <<9>>, ir))
        [] pos = 2 -> LET m == Mode(c) IN ModeCall(c, 1, m, ModeFix(c \o <<1>>, m))
        [] pos = 3 -> GeomCall(c, 1, b, Dynamic(o))
        [] pos = 4 -> IF Chance(c \o <<8>>, 60) THEN DefCall(c, 1, "tau", b) ELSE Skip
        [] pos = 5 -> IF Chance(c \o <<8>>, 60) THEN DefCall(c, 1, "omega", b) ELSE Skip
        [] pos = 6 -> IF Chance(c \o <<8>>, 60) THEN DefCall(c, 1, "NormBRDF", b) ELSE Skip
        [] pos = 7 -> IF Chance(c \o <<8>>, 60) THEN DefCall(c, 1, "bsf", b) ELSE Skip
        [] pos = 8 -> UpdCall(c, 1, b, SubNames(c \o <<3>>, Needed(o)))
        [] pos = 9 -> EvalCall("calc", 1, ParamKw(c, b, Missing(o)))
        [] pos = 10 -> EvalCall("surface", 1, <<>>)
        [] pos = 11 -> EvalCall("volume", 1, <<>>)
        [] pos = 12 -> IF o.intQ THEN EvalCall("interaction", 1, <<>>) ELSE Skip
        [] pos = 13 -> FlagCall(c, 1)
        [] pos = 14 -> IF Chance(c, 50) THEN I0Call(c, 1, b) ELSE FlagCall(c, 1)
        [] pos = 15 -> EvalCall(PS(c, <<"calc", "surface", "volume">>), 1, <<>>)
        [] OTHER -> End

(* many expansion coefficients: monostatic models with a fixed azimuth *)
ManyStep(cc, pos, st) ==
   LET c == Key(cc, pos)
       sym(f, d) == IF IsLin(f) THEN f ELSE [f EXCEPT !.t = AsymT(d, 60)]
   IN CASE pos = 1 -> NewCall(c, 1, sym(VolF(K(cc, 1), 1, 2, 8, 0), c \o <<11>>), sym(SurfF(K(cc, 2), 2, 2, 8, 0), c \o <<12>>), TRUE)
        [] pos = 2 -> ModeCall(c, 1, "mono", {"p_0"})
        [] OTHER   -> EvalStep(cc, pos, st, 0, 0, 0)

(* units: one configuration, evaluated by all methods in several units *)
FlagTo(i, f, v) == [op |-> "setflag", o |-> i, f |-> f, b |-> v]
UnitsStep(cc, pos, st) ==
   LET c == Key(cc, pos)  b == cc.b  o == st.objs[1]  r == (pos - 9) % 7  u == (pos - 9) \div 7
       q == (cc.k + 3 * u) % 8
   IN IF pos < 9
      THEN IF pos = 1 THEN NewCall(c, 1, VolF(K(cc, 1), 1, 30, 2, 25), SurfF(K(cc, 2), 2, 30, 2, 25), cc.k % 3 # 0)
           ELSE EvalStep(cc, pos, st, 0, 0, 0)
      ELSE IF u > 2 THEN End
      ELSE CASE r = 0 -> FlagTo(1, "sig0", q % 2 = 1)
             [] r = 1 -> FlagTo(1, "dB", (q \div 2) % 2 = 1)
             [] r = 2 -> IF u = 2 THEN FlagTo(1, "int_Q", ~ o.intQ) ELSE I0Call(c, 1, b)
             [] r = 3 -> EvalCall("calc", 1, ParamKw(c, b, Missing(o)))
             [] r = 4 -> EvalCall("surface", 1, <<>>)
             [] r = 5 -> EvalCall("volume", 1, <<>>)
             [] r = 6 -> IF o.intQ THEN EvalCall("interaction", 1, <<>>) ELSE Skip

(* histories of one or several models: random calls, each sometimes
   followed by an evaluation; the last calls evaluate every model *)
LOCAL HistEvals == <<<<"calc", 60>>, <<"surface", 6>>, <<"volume", 6>>, <<"interaction", 8>>, <<"jac", 14>>, <<"readdef", 3>>, <<"params", 2>>>>
HistW(fam) ==
   CASE fam = "hist"   -> <<<<"mode", 10>>, <<"geom", 12>>, <<"upd", 12>>, <<"def", 16>>, <<"flag", 6>>, <<"I0", 5>>,
                            <<"V", 6>>, <<"S", 6>>, <<"backend", 4>>, <<"mutate", 4>>, <<"badgeom", 4>>, <<"badmode", 4>>, <<"angle", 2>>>>
     [] fam = "switch" -> <<<<"mode", 12>>, <<"geom", 16>>, <<"upd", 16>>, <<"def", 24>>, <<"flag", 8>>, <<"V", 8>>, <<"S", 8>>, <<"I0", 4>>>>
     [] fam = "backend" -> <<<<"mode", 8>>, <<"geom", 14>>, <<"upd", 12>>, <<"def", 16>>, <<"V", 6>>, <<"S", 6>>, <<"backend", 24>>, <<"getbackend", 12>>>>
     [] fam = "pair"   -> <<<<"mode", 12>>, <<"geom", 18>>, <<"upd", 14>>, <<"def", 16>>, <<"flag", 6>>, <<"I0", 4>>, <<"V", 5>>, <<"S", 5>>,
                            <<"backend", 3>>, <<"mutate", 3>>, <<"angle", 4>>>>
     [] fam = "copy"   -> <<<<"mode", 10>>, <<"geom", 12>>, <<"upd", 12>>, <<"def", 28>>, <<"flag", 6>>, <<"I0", 4>>, <<"V", 5>>, <<"S", 5>>,
                            <<"backend", 4>>, <<"mutate", 3>>, <<"badgeom", 5>>, <<"badmode", 3>>, <<"angle", 6>>, <<"flags", 3>>>>
     [] fam = "geo"    -> <<<<"mode", 18>>, <<"geom", 14>>, <<"badgeom", 30>>, <<"badmode", 18>>, <<"angle", 10>>>>
     [] fam = "params" -> <<<<"def", 40>>, <<"upd", 22>>, <<"readdef", 20>>, <<"params", 8>>, <<"V", 4>>, <<"S", 4>>, <<"backend", 2>>>>
     [] OTHER -> <<<<"geom", 1>>>>
LOCAL EvalsW(fam) ==
   CASE fam = "params" -> <<<<"calc", 60>>, <<"surface", 8>>, <<"volume", 8>>, <<"readdef", 16>>, <<"params", 8>>>>
     [] fam = "geo" -> <<<<"angle", 30>>, <<"surface", 30>>, <<"volume", 15>>, <<"calc", 15>>>>
     [] OTHER -> HistEvals
(* the range of a/t expressions etc. of the functions of a family: percentage of models with interaction *)
LOCAL HistQ(fam, c) == Chance(c, CASE fam = "params" -> 15 [] fam = "geo" -> 25 [] OTHER -> 60)
LOCAL NObj(fam, cc) == CASE fam = "pair" -> 2 + P(cc.c \o <<90>>, 2) [] fam = "copy" -> 1 [] OTHER -> 1
LOCAL Evaluated(hist) == \E k \in 1 .. Len(hist) : hist[k].op \in {"calc", "surface", "volume", "interaction", "jac", "def"}
LOCAL Strict(fam) == IF fam \in {"params", "geo"} THEN 60 ELSE 92
HistStep(fam, cc, pos, st, hist) ==
   LET c == Key(cc, pos)  b == cc.b
       n == NObj(fam, cc)
       len == 11 + P(cc.c \o <<91>>, 6)
       i == PS(c \o <<92>>, NameSeq(DOMAIN st.objs))
       shared == pos > 1 /\ Chance(c \o <<93>>, 65)
   IN IF pos <= n
      THEN NewCall(c, pos,
              IF shared THEN st.objs[1].V
              ELSE IF pos > 1 /\ Chance(c \o <<103>>, 40) THEN Twin(st.objs[1].V, c \o <<104>>, 2 * pos, 40)
              ELSE VolF(K(cc, 2 * pos), 2 * pos, 40, 2, 20),
              IF shared \/ (pos > 1 /\ Chance(c \o <<94>>, 40)) THEN st.objs[1].S
              ELSE IF pos > 1 /\ Chance(c \o <<105>>, 40) THEN Twin(st.objs[1].S, c \o <<106>>, 2 * pos + 1, 40)
              ELSE SurfF(K(cc, 2 * pos + 1), 2 * pos + 1, 40, 2, 20),
              HistQ(fam, c \o <<95>>))
      ELSE IF pos <= 2 * n
      THEN LET m == Mode(c) IN IF Chance(c \o <<96>>, 70) THEN ModeCall(c, pos - n, m, ModeFix(c \o <<1>>, m)) ELSE Skip
      ELSE IF pos <= len
      THEN IF fam = "copy" /\ Cardinality(DOMAIN st.objs) < 3 /\ pos > 4 /\ (Chance(c \o <<97>>, 20) \/ pos = len - 5)
           THEN [op |-> "copy", o |-> i, o2 |-> 1 + Cardinality(DOMAIN st.objs),
                 how |-> IF ~ Evaluated(hist) /\ Chance(c \o <<98>>, 40) THEN "pickle"
                         ELSE PS(c \o <<99>>, <<"cloudpickle", "cloudpickle", "deepcopy", "process">>),
                 eval |-> Chance(c \o <<107>>, 50)]
           ELSE IF Chance(c \o <<100>>, 42)
                THEN CallOf(Weighted(c \o <<101>>, EvalsW(fam)), c \o <<1>>, i, pos, st, b, Strict(fam))
                ELSE CallOf(Weighted(c \o <<102>>, HistW(fam)), c \o <<2>>, i, pos, st, b, Strict(fam))
      ELSE (* finally get every model ready and evaluate it *)
           LET e == pos - len - 1
               k == (e \div 3) + 1
               s == NameSeq(DOMAIN st.objs)
               o == st.objs[s[k]]
           IN IF k > Len(s) THEN End
              ELSE IF e % 3 = 0 THEN IF Ready(o) THEN Skip ELSE GeomCall(c, s[k], b, Dynamic(o))
              ELSE IF e % 3 = 1 THEN EvalCall("calc", s[k], ParamKw(c, b, Missing(o)))
              ELSE IF fam \in {"params", "geo"} \/ Chance(c, 50) THEN Skip
              ELSE CallOf("jac", c, s[k], pos, st, b, 100)

(* fixdyn: the same geometry described in several ways: dynamic, with each
   subset of the angles fixed, and (for exit = incident + pi) monostatic *)
FixStep(cc, pos, st) ==
   LET c == Key(cc, pos)  b == cc.b  k == cc.k
       o == st.objs[1]
       ang(a) == AngNum(cc.c \o <<95, CHOOSE i \in 1 .. 4 : Angles4[i] = a>>, a)
       dyn(a) == AngArr(cc.c \o <<96, CHOOSE i \in 1 .. 4 : Angles4[i] = a>>, a, SubShape(cc.c \o <<97, CHOOSE i \in 1 .. 4 : Angles4[i] = a>>, b))
       F == Subset4(k % 16)
       mono == (k \div 16) % 3 = 2
       num(n) == [k |-> "num", v |-> ang(n), ty |-> PS(c \o <<5>>, <<"py", "np">>)]
       scal(r) == [sh |-> <<>>, v |-> <<r>>, ty |-> "py"]
       bi == mono \/ (k \div 16) % 3 # 1
       FF == IF mono THEN F \cap {"p_0"} ELSE F
       mname == IF mono THEN "setmono" ELSE "setbi"
       dynnames == (IF mono THEN {"t_0", "p_0"} ELSE AngleNames)
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, 30, 3, 20), SurfF(K(cc, 2), 2, 30, 3, 20), TRUE)
        [] pos = 2 -> [op |-> mname, o |-> 1, kw |-> Keep([i \in 1 .. 4 |-> KV(Angles4[i], num(Angles4[i]))], LAMBDA e : e.n \in FF)]
        [] pos = 3 -> [op |-> "setgeom", o |-> 1, kw |-> Keep([i \in 1 .. 4 |-> KV(Angles4[i], ArrArg(dyn(Angles4[i])))],
                                                             LAMBDA e : e.n \in dynnames \ FF)]
        [] pos = 4 -> EvalCall("calc", 1, ParamKw(c, b, Missing(o)))
        [] pos = 5 -> EvalCall("interaction", 1, <<>>)
        (* the same values in another description *)
        [] pos = 6 -> IF mono
                      THEN [op |-> "setbi", o |-> 1, kw |-> <<>>]
                      ELSE [op |-> "setbi", o |-> 1, kw |-> IF Chance(c, 50) THEN <<>> ELSE
                              Keep([i \in 1 .. 4 |-> KV(Angles4[i], num(Angles4[i]))], LAMBDA e : e.n \in FF /\ RHash(c \o <<1>>, 2) = 0)]
        [] pos = 7 -> [op |-> "setgeom", o |-> 1, kw |->
                         IF mono THEN <<KV("t_0", ArrArg(dyn("t_0"))), KV("t_ex", ArrArg(dyn("t_0"))),
                                        KV("p_0", ArrArg(IF FF = {} THEN dyn("p_0") ELSE scal(ang("p_0")))),
                                        KV("p_ex", ArrArg(LET x == IF FF = {} THEN dyn("p_0") ELSE scal(ang("p_0")) IN
                                             [x EXCEPT !.v = Eager([i \in 1 .. Len(x.v) |-> RAdd(x.v[i], RPi)])]))>>
                         ELSE Keep([i \in 1 .. 4 |-> KV(Angles4[i], ArrArg(IF Angles4[i] \in FF THEN scal(ang(Angles4[i])) ELSE dyn(Angles4[i])))],
                                   LAMBDA e : e.n \in AngleNames \ o.fix)]
        [] pos = 8 -> EvalCall("calc", 1, <<>>)
        [] pos \in 9 .. 12 -> AngleCall(1, Angles4[pos - 8])
        [] pos = 13 -> [op |-> "setmono", o |-> 1, kw |-> IF Chance(c, 50) THEN <<>> ELSE <<KV("p_0", num("p_0"))>>]
        [] pos \in 14 .. 17 -> AngleCall(1, Angles4[pos - 13])
        [] pos = 18 -> EvalCall("calc", 1, <<>>)
        (* the first set of fixed angles again, then the same with other values *)
        [] pos \in {19, 22} -> ModeCall(c, 1, IF mono THEN "mono" ELSE "bi", FF)
        [] pos \in {20, 23} -> IF dynnames = FF \/ (pos = 23 /\ Chance(c, 50)) THEN Skip
                              ELSE GeomCall(c, 1, b, dynnames \ FF)
        [] pos = 21 -> EvalCall("interaction", 1, <<>>)
        [] pos = 24 -> EvalCall(PS(c, <<"calc", "interaction">>), 1, <<>>)
        [] OTHER -> End

(* reuse: precomputed fn-coefficients of another model *)
ReuseStep(cc, pos, st) ==
   LET c == Key(cc, pos)  b == cc.b  k == cc.k
       m == IF k % 2 = 0 THEN "mono" ELSE "bi"
       F == IF m = "mono" THEN (IF (k \div 2) % 2 = 0 THEN {} ELSE {"p_0"}) ELSE Subset4((k \div 2) % 16)
       mode(i) == [ModeCall(cc.c \o <<450>>, i, m, F) EXCEPT !.o = i]
       o(i) == st.objs[i]
       what == IF Chance(cc.c \o <<451>>, 50) THEN "fn" ELSE "fnevals"
       sym == IF Chance(cc.c \o <<452>>, 70) THEN 70 ELSE 20
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, sym, 2, 20), SurfF(K(cc, 2), 2, sym, 2, 20), TRUE)
        [] pos = 2 -> mode(1)
        [] pos = 3 -> IF Chance(c, 70) THEN GeomCall(c, 1, b, Dynamic(o(1))) ELSE Skip
        [] pos = 4 -> IF Chance(c, 50) THEN CallOf("def", c, 1, pos, st, b, 100) ELSE Skip
        [] pos = 5 -> UpdCall(c, 1, b, SubNames(c \o <<1>>, Needed(o(1))) \cup {"aa_extra"})
        [] pos = 6 -> IF Ready(o(1)) /\ Chance(c, 70) THEN EvalCall("calc", 1, ParamKw(c, b, Missing(o(1)))) ELSE Skip
        [] pos = 7 -> ReuseCall(c, 2, st, 1, what)
        [] pos = 8 -> mode(2)
        [] pos = 9 -> GeomCall(c, 2, b, Dynamic(o(2)))
        [] pos = 10 -> IF Chance(c, 60) THEN CallOf("def", c, 2, pos, st, b, 100) ELSE Skip
        [] pos = 11 -> IF Chance(c, 50) THEN UpdCall(c, 2, b, SubNames(c \o <<1>>, Needed(o(2))) \cup SubNames(c \o <<2>>, {"aa_extra", "zz_extra"})) ELSE Skip
        [] pos = 12 -> EvalCall("calc", 2, ParamKw(c, b, Missing(o(2)) \cup SubNames(c \o <<2>>, {"aa_extra", "zz_extra", "m_extra"})))
        [] pos = 13 -> IF Dynamic(o(2)) = {} THEN Skip ELSE GeomCall(c, 2, b, SubNames(c \o <<1>>, Dynamic(o(2))))
        [] pos = 14 -> UpdCall(c, 2, b, SubNames(c \o <<1>>, Needed(o(2))) \cup {"b_extra"})
        [] pos = 15 -> EvalCall("interaction", 2, <<>>)
        [] pos = 16 -> EvalCall("calc", 2, <<>>)
        [] pos = 17 -> IF Ready(o(1)) /\ Missing(o(1)) = {} THEN EvalCall("calc", 1, <<>>) ELSE Skip
        [] OTHER -> End

(* jac: derivatives *)
JacStep(cc, pos, st, sparse) ==
   LET c == Key(cc, pos)  b == cc.b  o == st.objs[1]
       keys(d) == LET ks == SubNames(d \o <<12>>, JacKeys(o)) IN Shuffle(d \o <<13>>, IF ks = {} THEN {"tau"} ELSE ks)
       fmt == IF sparse THEN "scipy_least_squares" ELSE "list"
       dynp == IF sparse THEN [b EXCEPT ![2] = 1] ELSE b
       shp(d) == IF sparse THEN PS(d, <<<<>>, <<1>>, <<1, 1>>, <<b[1], 1>>, <<b[1], 1>>, <<b[1], 1>>>>) ELSE SubShape(d, b)
       kw(d, names) == LET s == Shuffle(d \o <<77>>, names) IN
                       Eager([i \in 1 .. Len(s) |-> KV(s[i], ValFor(d \o <<i>>, s[i], shp(d \o <<i, 7>>)))])
       defcall(d) == LET e == DefCall(c, 1, d, b) IN
                     IF e.e.k = "arr" /\ sparse THEN [e EXCEPT !.e = [k |-> "arr", a |-> NpArr(ArrOf(c \o <<3>>, shp(c \o <<4>>), 50, 950))]] ELSE e
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, 60, 2, 25), SurfF(K(cc, 2), 2, 60, 2, 25), Chance(c \o <<9>>, 20))
        [] pos = 2 -> LET m == IF sparse /\ Chance(c \o <<2>>, 60) THEN "mono" ELSE Mode(c) IN ModeCall(c, 1, m, ModeFix(c \o <<1>>, m))
        [] pos = 3 -> IF sparse   \* a full (timestamps x angles) grid
                      THEN [op |-> "setgeom", o |-> 1, kw |-> Keep([i \in 1 .. 4 |-> KV(Angles4[i],
                              ArrArg(AngArr(c \o <<i>>, Angles4[i], IF i = 1 \/ Chance(c \o <<i, 4>>, 40) THEN b ELSE SubShape(c \o <<i, 7>>, b))))],
                              LAMBDA e : e.n \in Dynamic(o))]
                      ELSE GeomCall(c, 1, b, Dynamic(o))
        [] pos = 4 -> IF Chance(c \o <<8>>, 70) THEN defcall("tau") ELSE Skip
        [] pos = 5 -> IF Chance(c \o <<8>>, 70) THEN defcall("omega") ELSE Skip
        [] pos = 6 -> IF Chance(c \o <<8>>, 70) THEN defcall("NormBRDF") ELSE Skip
        [] pos = 7 -> IF Chance(c \o <<8>>, 60) THEN defcall("bsf") ELSE Skip
        [] pos = 8 -> [op |-> "upd", o |-> 1, kw |-> kw(c, Missing(o) \cup SubNames(c \o <<3>>, {"bsf", "extra"}))]
        [] pos = 9 -> JacCall(c, 1, keys(c), fmt)
        [] pos = 10 -> IF Chance(c, 50) THEN EvalCall("calc", 1, <<>>) ELSE Skip
        [] pos = 11 -> FlagCall(c, 1)
        [] pos = 12 -> IF sparse THEN FlagCall(c, 1) ELSE I0Call(c, 1, b)
        [] pos = 13 -> IF sparse /\ Chance(c \o <<1>>, 25)
                       THEN JacCall(c, 1, keys(c), PS(c \o <<2>>, <<"sparse", "List", "array", "csr">>))
                       ELSE JacCall(c, 1, keys(c), fmt)
        [] pos = 14 -> [op |-> "upd", o |-> 1, kw |-> kw(c, SubNames(c \o <<1>>, Needed(o)))]
        [] pos = 15 -> IF Chance(c, 50) THEN defcall(PS(c \o <<1>>, <<"tau", "omega", "NormBRDF", "bsf">>)) ELSE Skip
        [] pos = 16 -> IF Missing(o) = {} THEN Skip ELSE [op |-> "upd", o |-> 1, kw |-> kw(c, Missing(o))]
        [] pos = 17 -> JacCall(c, 1, keys(c), IF sparse /\ Chance(c, 30) THEN "list" ELSE fmt)
        [] pos = 18 -> IF ~ sparse /\ Chance(c, 30) THEN JacCall(c, 1, keys(c) \o <<"nosuchparam">>, fmt) ELSE Skip
        [] pos = 19 -> [op |-> "params", o |-> 1]
        [] OTHER -> End

(* shapes: arrays of any mutually broadcastable shapes with up to 3 dimensions *)
Bases3 == <<<<2, 3>>, <<3>>, <<2, 1, 3>>, <<2, 3, 2>>, <<1, 1, 1>>, <<4>>, <<2, 2, 2>>, <<1, 2>>, <<3, 1>>, <<1>>>>
SubN(c, b) == LET n == RHash(c, Len(b) + 1) IN
   Eager([i \in 1 .. n |-> IF Chance(c \o <<i>>, 45) THEN 1 ELSE b[Len(b) - n + i]])
IntVal(n) == [sh |-> <<>>, v |-> <<RI(n)>>, ty |-> "int"]
ShapeStep(cc, pos, st) ==
   LET c == Key(cc, pos)  o == st.objs[1]
       b == PS(cc.c \o <<430>>, Bases3)
       ang(d, names) == [op |-> "setgeom", o |-> 1, kw |-> Keep([i \in 1 .. 4 |-> KV(Angles4[i],
                          ArrArg(IF Chance(d \o <<i, 3>>, 8) THEN IntVal(1) ELSE AngArr(d \o <<i>>, Angles4[i], SubN(d \o <<i, 7>>, b))))],
                          LAMBDA e : e.n \in names)]
       kw(d, names) == LET s == Shuffle(d \o <<77>>, names) IN
                       Eager([i \in 1 .. Len(s) |-> KV(s[i],
                          IF s[i] \in {"tau", "omega", "NormBRDF", "N"} /\ Chance(d \o <<i, 3>>, 10) THEN IntVal(1)
                          ELSE ValFor(d \o <<i>>, s[i], SubN(d \o <<i, 7>>, b)))])
       defcall(d) == LET e == DefCall(c, 1, d, <<1, 1>>) IN
                     IF e.e.k = "arr" THEN [e EXCEPT !.e = [k |-> "arr", a |-> NpArr(ArrOf(c \o <<3>>, SubN(c \o <<4>>, b), 50, 950))]] ELSE e
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, 40, 2, 20), SurfF(K(cc, 2), 2, 40, 2, 20), Chance(c \o <<9>>, 40))
        [] pos = 2 -> LET m == Mode(c) IN ModeCall(c, 1, m, ModeFix(c \o <<1>>, m))
        [] pos = 3 -> ang(c, Dynamic(o))
        [] pos = 4 -> IF Chance(c, 70) THEN defcall(PS(c \o <<1>>, <<"tau", "omega">>)) ELSE Skip
        [] pos = 5 -> IF Chance(c, 50) THEN defcall(PS(c \o <<1>>, <<"NormBRDF", "bsf">>)) ELSE Skip
        [] pos = 6 -> [op |-> "upd", o |-> 1, kw |-> kw(c, SubNames(c \o <<3>>, Needed(o)))]
        [] pos = 7 -> EvalCall("calc", 1, kw(c, Missing(o)))
        [] pos = 8 -> EvalCall(PS(c, <<"surface", "volume">>), 1, <<>>)
        [] pos = 9 -> IF Dynamic(o) = {} THEN Skip ELSE ang(c, SubNames(c \o <<1>>, Dynamic(o)))
        [] pos = 10 -> IF Chance(c, 40) THEN [op |-> "setI0", o |-> 1, a |-> NpArr(ArrOf(c, SubN(c \o <<2>>, b), 200, 4000))] ELSE Skip
        [] pos = 11 -> EvalCall("calc", 1, kw(c, SubNames(c \o <<3>>, Needed(o))))
        [] pos = 12 -> [op |-> "scalc", f |-> PS(c, <<o.V, o.S>>), t0 |-> ArrOf(c \o <<1>>, SubN(c \o <<11>>, b), 0, 1500), te |-> ArrOf(c \o <<2>>, SubN(c \o <<12>>, b), 0, 1500),
                        p0 |-> ArrOf(c \o <<3>>, SubN(c \o <<13>>, b), -3000, 3000), pe |-> ArrOf(c \o <<4>>, SubN(c \o <<14>>, b), -3000, 6000),
                        kw |-> kw(c \o <<5>>, FVars(o.V) \cup FVars(o.S))]
        [] pos \in 13 .. 16 -> AngleCall(1, Angles4[pos - 12])
        [] OTHER -> End

(* limits: zeros and ones mixed with ordinary values *)
LimArr(c, sh, one) ==
   LET x == ArrOf(c, sh, 50, 950) IN
   [x EXCEPT !.v = Eager([i \in 1 .. Len(x.v) |->
        LET r == RHash(c \o <<i, 9>>, 10) IN IF r < 4 THEN R0 ELSE IF r < 6 /\ one THEN R1 ELSE x.v[i]])]
LimAng(c, a, sh) ==
   LET x == ArrOf(c, sh, AngLo(a), AngHi(a)) IN
   IF a \in {"p_0", "p_ex"} THEN x
   ELSE [x EXCEPT !.v = Eager([i \in 1 .. Len(x.v) |->
        LET r == RHash(c \o <<i, 9>>, 10) IN
        IF r < 3 THEN R0 ELSE IF r = 3 THEN RFrac(1570, 1000) ELSE IF r = 4 THEN RPowI(RTen, -5) ELSE x.v[i]])]
LimitStep(cc, pos, st) ==
   LET c == Key(cc, pos)  b == cc.b  o == st.objs[1]
       zeros(d, x) == [x EXCEPT !.v = Eager([i \in 1 .. Len(x.v) |-> IF Chance(d \o <<i, 8>>, 25) THEN R0 ELSE x.v[i]])]
       val(d, n) == IF n \in {"t1", "t2"} THEN zeros(d, ValFor(d, n, SubShape(d \o <<7>>, b))) ELSE LimArr(d, SubShape(d \o <<7>>, b), TRUE)
       kw(d, names) == LET s == Shuffle(d \o <<77>>, names) IN Eager([i \in 1 .. Len(s) |-> KV(s[i], val(d \o <<i>>, s[i]))])
       tmpl(d) == LET e == ESym(PS(d \o <<1>>, <<"x", "y">>)) IN
                  PS(d, <<e, EB("mul", e, ESym("y")), EB("sub", EM(1000), e), EPow(e, 2)>>)
       defcall(d, n) == [op |-> "setdef", o |-> 1, d |-> n,
                         e |-> LET t == P(d \o <<2>>, 4) IN
                               IF t = 0 THEN ENum(RI(P(d \o <<3>>, 2)))
                               ELSE IF t = 1 THEN [k |-> "arr", a |-> NpArr(LimArr(d \o <<3>>, SubShape(d \o <<4>>, b), TRUE))]
                               ELSE IF t = 2 THEN ESym(n) ELSE tmpl(d \o <<5>>),
                         as |-> PS(d \o <<6>>, <<"num", "int", "str", "sympy", "real">>)]
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, 30, 3, 20), SurfF(K(cc, 2), 2, 30, 3, 20), Chance(c \o <<9>>, 70))
        [] pos = 2 -> LET m == Mode(c) IN ModeCall(c, 1, m, IF Chance(c, 50) THEN {} ELSE ModeFix(c \o <<1>>, m))
        [] pos = 3 -> [op |-> "setgeom", o |-> 1, kw |-> Keep([i \in 1 .. 4 |-> KV(Angles4[i],
                          ArrArg(LimAng(c \o <<i>>, Angles4[i], SubShape(c \o <<i, 7>>, b))))], LAMBDA e : e.n \in Dynamic(o))]
        [] pos = 4 -> IF Chance(c \o <<8>>, 50) THEN defcall(c, "tau") ELSE Skip
        [] pos = 5 -> IF Chance(c \o <<8>>, 40) THEN defcall(c, "omega") ELSE Skip
        [] pos = 6 -> IF Chance(c \o <<8>>, 40) THEN defcall(c, "NormBRDF") ELSE Skip
        [] pos = 7 -> IF Chance(c \o <<8>>, 40) THEN defcall(c, "bsf") ELSE Skip
        [] pos = 8 -> [op |-> "upd", o |-> 1, kw |-> kw(c, Missing(o) \cup SubNames(c \o <<3>>, {"bsf"}))]
        [] pos = 9 -> EvalCall("calc", 1, <<>>)
        [] pos = 10 -> EvalCall("surface", 1, <<>>)
        [] pos = 11 -> EvalCall("volume", 1, <<>>)
        [] pos = 12 -> IF o.intQ THEN EvalCall("interaction", 1, <<>>) ELSE Skip
        [] pos = 13 -> IF Chance(c, 60) THEN FlagTo(1, "dB", ~ o.dB) ELSE FlagCall(c, 1)
        [] pos = 14 -> [op |-> "upd", o |-> 1, kw |-> kw(c, SubNames(c \o <<1>>, Needed(o)))]
        [] pos = 15 -> EvalCall(PS(c, <<"calc", "calc", "volume", "surface">>), 1, <<>>)
        [] OTHER -> End

(* scattering functions.  what: "elem" or "lin" *)
ScatStep(cc, pos, what) ==
   LET c == Key(cc, pos)  b == cc.b
       vol == cc.k % 2 = 0
       q == (cc.k \div 2)
       f0 == IF what = "lin"
             THEN IF vol THEN Styled(Lin(K(cc, 1), "VLin", VKinds, 45, 5, 1 + P(cc.c \o <<420>>, 4)), 1, K(cc, 3))
                  ELSE Styled(Lin(K(cc, 1), "SLin", SKinds, 45, 5, 1 + P(cc.c \o <<420>>, 4)), 1, K(cc, 3))
             ELSE IF vol THEN Styled(Elem(K(cc, 1), <<"VIso", "Ray", "VHG", "HGR", "VHG", "HGR", "VUsr">>[1 + (q % 7)], 45, 8), 1, K(cc, 3))
                  ELSE Styled(Elem(K(cc, 1), <<"SIso", "Cos", "SHG", "HGN", "Cos", "SHG", "HGN", "SUsr">>[1 + (q % 8)], 45, 8), 1, K(cc, 3))
       (* directions at which the scattering angle is exactly zero *)
       zero == what = "elem" /\ f0.k = "Cos" /\ Chance(cc.c \o <<423>>, 50)
       f1 == IF zero THEN [f0 EXCEPT !.i = P(cc.c \o <<424>>, 2), !.da = FALSE, !.a[1] = EM(0)] ELSE f0
       f == IF what = "elem" /\ f1.nc > 0 /\ Chance(cc.c \o <<421>>, 15) THEN [f1 EXCEPT !.nc = 0] ELSE f1
       zen(d) == ArrOf(d, SubShape(d \o <<11>>, b), 0, IF zero /\ Chance(d \o <<12>>, 60) THEN 0 ELSE 1570)
       kwn(d, names) == LET s == Shuffle(d \o <<77>>, names) IN
                       Eager([i \in 1 .. Len(s) |-> KV(s[i], ValFor(d \o <<i>>, s[i], SubShape(d \o <<i, 7>>, b)))])
       kws(d, names) == LET s == Shuffle(d \o <<77>>, names) IN
                       Eager([i \in 1 .. Len(s) |-> KV(s[i], ValFor(d \o <<i>>, s[i], <<>>))])
       lacking(x, d) == IF FVars(x) # {} /\ Chance(d \o <<60>>, 12) THEN FVars(x) \ {PS(d \o <<61>>, NameSeq(FVars(x)))} ELSE FVars(x)
       g == Twin(f, cc.c \o <<422>>, 2, 45)
       scalcOf(x, d) == [op |-> "scalc", f |-> x, t0 |-> zen(d \o <<1>>), te |-> ArrOf(d \o <<2>>, SubShape(d \o <<12>>, b), 0, 1570),
                    p0 |-> ArrOf(d \o <<3>>, SubShape(d \o <<13>>, b), -3200, 6400), pe |-> ArrOf(d \o <<4>>, SubShape(d \o <<14>>, b), -3200, 6400),
                    kw |-> kwn(d \o <<5>>, lacking(x, d) \cup SubNames(d \o <<6>>, {"extra"}))]
       scalc(d) == scalcOf(f, d)
       ang(d, lo, hi) == [sh |-> <<>>, v |-> <<Num(d, lo, hi)>>, ty |-> "py"]
       expandOf(x, d) == [op |-> "expand", f |-> x, t0 |-> ang(d \o <<1>>, 0, 1570), te |-> ang(d \o <<2>>, 0, 1570),
                     p0 |-> ang(d \o <<3>>, -3200, 6400), pe |-> ang(d \o <<4>>, -3200, 6400), kw |-> kws(d \o <<5>>, FVars(x))]
       coefsOf(x, d) == [op |-> "coefs", f |-> x, n |-> 1 + P(d, 8), kw |-> kws(d \o <<1>>, MVars(x))]
   IN CASE pos \in 1 .. 3 -> scalc(c)
        [] pos = 4 -> [op |-> "ncoefs", f |-> f]
        [] pos = 5 -> IF IsLin(f) THEN Skip ELSE coefsOf(f, c)
        [] pos \in 6 .. 8 -> expandOf(f, c)
        (* another function that differs from f in few parameters, and f again *)
        [] pos = 9 -> scalcOf(g, c)
        [] pos = 10 -> expandOf(g, c)
        [] pos = 11 -> IF IsLin(g) \/ Chance(c, 50) THEN Skip ELSE coefsOf(g, c)
        [] pos = 12 -> scalc(c)
        [] OTHER -> End

(* expansions that cannot be used: ncoefs not given *)
NoCoefStep(cc, pos, st) ==
   LET c == Key(cc, pos)  b == cc.b  o == st.objs[1]
       drop(f, y) == IF y THEN [f EXCEPT !.nc = 0, !.m = [j \in 1 .. Len(f.m) |->
                        IF j = 1 /\ f.m[j].f.k \notin {"VIso", "SIso", "Ray"} THEN [f.m[j] EXCEPT !.f = [f.m[j].f EXCEPT !.nc = 0]] ELSE f.m[j]]] ELSE f
       keepI(f, y) == IF f.k \in {"VIso", "SIso", "Ray"} THEN f ELSE drop(f, y)
       w == cc.k % 4
   IN CASE pos = 1 -> NewCall(c, 1, keepI(VolF(K(cc, 1), 1, 30, 2, 30), w \in {0, 2}), keepI(SurfF(K(cc, 2), 2, 30, 2, 30), w \in {1, 2}), cc.k % 2 = 0)
        [] pos = 2 -> LET m == Mode(c) IN ModeCall(c, 1, m, ModeFix(c \o <<1>>, m))
        [] pos = 3 -> GeomCall(c, 1, b, Dynamic(o))
        [] pos = 4 -> UpdCall(c, 1, b, Missing(o))
        [] pos = 5 -> EvalCall("calc", 1, <<>>)
        [] pos = 6 -> EvalCall(PS(c, <<"surface", "volume">>), 1, <<>>)
        [] pos = 7 -> FlagTo(1, "int_Q", ~ o.intQ)
        [] pos = 8 -> EvalCall("calc", 1, <<>>)
        [] pos = 9 -> FlagTo(1, "int_Q", ~ o.intQ)
        [] pos = 10 -> EvalCall("calc", 1, <<>>)
        [] pos = 11 -> [op |-> "ncoefs", f |-> o.V]
        [] pos = 12 -> [op |-> "ncoefs", f |-> o.S]
        [] OTHER -> End

(* duo: every ordered pair of 32 kinds of changes, made on a model that was
   evaluated before (and also between both, in every second case); the cases
   1 .. 2048 are all of them, in an order that depends on the seed *)
NMut == 32
Mutation(m, c, st, b, pos) ==
   LET o == st.objs[1]
       one(a) == IF a \in Dynamic(o) THEN GeomCall(c, 1, b, {a}) ELSE ModeCall(c, 1, "bi", {})
       upd(names) == IF names = {} THEN UpdCall(c, 1, b, {"extra"}) ELSE UpdCall(c, 1, b, names)
       def(d, e) == [op |-> "setdef", o |-> 1, d |-> d, e |-> e, as |-> PS(c \o <<6>>, <<"num", "int", "str", "sympy", "real">>)]
       arr(d) == [k |-> "arr", a |-> NpArr(ArrOf(c \o <<3>>, SubShape(c \o <<4>>, <<b[1], b[2]>>), 50, 950))]
       lin == 20
   IN CASE m = 0  -> ModeCall(c, 1, "mono", {})
        [] m = 1  -> ModeCall(c, 1, "mono", {"p_0"})
        [] m = 2  -> ModeCall(c, 1, "bi", {})
        [] m = 3  -> ModeCall(c, 1, "bi", {"t_ex"})
        [] m = 4  -> ModeCall(c, 1, "bi", {"t_0", "p_0"})
        [] m = 5  -> ModeCall(c, 1, "bi", AngleNames)
        [] m = 6  -> one("t_0")
        [] m = 7  -> one("t_ex")
        [] m = 8  -> one("p_0")
        [] m = 9  -> one("p_ex")
        [] m = 10 -> IF Dynamic(o) = {} THEN ModeCall(c, 1, o.mode, {}) ELSE GeomCall(c, 1, b, Dynamic(o))
        [] m = 11 -> upd(AllDefVars(o))
        [] m = 12 -> upd(FVars(o.V))
        [] m = 13 -> upd(FVars(o.S))
        [] m = 14 -> upd({"bsf"})
        [] m = 15 -> def("tau", Expr01(c))
        [] m = 16 -> def("omega", Expr01(c))
        [] m = 17 -> def("NormBRDF", Expr01(c))
        [] m = 18 -> def("bsf", Expr01(c))
        [] m = 19 -> def("tau", ENum(Num(c, 50, 950)))
        [] m = 20 -> def("bsf", arr("bsf"))
        [] m = 21 -> LET d == PS(c, <<"tau", "omega", "NormBRDF", "bsf">>) IN def(d, ESym(d))
        [] m = 22 -> FlagTo(1, "sig0", ~ o.sig0)
        [] m = 23 -> FlagTo(1, "dB", ~ o.dB)
        [] m = 24 -> FlagTo(1, "int_Q", ~ o.intQ)
        [] m = 25 -> I0Call(c, 1, b)
        [] m = 26 -> [op |-> "setV", o |-> 1, V |-> Twin(o.V, c \o <<55>>, 100 + pos, 40)]
        [] m = 27 -> [op |-> "setV", o |-> 1, V |-> VolF(c \o <<53>>, 100 + pos, 40, 2, lin)]
        [] m = 28 -> [op |-> "setS", o |-> 1, S |-> Twin(o.S, c \o <<55>>, 200 + pos, 40)]
        [] m = 29 -> [op |-> "setS", o |-> 1, S |-> SurfF(c \o <<53>>, 200 + pos, 40, 2, lin)]
        [] m = 30 -> [op |-> "backend", b |-> IF st.backend = "sympy" THEN "symengine" ELSE "sympy"]
        [] m = 31 -> [op |-> "mutate", o |-> 1]
DuoStep(cc, pos, st) ==
   LET c == Key(cc, pos)  b == cc.b  o == st.objs[1]
       id == (613 * cc.k + RHash(<<cc.c[1], 460>>, 2 * NMut * NMut)) % (2 * NMut * NMut)
       m1 == id % NMut  m2 == (id \div NMut) % NMut  mid == id \div (NMut * NMut)
   IN CASE pos = 1 -> NewCall(c, 1, VolF(K(cc, 1), 1, 40, 2, 20), SurfF(K(cc, 2), 2, 40, 2, 20), Chance(c \o <<9>>, 80))
        [] pos = 2 -> LET m == Mode(c) IN ModeCall(c, 1, m, ModeFix(c \o <<1>>, m))
        [] pos = 3 -> IF Dynamic(o) = {} THEN Skip ELSE GeomCall(c, 1, b, Dynamic(o))
        [] pos = 4 -> IF Chance(c, 60) THEN DefCall(c, 1, PS(c, <<"tau", "omega", "NormBRDF", "bsf">>), b) ELSE Skip
        [] pos = 5 -> EvalCall("calc", 1, ParamKw(c, b, Missing(o)))
        [] pos = 6 -> IF Chance(c, 40) THEN CallOf("jac", c, 1, pos, st, b, 100) ELSE Skip
        [] pos = 7 -> Mutation(m1, c, st, b, pos)
        [] pos \in {8, 11} -> IF Ready(o) THEN Skip ELSE GeomCall(c, 1, b, Dynamic(o))
        [] pos = 9 -> IF mid = 0 THEN Skip ELSE EvalCall("calc", 1, ParamKw(c, b, Missing(o)))
        [] pos = 10 -> Mutation(m2, c, st, b, pos)
        [] pos = 12 -> EvalCall("calc", 1, ParamKw(c, b, Missing(o)))
        [] pos = 13 -> CallOf("jac", c, 1, pos, st, b, 100)
        [] pos = 14 -> IF o.intQ /\ Chance(c, 30) THEN EvalCall("interaction", 1, <<>>) ELSE Skip
        [] OTHER -> End

(* --------------------------------- steps ------------------------------- *)
StepOf(fam, cc, pos, st, hist) ==
   CASE fam = "eval"    -> EvalStep(cc, pos, st, 85, 4, 25)
     [] fam = "evalhi"  -> ManyStep(cc, pos, st)
     [] fam = "evalsv"  -> EvalStep(cc, pos, st, 8, 2, 30)
     [] fam = "evallin" -> EvalStep(cc, pos, st, 60, 3, 100)
     [] fam = "units"   -> UnitsStep(cc, pos, st)
     [] fam \in {"hist", "switch", "backend", "pair", "copy", "geo", "params"} -> HistStep(fam, cc, pos, st, hist)
     [] fam = "duo"     -> DuoStep(cc, pos, st)
     [] fam = "fixdyn"  -> FixStep(cc, pos, st)
     [] fam = "reuse"   -> ReuseStep(cc, pos, st)
     [] fam = "jac"     -> JacStep(cc, pos, st, FALSE)
     [] fam = "sparse"  -> JacStep(cc, pos, st, TRUE)
     [] fam = "shape"   -> ShapeStep(cc, pos, st)
     [] fam = "limit"   -> LimitStep(cc, pos, st)
     [] fam = "scat"    -> ScatStep(cc, pos, "elem")
     [] fam = "scatlin" -> ScatStep(cc, pos, "lin")
     [] fam = "nocoef"  -> NoCoefStep(cc, pos, st)

(* executions of a case: backend switches <<position, backend>> of each *)
PlansOf(fam, cc, hist) ==
   IF fam = "switch"
   THEN LET n == Len(hist)  c == cc.c \o <<800>> IN
        << << >>, <<<<1, "sympy">>>>,
           <<<<1, PS(c \o <<1>>, <<"sympy", "symengine">>)>>, <<2 + RHash(c \o <<2>>, n - 1), PS(c \o <<3>>, <<"sympy", "symengine">>)>>,
             <<2 + RHash(c \o <<4>>, n - 1), PS(c \o <<5>>, <<"sympy", "symengine">>)>>>> >>
   ELSE << << >> >>
=============================================================================
