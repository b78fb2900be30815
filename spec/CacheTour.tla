------------------------------ MODULE CacheTour ------------------------------
(***************************************************************************)
(* Exhaustive tour of what a model can have remembered (module Cache): TLC *)
(* visits every combination of geometry mode and filled entries that calls *)
(* can lead to (VIEW), and makes every change and every evaluation in each *)
(* of them.  For each of these transitions a case is written: the shortest *)
(* calls that lead to the state, the call, and evaluations after it, which *)
(* have to conform to the machine that remembers nothing (RT1).            *)
(* GEN_COUNT is the number of cases, per mille, that are written.          *)
(***************************************************************************)
EXTENDS Sched, Machine, Json, IOUtils

VARIABLES ctState, ctHist, ctAbs
C == INSTANCE Cache WITH cdObjs <- <<ctAbs>>, cdSkip <- <<"", "">>

Seed    == atoi(IOEnv.GEN_SEED)
Permille == atoi(IOEnv.GEN_COUNT)
OutDir  == IOEnv.GEN_OUT
Family  == IOEnv.GEN_FAMILY

B0 == PS(<<Seed, 1>>, BaseShapes)
Start == <<
   NewCall(<<Seed, 2>>, 1, VolF(<<Seed, 3>>, 1, 60, 2, 15), SurfF(<<Seed, 4>>, 2, 60, 2, 15), TRUE),
   [op |-> "setbi", o |-> 1, kw |-> <<>>],
   [op |-> "setgeom", o |-> 1, kw |-> [i \in 1 .. 4 |-> KV(Angles4[i], ArrArg(AngArr(<<Seed, 5, i>>, Angles4[i], SubShape(<<Seed, 6, i>>, B0))))]],
   [op |-> "setdef", o |-> 1, d |-> "omega", e |-> Expr01(<<Seed, 7>>), as |-> "str"]>>
RunAll(st, evs) == FoldLeft(Step, st, evs)
Obj == ctState.objs[1]
KeyC == <<Seed, Len(ctHist)>>

(* the calls of a transition: [evs |-> calls, a |-> the abstract state after them, k |-> kind] *)
Geoms == <<{"t_0"}, {"t_ex"}, {"t_0", "t_ex", "p_0", "p_ex"}>>
Modes == <<<<"mono", {}>>, <<"mono", {"p_0"}>>, <<"bi", {}>>, <<"bi", {"t_ex"}>>, <<"bi", {"t_0", "p_0"}>>, <<"bi", AngleNames>>>>
Get(names) == IF names = {} THEN <<>> ELSE <<UpdCall(KeyC \o <<1>>, 1, B0, names)>>
Evals(op, c) ==
   CASE op = "calc" -> <<EvalCall("calc", 1, ParamKw(c, B0, Missing(Obj)))>>
     [] op = "jac"  -> Get(Missing(Obj)) \o <<JacCall(c, 1, Shuffle(c \o <<13>>,
                          {PS(c, <<"tau", "omega", "NormBRDF", "bsf">>)} \cup SubNames(c \o <<14>>, Needed(Obj)) \cup FVars(Obj.V) \cup FVars(Obj.S)), "list")>>
     [] op = "tau"  -> Get(DefVars(Obj.def["tau"]) \ DOMAIN Obj.pd) \o <<ReadDef(1, "tau")>>
     [] OTHER       -> Get(Missing(Obj)) \o <<EvalCall(op, 1, <<>>)>>
Change(ch, evs) == [evs |-> evs, a |-> C!ChangedObj(ctAbs, ch, <<"", "">>)]
Same(evs) == [evs |-> evs, a |-> ctAbs]
NT == 32
Transition(k) ==
   LET c == KeyC \o <<20 + k>> IN
   CASE k \in 1 .. 6 -> Change([k |-> Modes[k][1], a |-> Modes[k][2]], <<ModeCall(c, 1, Modes[k][1], Modes[k][2])>>)
     [] k \in 7 .. 9 -> LET n == Geoms[k - 6] \cap Dynamic(Obj) IN
                        IF n = {} THEN Same(<<>>) ELSE Change([k |-> "geom", a |-> n], <<GeomCall(c, 1, B0, n)>>)
     [] k = 10 -> Change([k |-> "def", a |-> {"p.tau"}], <<[op |-> "setdef", o |-> 1, d |-> "tau", e |-> Expr01(c), as |-> PS(c, <<"str", "sympy", "real">>)]>>)
     [] k = 11 -> Change([k |-> "def", a |-> {"p.omega"}], <<[op |-> "setdef", o |-> 1, d |-> "omega", e |-> Expr01(c), as |-> PS(c, <<"str", "sympy", "real">>)]>>)
     [] k = 12 -> Change([k |-> "def", a |-> {"p.omega"}], <<DefCall(c, 1, "NormBRDF", B0)>>)
     [] k = 13 -> Change([k |-> "def", a |-> {"p.omega"}], <<DefCall(c, 1, "bsf", B0)>>)
     [] k = 14 -> Change([k |-> "def", a |-> {"p.tau"}], <<[op |-> "setdef", o |-> 1, d |-> "tau", e |-> ENum(Num(c, 50, 950)), as |-> "num"]>>)
     [] k = 15 -> Change([k |-> "V", a |-> {}], <<[op |-> "setV", o |-> 1, V |-> VolF(c, 10 + k, 60, 3, 15)]>>)
     [] k = 16 -> Change([k |-> "V", a |-> {}], <<[op |-> "setV", o |-> 1, V |-> Twin(Obj.V, c, 10 + k, 40)]>>)
     [] k = 17 -> Change([k |-> "S", a |-> {}], <<[op |-> "setS", o |-> 1, S |-> SurfF(c, 10 + k, 60, 3, 15)]>>)
     [] k = 18 -> Change([k |-> "S", a |-> {}], <<[op |-> "setS", o |-> 1, S |-> Twin(Obj.S, c, 10 + k, 40)]>>)
     [] k = 19 -> Same(<<UpdCall(c, 1, B0, Needed(Obj))>>)
     [] k = 20 -> Same(<<UpdCall(c, 1, B0, {"extra"})>>)
     [] k = 21 -> Same(<<FlagTo(1, "sig0", ~ Obj.sig0)>>)
     [] k = 22 -> Same(<<FlagTo(1, "dB", ~ Obj.dB)>>)
     [] k = 23 -> Same(<<FlagTo(1, "int_Q", FALSE), EvalCall("calc", 1, ParamKw(c, B0, Missing(Obj))), FlagTo(1, "int_Q", TRUE)>>)
     [] k = 24 -> Same(<<[op |-> "backend", b |-> IF ctState.backend = "sympy" THEN "symengine" ELSE "sympy"]>>)
     [] k = 25 -> Same(<<[op |-> "mutate", o |-> 1]>>)
     [] k = 26 -> Same(<<I0Call(c, 1, B0)>>)
     (* a second model that shares the functions of the first one, and takes over its geometry *)
     [] k = 27 -> Same(<<NewCall(c, 2, Obj.V, Obj.S, TRUE), ModeCall(c, 2, "bi", AngleNames),
                         UpdCall(c, 2, B0, Needed(Obj) \cup DefNames), EvalCall("calc", 2, <<>>)>>)
     [] k = 28 -> Same(<<[op |-> "copy", o |-> 1, o2 |-> 2, how |-> PS(c, <<"cloudpickle", "deepcopy">>)],
                         ModeCall(c, 2, Obj.mode, Obj.fix), UpdCall(c, 2, B0, Needed(Obj)), EvalCall("calc", 2, <<>>)>>)
     [] OTHER -> LET op == <<"surface", "volume", "jac", "calc">>[k - 28] IN
                 [evs |-> Evals(op, c), a |-> C!Evaluated(ctAbs, C!Fills(op))]
Skipped == LET op == "tau" IN [evs |-> Evals(op, KeyC \o <<19>>), a |-> C!Evaluated(ctAbs, C!Fills(op))]

(* evaluations after the transition: one on its own, then all *)
Observe(st, c) ==
   LET o == st.objs[1]  op == PS(c, <<"surface", "volume", "jac", "interaction", "calc">>)
       get == IF Missing(o) = {} THEN <<>> ELSE <<UpdCall(c, 1, B0, Missing(o))>>
       jac(d) == JacCall(d, 1, Shuffle(d \o <<13>>, SubNames(d \o <<14>>, JacKeys(o)) \cup FVars(o.V) \cup FVars(o.S) \cup {"tau"}), "list")
   IN get \o (IF op = "jac" THEN <<jac(c)>> ELSE IF op = "calc" THEN <<>> ELSE <<EvalCall(op, 1, <<>>)>>)
      \o <<EvalCall("calc", 1, <<>>), jac(c \o <<1>>)>>

Write(st, events) ==
   LET n == TLCGet(1) + 1 IN
   /\ TLCSet(1, n)
   /\ (RHash(<<Seed, 998, n>>, 1000) < Permille) =>
         JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json",
                       [id |-> Family \o "-" \o ToString(Seed) \o "-" \o ToString(n),
                        events |-> events \o Observe(st, KeyC \o <<950, n>>), plans |-> <<<<>>>>])

CtInit == /\ ctState = RunAll(InitState, Start) /\ ctHist = Start
          /\ ctAbs = [C!NewModel EXCEPT !.mode = "bi"] /\ TLCSet(1, 0)
CtStep(t) ==
   /\ Len(t.evs) > 0
   /\ LET st == RunAll(ctState, t.evs) IN
      /\ Write(st, ctHist \o t.evs)
      /\ IF t.a = ctAbs THEN UNCHANGED <<ctState, ctHist, ctAbs>>
         ELSE ctState' = st /\ ctHist' = ctHist \o t.evs /\ ctAbs' = t.a
CtNext == \/ \E k \in 1 .. NT : CtStep(Transition(k))
          \/ CtStep(Skipped)
CtSpec == CtInit /\ [][CtNext]_<<ctState, ctHist, ctAbs>>
CtView == ctAbs
CtCoherent == \A e \in C!Ents : ctAbs.ent[e] # "S"
=============================================================================
