-------------------------------- MODULE Tour --------------------------------
(***************************************************************************)
(* Exhaustive tour of the geometry settings of a model.  Up to values, the *)
(* state of the geometry is its mode, the fixed angles, and the angles     *)
(* that were set; TLC visits every such state (VIEW) and makes every legal *)
(* call in it (every subset of the angles that can be fixed or set).       *)
(* For each of these transitions a case is written: the shortest calls     *)
(* that lead to the state, the call, and what can be observed afterwards.  *)
(* One more case per state makes all kinds of illegal calls.               *)
(* GEN_COUNT is the percentage of the cases that are written.              *)
(***************************************************************************)
EXTENDS Sched, Props, Json, IOUtils

VARIABLES tuState, tuHist

Seed    == atoi(IOEnv.GEN_SEED)
Percent == atoi(IOEnv.GEN_COUNT)
OutDir  == IOEnv.GEN_OUT
Family  == IOEnv.GEN_FAMILY

B0 == PS(<<Seed, 1>>, BaseShapes)
Start == <<
   NewCall(<<Seed, 2>>, 1, VolF(<<Seed, 3>>, 1, 0, 2, 20), SurfF(<<Seed, 4>>, 2, 0, 2, 20), FALSE),
   UpdCall(<<Seed, 5>>, 1, B0, {"tau", "omega", "NormBRDF"})>>
StartState == Step(Step(InitState, Start[1]), Start[2])

Obj == tuState.objs[1]
KeyC == <<Seed, Len(tuHist)>>
SubsetNo(A) == CHOOSE k \in 0 .. 15 : Subset4(k) = A
KN(names, c) == [i \in 1 .. Len(names) |-> KV(names[i], NoneArg)]

(* legal calls *)
WithNones(ev, c) ==                        \* "None" for some of the angles that are not fixed
   LET free == (IF ev.op = "setmono" THEN {"p_0"} ELSE AngleNames) \ KwNames(ev.kw) IN
   IF Chance(c, 30) THEN [ev EXCEPT !.kw = KN(NameSeq(SubNames(c \o <<1>>, free)), c) \o ev.kw] ELSE ev
Legal(o) ==
   {WithNones(ModeCall(KeyC \o <<10 + SubsetNo(F)>>, 1, "mono", F), KeyC \o <<50 + SubsetNo(F)>>) : F \in SUBSET {"p_0"}}
   \cup {WithNones(ModeCall(KeyC \o <<30 + SubsetNo(F)>>, 1, "bi", F), KeyC \o <<70 + SubsetNo(F)>>) : F \in SUBSET AngleNames}
   \cup {GeomCall(KeyC \o <<90 + SubsetNo(A)>>, 1, B0, A) : A \in SUBSET Dynamic(o) \ {{}}}

(* illegal calls: every fixed or derived angle, None for every dynamic
   angle, unknown names, every value that is not a number, each together
   with legal arguments; in a fixed order *)
AngVal(a, k) == ArrArg(AngArr(KeyC \o <<200 + k>>, a, SubShape(KeyC \o <<300 + k>>, B0)))
WithLegal(o, e, k) ==
   LET l == GeomCall(KeyC \o <<400 + k>>, 1, B0, SubNames(KeyC \o <<500 + k>>, Dynamic(o) \ {e.n})).kw
       at == RHash(KeyC \o <<600 + k>>, Len(l) + 1)
   IN [op |-> "setgeom", o |-> 1, kw |-> SubSeq(l, 1, at) \o <<e>> \o SubSeq(l, at + 1, Len(l))]
BadGeoms(o) ==
   LET no == SelectSeq(Angles4, LAMBDA a : a \in o.fix \/ (o.mode = "mono" /\ a \in {"t_ex", "p_ex"}))
       dy == SelectSeq(Angles4, LAMBDA a : a \in Dynamic(o))
   IN [k \in 1 .. Len(no) |-> WithLegal(o, KV(no[k], AngVal(no[k], k)), k)]
      \o [k \in 1 .. Len(dy) |-> WithLegal(o, KV(dy[k], NoneArg), 10 + k)]
      \o [k \in 1 .. Len(no) |-> WithLegal(o, KV(no[k], NoneArg), 20 + k)]
      \o [k \in 1 .. 2 |-> WithLegal(o, KV(<<"theta_0", "t0">>[k], AngVal("t_0", 30 + k)), 30 + k)]
Types == <<"str", "arr", "list", "sym", "dict", "cplx">>
BadModes ==
   [k \in 1 .. 6 |-> [op |-> "setmono", o |-> 1, kw |-> <<KV("p_0", [k |-> "bad", t |-> Types[k]])>>]]
   \o <<[op |-> "setmono", o |-> 1, kw |-> <<KV("t_0", NumArg(Milli(300)))>>]>>
   \o [k \in 1 .. 8 |->
         LET a == Angles4[1 + ((k - 1) % 4)]
             good == ModeCall(KeyC \o <<700 + k>>, 1, "bi", SubNames(KeyC \o <<800 + k>>, AngleNames \ {a}))
         IN [good EXCEPT !.kw = IF RHash(KeyC \o <<850 + k>>, 2) = 0
                                THEN <<KV(a, [k |-> "bad", t |-> PS(KeyC \o <<900 + k>>, Types)])>> \o good.kw
                                ELSE good.kw \o <<KV(a, [k |-> "bad", t |-> PS(KeyC \o <<900 + k>>, Types)])>>]]
   \o <<[op |-> "setbi", o |-> 1, kw |-> <<KV("t_0", NumArg(Milli(300))), KV("t_1", NumArg(Milli(300)))>>]>>

(* observations: every angle, the contributions; then the remaining angles
   are set, and everything is observed again *)
Reads == [i \in 1 .. 4 |-> AngleCall(1, Angles4[i])]
Observe(o, c) ==
   Reads \o <<EvalCall("surface", 1, <<>>)>>
   \o (IF Dynamic(o) = {} THEN <<EvalCall("volume", 1, <<>>)>>
       ELSE <<GeomCall(c, 1, B0, IF Unset(o) = {} THEN SubNames(c \o <<1>>, Dynamic(o)) \cup {CHOOSE a \in Dynamic(o) : TRUE}
                                 ELSE Unset(o) \cap Dynamic(o)),
              EvalCall("calc", 1, <<>>)>>)

Write(events) ==
   LET n == TLCGet(1) + 1 IN
   /\ TLCSet(1, n)
   /\ (RHash(<<Seed, 999, n>>, 100) < Percent) =>
         JsonSerialize(OutDir \o "/" \o ToString(n) \o ".json",
                       [id |-> Family \o "-" \o ToString(Seed) \o "-" \o ToString(n), events |-> events, plans |-> <<<<>>>>])

TourInit == tuState = StartState /\ tuHist = Start /\ TLCSet(1, 0)
TourNext ==
   \/ \E ev \in Legal(Obj) :
        /\ tuState' = Step(tuState, ev) /\ tuHist' = Append(tuHist, ev)
        /\ Assert(Rejects(tuState, ev) = {}, <<"legal call is rejected", ev>>)
        /\ Write(tuHist \o <<ev>> \o Observe(Step(tuState, ev).objs[1], KeyC \o <<950>>))
   \/ LET bad == BadGeoms(Obj) \o BadModes IN
        /\ Assert(\A k \in 1 .. Len(bad) : Rejects(tuState, bad[k]) # {}, "illegal call is accepted")
        /\ Write(tuHist \o bad \o Observe(Obj, KeyC \o <<951>>))
        /\ UNCHANGED <<tuState, tuHist>>
TourSpec == TourInit /\ [][TourNext]_<<tuState, tuHist>>

TourView == <<Obj.mode, Obj.fix, {a \in AngleNames : Obj.ang[a] # None}>>
InvTypes == TypeOK(tuState)
InvC05a  == C05_Reported(tuState)
InvC05b  == C05_SamePoints(tuState)
InvC08   == C08_PointWise(tuState)
InvC09   == C09_Missing(tuState)
TourActions == [][Actions(tuState, tuHist'[Len(tuHist')], tuState')]_<<tuState, tuHist>>
=============================================================================
