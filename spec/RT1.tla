--------------------------------- MODULE RT1 ---------------------------------
(***************************************************************************)
(* The state machine of rt1_model: a set of model objects and the global   *)
(* lambda backend, changed and observed by calls of the public interface.  *)
(*                                                                         *)
(* A state is a record [objs, backend]; objs maps the numbers of the       *)
(* objects that were created to their configuration:                       *)
(*   mode  "mono" or "bi"                                                  *)
(*   fix   the angles that are fixed                                       *)
(*   ang   angle name -> array, or None if it was never set                *)
(*   pd    parameter name -> array (the stored parameter values)           *)
(*   def   definitions of tau, omega, NormBRDF and bsf (an expression, or  *)
(*         [k |-> "arr", a |-> array])                                     *)
(*   V, S  the scattering functions;  sig0, dB, intQ flags;  I0 array      *)
(* Nothing else: in particular no cache and no history.  That results are  *)
(* a function of this record is property C04.                              *)
(*                                                                         *)
(* A call is a record ev with its name in ev.op.  The machine is given by  *)
(*   Rejects(st, ev)  the exceptions ev may end with ({}: it succeeds)     *)
(*   After(st, ev)    the state after the call                             *)
(*   and the value it returns (module Results).                            *)
(***************************************************************************)
EXTENDS FirstOrder, Arr, TLC

AngleNames == {"t_0", "t_ex", "p_0", "p_ex"}
DefNames   == {"tau", "omega", "NormBRDF", "bsf"}
None == [k |-> "none"]

Scalar(r) == [sh |-> <<>>, v |-> <<r>>]
(* keyword arguments are sequences of [n |-> name, v |-> value] *)
KwNames(kw)  == {kw[i].n : i \in 1 .. Len(kw)}
KwGet(kw, n) == LET i == CHOOSE j \in 1 .. Len(kw) : kw[j].n = n IN kw[i].v
KwFun(kw)    == EagerF([n \in KwNames(kw) |-> KwGet(kw, n)])

(* ------------------------------- objects ------------------------------- *)
NewObj(ev) ==
  [mode |-> "mono", fix |-> {}, ang |-> EagerF([n \in AngleNames |-> None]),
   pd |-> EagerF([n \in {"bsf"} |-> Scalar(R0)]),
   def |-> EagerF([d \in DefNames |-> ESym(d)]),
   V |-> ev.V, S |-> ev.S, sig0 |-> ev.sig0, dB |-> ev.dB, intQ |-> ev.intQ, I0 |-> ev.I0]

DefVars(d) == IF d.k = "arr" THEN {} ELSE Vars(d)
AllDefVars(o) == UNION {DefVars(o.def[d]) : d \in DefNames}
Missing(o) == (AllDefVars(o) \cup FVars(o.V) \cup FVars(o.S)) \ DOMAIN o.pd

(* angles, as they are reported *)
Stored(o, a) == IF o.mode = "mono" /\ a = "t_ex" THEN "t_0"
                ELSE IF o.mode = "mono" /\ a = "p_ex" THEN "p_0" ELSE a
IsSet(o, a) == o.ang[Stored(o, a)] # None
Unset(o) == {Stored(o, a) : a \in {b \in AngleNames : ~ IsSet(o, b)}}
Angle(o, a) ==
   LET x == o.ang[Stored(o, a)] IN
   IF o.mode = "mono" /\ a = "p_ex"
   THEN [sh |-> x.sh, v |-> Eager([i \in 1 .. Len(x.v) |-> RAdd(x.v[i], RPi)])] ELSE x

Update(o, kw) == [o EXCEPT !.pd = EagerF(KwFun(kw) @@ o.pd)]

(* shape of the results: angles (at least one-dimensional), all stored
   parameters, numeric definitions and the incident intensity *)
AngShapes(o) == [i \in 1 .. 4 |-> Angle(o, <<"t_0", "t_ex", "p_0", "p_ex">>[i]).sh]
LOCAL DefShape(o, d) == IF o.def[d].k = "arr" THEN o.def[d].a.sh ELSE <<>>
RECURSIVE BcastSet(_, _, _)
BcastSet(o, names, sh) ==
   IF names = {} THEN sh
   ELSE LET n == CHOOSE n \in names : TRUE IN BcastSet(o, names \ {n}, Bcast2(sh, o.pd[n].sh))
ModelShape(o) ==
   LET s == Bcast(AngShapes(o) \o <<o.I0.sh, DefShape(o, "tau"), DefShape(o, "omega"),
                                    DefShape(o, "NormBRDF"), DefShape(o, "bsf")>>)
   IN BcastSet(o, DOMAIN o.pd, s)

(* effective values of the parameters at element p of the result *)
Env(o, bsh, p) == EagerF([n \in DOMAIN o.pd |-> DC(At(o.pd[n], bsh, p))])
EnvD(o, bsh, p, key) == EagerF([n \in DOMAIN o.pd |->
      IF n = key THEN DV(At(o.pd[n], bsh, p)) ELSE DC(At(o.pd[n], bsh, p))])
(* (definitions that an evaluation does not need may lack parameters) *)
DefAt(o, d, env, bsh, p) ==
   IF ~ (DefVars(o.def[d]) \subseteq DOMAIN env) THEN DC(R0)
   ELSE IF o.def[d].k = "arr" THEN DC(At(o.def[d].a, bsh, p)) ELSE Eval(o.def[d], env)
PointAt(o, env, bsh, p) ==
   [tau |-> DefAt(o, "tau", env, bsh, p), omega |-> DefAt(o, "omega", env, bsh, p),
    N |-> DefAt(o, "NormBRDF", env, bsh, p), bsf |-> DefAt(o, "bsf", env, bsh, p),
    I0 |-> At(o.I0, bsh, p),
    t0 |-> At(Angle(o, "t_0"), bsh, p), te |-> At(Angle(o, "t_ex"), bsh, p),
    p0 |-> At(Angle(o, "p_0"), bsh, p), pe |-> At(Angle(o, "p_ex"), bsh, p)]

(* ------------------------------ exceptions ----------------------------- *)
(* geometry calls; argument values: [k |-> "num", v |-> real],
   [k |-> "arr", a |-> array], None, [k |-> "bad"] (not a number) *)
LOCAL IsNum(v)  == v.k = "num"
LOCAL IsNone(v) == v.k = "none"
RejMode(ev) ==
   (IF KwNames(ev.kw) \subseteq (IF ev.op = "setmono" THEN {"p_0"} ELSE AngleNames) THEN {} ELSE {"TypeError"}) \cup
   IF \E i \in 1 .. Len(ev.kw) : ~ IsNum(ev.kw[i].v) /\ ~ IsNone(ev.kw[i].v)
   THEN {"AssertionError"} ELSE {}
RejSetGeom(o, ev) ==
   LET N == KwNames(ev.kw) IN
   (IF N \subseteq AngleNames THEN {} ELSE {"TypeError"}) \cup
   (IF \/ o.mode = "mono" /\ N \cap {"t_ex", "p_ex"} # {}
       \/ N \cap o.fix # {}
       \/ \E n \in N : IsNone(KwGet(ev.kw, n))
    THEN {"AssertionError"} ELSE {})

LOCAL RejAngles(o) == IF Unset(o) = {} THEN {} ELSE {"AttributeError"}
LOCAL RejMissing(o, names) == IF names \subseteq DOMAIN o.pd THEN {} ELSE {"TypeError"}
LOCAL RejCoefs(o) == IF NCoefs(o.V) = 0 \/ NCoefs(o.S) = 0 THEN {"AttributeError"} ELSE {}
LOCAL Needs(o, ds) == UNION {DefVars(o.def[d]) : d \in ds}
JacNames(o, ev) == {ev.keys[i] : i \in 1 .. Len(ev.keys)}

RejEval(o, ev) ==                                  \* o: after storing the parameters
   CASE ev.op = "calc" ->
          RejAngles(o) \cup RejMissing(o, AllDefVars(o) \cup FVars(o.V) \cup FVars(o.S))
             \cup (IF o.intQ THEN RejCoefs(o) ELSE {})
     [] ev.op = "interaction" ->
          RejAngles(o) \cup RejMissing(o, AllDefVars(o) \cup FVars(o.V) \cup FVars(o.S)) \cup RejCoefs(o)
     [] ev.op = "surface" ->
          RejAngles(o) \cup RejMissing(o, Needs(o, {"tau", "NormBRDF", "bsf"}) \cup FVars(o.S))
     [] ev.op = "volume" ->
          RejAngles(o) \cup RejMissing(o, Needs(o, {"tau", "omega", "bsf"}) \cup FVars(o.V))
     [] ev.op = "jac" ->
          RejAngles(o) \cup RejMissing(o, AllDefVars(o) \cup FVars(o.V) \cup FVars(o.S))
             \cup (IF ev.fmt \in {"list", "scipy_least_squares"} THEN {} ELSE {"TypeError"})
             \cup (IF JacNames(o, ev) \subseteq DefNames \cup DOMAIN o.pd THEN {} ELSE {"AssertionError"})
     [] ev.op = "angle" -> IF IsSet(o, ev.a) THEN {} ELSE {"AttributeError"}
     [] ev.op = "def"   -> RejMissing(o, DefVars(o.def[ev.d]))
     [] OTHER -> {}

Evaluations == {"calc", "surface", "volume", "interaction", "jac", "angle", "def", "params", "flags"}
LOCAL Stores == {"calc", "surface", "volume", "interaction", "upd"}

(* the exceptions a call may end with; {} if it succeeds *)
LOCAL Obj(st, ev) == IF ev.op \in Stores THEN Update(st.objs[ev.o], ev.kw) ELSE st.objs[ev.o]
(* An expansion of a single coefficient is constant: parameters of its
   scattering function need not occur in the interaction term at all. *)
MayOmit(st, ev) ==
   /\ ev.op = "interaction"
   /\ LET o == Obj(st, ev)
          single(f) == \E j \in 1 .. Len(Members(f)) : NC1(Members(f)[j].f) = 1
          miss == Missing(o)
      IN /\ Unset(o) = {} /\ RejCoefs(o) = {}
         /\ miss # {} /\ miss \cap AllDefVars(o) = {}
         /\ miss \subseteq (IF single(o.V) THEN FVars(o.V) ELSE {}) \cup (IF single(o.S) THEN FVars(o.S) ELSE {})

Rejects(st, ev) ==
   CASE ev.op \in {"setmono", "setbi"} -> RejMode(ev)
     [] ev.op = "setgeom" -> RejSetGeom(st.objs[ev.o], ev)
     [] ev.op \in Evaluations -> RejEval(Obj(st, ev), ev)
     [] ev.op = "backend" -> IF ev.b \in {"sympy", "symengine"} THEN {} ELSE {"AssertionError"}
     [] OTHER -> {}

(* names that the message of an accepted exception has to contain:
   all of MustName, and one of OneOf (if it is not empty) *)
MustName(st, ev, exc) ==
   IF ev.op = "calc" /\ exc = "TypeError" THEN Missing(Obj(st, ev)) ELSE {}
OneOf(st, ev, exc) ==
   IF exc = "AttributeError" /\ ev.op \in Evaluations
   THEN LET o == Obj(st, ev) IN
        IF ev.op = "angle" THEN {Stored(o, ev.a), ev.a}
        ELSE IF RejCoefs(o) # {} THEN {} ELSE Unset(o) \cup (IF "t_0" \in Unset(o) THEN {"t_ex"} ELSE {})
                                                       \cup (IF "p_0" \in Unset(o) THEN {"p_ex"} ELSE {})
   ELSE {}

(* ----------------------------- transitions ----------------------------- *)
LOCAL FixAngles(o, mode, kw) ==
   LET F == {n \in KwNames(kw) : IsNum(KwGet(kw, n))} IN
   [o EXCEPT !.mode = mode, !.fix = F,
             !.ang = EagerF([n \in AngleNames |->
                IF n \in F THEN [sh |-> <<1>>, v |-> <<KwGet(kw, n).v>>] ELSE o.ang[n]])]
LOCAL SetAngles(o, kw) ==
   [o EXCEPT !.ang = EagerF([n \in AngleNames |->
                IF n \in KwNames(kw) THEN AtLeast1d(KwGet(kw, n).a) ELSE o.ang[n]])]
LOCAL Put(st, i, o) == [st EXCEPT !.objs = EagerF((i :> o) @@ st.objs)]

After(st, ev) ==
   IF ev.op \in Stores THEN Put(st, ev.o, Update(st.objs[ev.o], ev.kw))   \* stored even if the evaluation fails
   ELSE IF Rejects(st, ev) # {} THEN st
   ELSE CASE ev.op = "new"     -> Put(st, ev.o, NewObj(ev))
          [] ev.op = "setmono" -> Put(st, ev.o, FixAngles(st.objs[ev.o], "mono", ev.kw))
          [] ev.op = "setbi"   -> Put(st, ev.o, FixAngles(st.objs[ev.o], "bi", ev.kw))
          [] ev.op = "setgeom" -> Put(st, ev.o, SetAngles(st.objs[ev.o], ev.kw))
          [] ev.op = "setdef"  -> Put(st, ev.o, [st.objs[ev.o] EXCEPT !.def[ev.d] = ev.e])
          [] ev.op = "setflag" -> Put(st, ev.o,
                 CASE ev.f = "sig0"  -> [st.objs[ev.o] EXCEPT !.sig0 = ev.b]
                   [] ev.f = "dB"    -> [st.objs[ev.o] EXCEPT !.dB = ev.b]
                   [] ev.f = "int_Q" -> [st.objs[ev.o] EXCEPT !.intQ = ev.b])
          [] ev.op = "setI0"   -> Put(st, ev.o, [st.objs[ev.o] EXCEPT !.I0 = ev.a])
          [] ev.op = "setV"    -> Put(st, ev.o, [st.objs[ev.o] EXCEPT !.V = ev.V])
          [] ev.op = "setS"    -> Put(st, ev.o, [st.objs[ev.o] EXCEPT !.S = ev.S])
          [] ev.op = "copy"    -> Put(st, ev.o2, st.objs[ev.o])            \* dump and load, deepcopy
          [] ev.op = "backend" -> [st EXCEPT !.backend = ev.b]
          [] OTHER -> st       \* evaluations; and changes the caller makes to arrays it passed earlier

InitState == [objs |-> <<>>, backend |-> "symengine",
              wid |-> <<>>,                                    \* analyzer widgets (module Plots)
              log |-> [own |-> FALSE, lev |-> 30, fmt |-> [k |-> "preset", s |-> "raw"], users |-> <<>>]]   \* logging (module Logs)
=============================================================================
