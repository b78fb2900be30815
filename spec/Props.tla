-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The properties as formulas over the machine: invariants of its states,  *)
(* and actions that every step (call ev in state s, leading to state t)    *)
(* has to satisfy.  TLC checks them on every state and step of the         *)
(* behaviours it generates (Gen) and of the exhaustive tours (Tour).       *)
(* They restate, independently of how After and the results are defined,   *)
(* what the listed properties promise; names give the property they        *)
(* belong to.                                                              *)
(***************************************************************************)
EXTENDS Machine

LOCAL Objs(s) == DOMAIN s.objs
LOCAL ModelOps == {"setmono", "setbi", "setgeom", "setdef", "setflag", "setI0", "setV", "setS", "upd", "calc", "surface",
                   "volume", "interaction", "jac", "angle", "def", "params", "flags", "mutate"}
LOCAL StoreOps == {"calc", "surface", "volume", "interaction", "upd"}
LOCAL Elems(o) == 0 .. Size(ModelShape(o)) - 1
LOCAL ReadyObj(o) == Unset(o) = {} /\ Missing(o) = {}

(* the geometry of a model is not specified while widgets show it *)
LOCAL Free(s) == Objs(s) \ {s.wid[w].o : w \in DOMAIN s.wid}

(* ------------------------------ invariants ----------------------------- *)
TypeOK(s) ==
   /\ s.backend \in {"sympy", "symengine"}
   /\ \A i \in Objs(s) : LET o == s.objs[i] IN
        /\ o.mode \in {"mono", "bi"} /\ o.fix \subseteq AngleNames
        /\ DOMAIN o.ang = AngleNames /\ DOMAIN o.def = DefNames
        /\ "bsf" \in DOMAIN o.pd
        /\ {o.sig0, o.dB, o.intQ} \subseteq BOOLEAN

(* C05: what is reported about a geometry *)
C05_Reported(s) ==
   \A i \in Free(s) : LET o == s.objs[i] IN
      /\ o.mode = "mono" => o.fix \subseteq {"p_0"}
      /\ \A a \in o.fix : IsSet(o, a) /\ Angle(o, a).sh = <<1>>
      /\ o.mode = "mono" =>
           /\ IsSet(o, "t_ex") = IsSet(o, "t_0") /\ IsSet(o, "p_ex") = IsSet(o, "p_0")
           /\ IsSet(o, "t_0") => Angle(o, "t_ex") = Angle(o, "t_0")
           /\ IsSet(o, "p_0") => \A k \in 1 .. Len(Angle(o, "p_0").v) :
                                    REq(Angle(o, "p_ex").v[k], Angle(o, "p_0").v[k] ++ RPi)

(* C05: the dynamic bistatic description of the same geometry has the same
   results (the results depend on nothing but the points and flags) *)
LOCAL Dyn(o) == [o EXCEPT !.mode = "bi", !.fix = {}, !.ang = EagerF([a \in AngleNames |-> Angle(o, a)])]
C05_SamePoints(s) ==
   \A i \in Free(s) : LET o == s.objs[i]  d == Dyn(o) IN
      ReadyObj(o) => /\ ModelShape(d) = ModelShape(o)
                     /\ \A p \in Elems(o) : PointAt(d, Env(d, ModelShape(d), p), ModelShape(d), p)
                                          = PointAt(o, Env(o, ModelShape(o), p), ModelShape(o), p)

(* C08: an element of the result is the result of the scalar model at the
   corresponding elements of its inputs *)
LOCAL Pick1(a, bsh, p) == [sh |-> <<>>, v |-> <<At(a, bsh, p)>>]
LOCAL ScalarModel(o, p) ==
   LET b == ModelShape(o) IN
   [o EXCEPT !.ang = EagerF([a \in AngleNames |-> IF o.ang[a] = None THEN None ELSE
                                IF BroadcastableTo(o.ang[a].sh, b) THEN Pick1(o.ang[a], b, p) ELSE None]),
             !.pd = EagerF([n \in DOMAIN o.pd |-> Pick1(o.pd[n], b, p)]),
             !.def = EagerF([d \in DefNames |-> IF o.def[d].k = "arr" THEN [k |-> "arr", a |-> Pick1(o.def[d].a, b, p)] ELSE o.def[d]]),
             !.I0 = Pick1(o.I0, b, p)]
C08_PointWise(s) ==
   \A i \in Objs(s) : LET o == s.objs[i] IN
      ReadyObj(o) => \A p \in Elems(o) :
         LET m == ScalarModel(o, p) IN
         /\ ModelShape(m) = <<>>
         /\ PointAt(m, Env(m, <<>>, 0), <<>>, 0) = PointAt(o, Env(o, ModelShape(o), p), ModelShape(o), p)

(* C09: a parameter is missing exactly if something refers to it and it was
   never stored; evaluation succeeds exactly if nothing is missing *)
C09_Missing(s) ==
   \A i \in Objs(s) : LET o == s.objs[i] IN
      /\ Missing(o) \cap DOMAIN o.pd = {}
      /\ Missing(o) = {} <=> (\A d \in DefNames : DefVars(o.def[d]) \subseteq DOMAIN o.pd)
                               /\ FVars(o.V) \subseteq DOMAIN o.pd /\ FVars(o.S) \subseteq DOMAIN o.pd
      /\ (Unset(o) = {} /\ ~ o.intQ) =>
            (Rejects(s, [op |-> "calc", o |-> i, kw |-> <<>>]) = {} <=> Missing(o) = {})


Invariants(s) == TypeOK(s) /\ C05_Reported(s) /\ C05_SamePoints(s) /\ C08_PointWise(s) /\ C09_Missing(s)

(* -------------------------------- actions ------------------------------ *)
(* C17: a call on a model leaves every other model as it is, and creating
   or copying changes no existing model; the backend belongs to no model *)
C17_Frame(s, ev, t) ==
   /\ Objs(s) \subseteq Objs(t)
   /\ LET touched == IF ev.op \in ModelOps \cup {"new"} THEN {ev.o} ELSE IF ev.op = "copy" THEN {ev.o2}
                       ELSE IF ev.op \in WidOps THEN {i \in Objs(s) : \E w \in DOMAIN t.wid : t.wid[w].o = i} ELSE {} IN
      \A i \in Objs(s) : i \notin touched => t.objs[i] = s.objs[i]
   /\ ev.op # "backend" => t.backend = s.backend

(* C06: after a call that is rejected everything is as before (parameters
   given to an evaluation that then fails are stored) *)
C06_Rejected(s, ev, t) ==
   ev.op \in {"setmono", "setbi", "setgeom"} =>
      LET o == s.objs[ev.o]  u == t.objs[ev.o]
          N == {ev.kw[k].n : k \in 1 .. Len(ev.kw)}
          vk(n) == (CHOOSE k \in 1 .. Len(ev.kw) : ev.kw[k].n = n)
          kinds == {ev.kw[k].v.k : k \in 1 .. Len(ev.kw)}
          illegal == CASE ev.op = "setmono" -> ~ (N \subseteq {"p_0"}) \/ ~ (kinds \subseteq {"num", "none"})
                       [] ev.op = "setbi" -> ~ (N \subseteq AngleNames) \/ ~ (kinds \subseteq {"num", "none"})
                       [] ev.op = "setgeom" -> \/ ~ (N \subseteq AngleNames) \/ "none" \in kinds
                                               \/ N \cap o.fix # {}
                                               \/ (o.mode = "mono" /\ N \cap {"t_ex", "p_ex"} # {})
      IN /\ illegal <=> Rejects(s, ev) # {}
         /\ illegal => t = s
         /\ (~ illegal /\ ev.op = "setgeom") =>
               /\ u.mode = o.mode /\ u.fix = o.fix
               /\ \A a \in AngleNames : u.ang[a] = IF a \in N THEN AtLeast1d(ev.kw[vk(a)].v.a) ELSE o.ang[a]
         /\ (~ illegal /\ ev.op # "setgeom") =>
               /\ u.mode = (IF ev.op = "setmono" THEN "mono" ELSE "bi")
               /\ u.fix = {a \in N : ev.kw[vk(a)].v.k = "num"}
               /\ \A a \in AngleNames : IF a \in u.fix THEN u.ang[a].v = <<ev.kw[vk(a)].v.v>> ELSE u.ang[a] = o.ang[a]
         /\ [u EXCEPT !.mode = o.mode, !.fix = o.fix, !.ang = o.ang] = o

(* C04, C09: evaluations only store the parameters they are given, later
   values override earlier ones; reading changes nothing *)
C09_Stored(s, ev, t) ==
   ev.op \in StoreOps \cup {"jac", "angle", "def", "params", "flags", "mutate"} =>
      LET o == s.objs[ev.o]  u == t.objs[ev.o]
          N == IF ev.op \in StoreOps THEN {ev.kw[k].n : k \in 1 .. Len(ev.kw)} ELSE {}
      IN /\ [u EXCEPT !.pd = o.pd] = o
         /\ DOMAIN u.pd = DOMAIN o.pd \cup N
         /\ \A n \in DOMAIN u.pd : IF n \in N THEN \E k \in 1 .. Len(ev.kw) : ev.kw[k].n = n /\ u.pd[n] = ev.kw[k].v
                                   ELSE u.pd[n] = o.pd[n]

(* C07: the backend changes no model *)
C07_Backend(s, ev, t) == ev.op = "backend" => t.objs = s.objs /\ t.backend = IF ev.b \in {"sympy", "symengine"} THEN ev.b ELSE s.backend

(* C13: a copy is equal to its original, which is not changed *)
C13_Copy(s, ev, t) == ev.op = "copy" => t.objs[ev.o2] = s.objs[ev.o] /\ t.objs[ev.o] = s.objs[ev.o]

(* single settings change nothing else *)
C04_Settings(s, ev, t) ==
   ev.op \in {"setdef", "setflag", "setI0", "setV", "setS"} =>
      LET o == s.objs[ev.o]  u == t.objs[ev.o] IN
      CASE ev.op = "setdef"  -> u.def[ev.d] = ev.e /\ [u EXCEPT !.def = o.def] = o
                                /\ \A d \in DefNames \ {ev.d} : u.def[d] = o.def[d]
        [] ev.op = "setflag" -> [u EXCEPT !.sig0 = o.sig0, !.dB = o.dB, !.intQ = o.intQ] = o
                                /\ Cardinality({x \in {<<1, u.sig0, o.sig0>>, <<2, u.dB, o.dB>>, <<3, u.intQ, o.intQ>>} : x[2] # x[3]}) <= 1
        [] ev.op = "setI0"   -> u = [o EXCEPT !.I0 = ev.a]
        [] ev.op = "setV"    -> u = [o EXCEPT !.V = ev.V]
        [] ev.op = "setS"    -> u = [o EXCEPT !.S = ev.S]

Actions(s, ev, t) ==
   /\ C17_Frame(s, ev, t) /\ C06_Rejected(s, ev, t) /\ C09_Stored(s, ev, t)
   /\ C07_Backend(s, ev, t) /\ C13_Copy(s, ev, t) /\ C04_Settings(s, ev, t)
=============================================================================
