-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded behaviours of the implementation against the machine of *)
(* module Machine.  A file holds cases, each a sequence of calls with what was *)
(* observed ([ev, obs]; several observations of one call, obs2, .. are the *)
(* same call in another execution of the same case).  Every case is a      *)
(* separate initial state; a behaviour follows its calls with After, and   *)
(* reports every call whose observation the specification does not allow.  *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

VARIABLES trCase, trPos, trState, trBad

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
Evs(c) == Cases[c].events

TraceInit == /\ trCase \in 1 .. Len(Cases)
             /\ trPos = 1 /\ trState = InitState /\ trBad = 0

(* two executions of the same call: same outcome, shape and values *)
LOCAL SameShapes(a, b) ==
   /\ a.exc = b.exc
   /\ ("sh" \in DOMAIN a /\ "sh" \in DOMAIN b) => a.sh = b.sh
LOCAL WhyPair(ev, os) ==
   IF \A i \in 2 .. Len(os) : SameShapes(os[1], os[i]) THEN "" ELSE "outcome or shape depends on the backend"
LOCAL WhyAll(st, ev, os) ==
   LET w == {i \in 1 .. Len(os) : WhyNot(st, ev, os[i]) # ""} IN
   IF w = {} THEN WhyPair(ev, os)
   ELSE LET i == CHOOSE j \in w : \A k \in w : j <= k IN
        "execution " \o ToString(i) \o ": " \o WhyNot(st, ev, os[i])

TraceNext ==
   /\ trPos <= Len(Evs(trCase))
   /\ LET e == Evs(trCase)[trPos]
          w == WhyAll(trState, e.ev, e.obs)
      IN /\ trState' = Step(trState, e.ev)
         /\ trBad' = IF w = "" THEN trBad ELSE trBad + 1
         /\ trPos' = IF w = "" THEN trPos + 1 ELSE Len(Evs(trCase)) + 1
         (* one line per case; a string, because TLC wraps long tuples *)
         /\ IF w # "" THEN PrintT("VIOL|" \o Cases[trCase].id \o "|" \o ToString(trPos) \o "|" \o e.ev.op \o "|" \o w)
            ELSE IF trPos' = Len(Evs(trCase)) + 1 THEN PrintT("HELD|" \o Cases[trCase].id)
            ELSE TRUE
   /\ UNCHANGED trCase

TraceSpec == TraceInit /\ [][TraceNext]_<<trCase, trPos, trState, trBad>>
=============================================================================
