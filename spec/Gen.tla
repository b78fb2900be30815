--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generates behaviours of the machine of module Machine as test cases.        *)
(* Every case is a separate initial state; its behaviour follows the       *)
(* scheduler of the family, and when it ends its calls are written as JSON.*)
(***************************************************************************)
EXTENDS SchedX, Props, Json, IOUtils

VARIABLES gnCase, gnPos, gnState, gnHist

Seed   == atoi(IOEnv.GEN_SEED)
First  == atoi(IOEnv.GEN_FIRST)
Count  == atoi(IOEnv.GEN_COUNT)
Family == IOEnv.GEN_FAMILY
OutDir == IOEnv.GEN_OUT

CaseCtx(k) == [c |-> <<Seed, k>>, b |-> PS(<<Seed, k, 3>>, BaseShapes), k |-> k]

GenInit == /\ gnCase \in First .. First + Count - 1
           /\ gnPos = 1 /\ gnState = InitState /\ gnHist = <<>>
GenNext ==
   LET ev == StepOfX(Family, CaseCtx(gnCase), gnPos, gnState, gnHist) IN
   /\ gnPos > 0
   /\ IF ev = End
      THEN /\ JsonSerialize(OutDir \o "/" \o ToString(gnCase) \o ".json",
                            [id |-> Family \o "-" \o ToString(Seed) \o "-" \o ToString(gnCase), events |-> gnHist,
                             plans |-> PlansOfX(Family, CaseCtx(gnCase), gnHist)])
           /\ gnPos' = 0 /\ UNCHANGED <<gnState, gnHist>>
      ELSE IF ev = Skip THEN gnPos' = gnPos + 1 /\ UNCHANGED <<gnState, gnHist>>
      ELSE /\ gnState' = Step(gnState, ev)
           /\ gnHist' = Append(gnHist, ev)
           /\ gnPos' = gnPos + 1
   /\ UNCHANGED gnCase
(* the properties, on every generated behaviour *)
InvTypes   == TypeOK(gnState)
InvC05a    == C05_Reported(gnState)
InvC05b    == C05_SamePoints(gnState)
InvC08     == C08_PointWise(gnState)
InvC09     == C09_Missing(gnState)
GenActions == [][Len(gnHist') > Len(gnHist) => Actions(gnState, gnHist'[Len(gnHist')], gnState')]_<<gnCase, gnPos, gnState, gnHist>>
GenSpec == GenInit /\ [][GenNext]_<<gnCase, gnPos, gnState, gnHist>>
=============================================================================
