-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The caching design behind property C04: what a model remembers between  *)
(* calls, what these values were computed from, and which calls drop them. *)
(* An entry is "E" (empty), "F" (fresh: computed from the current inputs)  *)
(* or "S" (stale).  Cosines, compiled definitions and compiled derivatives *)
(* are remembered per class (dropping them drops those of all models); the *)
(* fn-coefficients and the functions compiled from them per model.         *)
(*                                                                         *)
(* The design is coherent if no entry is ever stale.  One of the           *)
(* invalidations may be skipped (cdSkip): TLC checks that the complete     *)
(* design is coherent, and that exactly those invalidations are needed     *)
(* which drop an entry whose inputs the call changes.                      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

Angs == {"t_0", "t_ex", "p_0", "p_ex"}
Defs == {"tau", "omega"}                           \* (two of four suffice)
Geo  == {"mu0", "mux", "mu0x", "muxx"}             \* cosines and their powers
Par(d) == "p." \o d
Pars == {Par(d) : d \in Defs}
Der  == {"dv", "ds"}                               \* derivatives of the scattering functions
Fns  == {"fn", "fev"}
Ents == Geo \cup Pars \cup Der \cup Fns
Shared == Geo \cup Pars \cup Der

(* what an entry is computed from *)
Deps(e, mode) ==
   LET exit == IF mode = "mono" THEN {"mode", "t_0"} ELSE {"mode", "t_ex"} IN
   CASE e = "mu0"  -> {"t_0"}
     [] e = "mux"  -> exit
     [] e = "mu0x" -> {"t_0", "V", "S"}
     [] e = "muxx" -> exit \cup {"V", "S"}
     [] e \in Pars -> {e}
     [] e = "dv"   -> {"V"}
     [] e = "ds"   -> {"S"}
     [] OTHER      -> {"mode", "V", "S"}           \* "mode": mode and fixed angles
(* calls that change something: what they change, and what they drop *)
AllChanges == [k : {"geom"}, a : (SUBSET Angs) \ {{}}]
           \cup [k : {"mono"}, a : SUBSET {"p_0"}] \cup [k : {"bi"}, a : SUBSET Angs]
           \cup [k : {"def"}, a : {{Par(d)} : d \in Defs}] \cup [k : {"V"}, a : {{}}] \cup [k : {"S"}, a : {{}}]
Used == {"t_0", "t_ex"}                           \* the azimuth angles are in no entry
Changes == {ch \in AllChanges : ch.k \in {"geom", "mono", "bi"} => ch.a \subseteq Used}
Legal(o, ch) == ch.k = "geom" => (ch.a \cap o.fix = {} /\ (o.mode = "mono" => ch.a \subseteq {"t_0", "p_0"}))
Changed(ch) == CASE ch.k \in {"geom", "def"} -> ch.a
                 [] ch.k \in {"mono", "bi"}  -> {"mode"} \cup ch.a
                 [] OTHER                    -> {ch.k}
Drops(ch) == CASE ch.k = "geom"            -> Geo
               [] ch.k \in {"mono", "bi"}  -> Geo \cup Fns
               [] ch.k = "def"             -> Pars
               [] OTHER                    -> Ents
(* what evaluations leave behind *)
Fills(op) == CASE op = "surface" -> {"mu0", "mux", Par("tau")}
               [] op = "volume"  -> {"mu0", "mux"} \cup Pars
               [] op = "jac"     -> {"mu0", "mux"} \cup Pars \cup Der
               [] op = "calc"    -> Ents \ Der
               [] op = "tau"     -> {Par("tau")}    \* reading a definition
NewModel == [mode |-> "mono", fix |-> {}, ent |-> [e \in Ents |-> "E"]]
Evaluated(o, ents) == [o EXCEPT !.ent = [e \in Ents |-> IF e \in ents /\ o.ent[e] = "E" THEN "F" ELSE o.ent[e]]]
(* skip: <<kind of call, entry>> that is not dropped *)
ChangedObj(o, ch, skip) ==
   LET drop == {e \in Drops(ch) : <<ch.k, e>> # skip} IN
   [mode |-> IF ch.k \in {"mono", "bi"} THEN ch.k ELSE o.mode,
    fix |-> IF ch.k \in {"mono", "bi"} THEN ch.a ELSE o.fix,
    ent |-> [e \in Ents |-> IF e \in drop THEN "E"
                            ELSE IF o.ent[e] = "F" /\ Deps(e, o.mode) \cap Changed(ch) # {} THEN "S" ELSE o.ent[e]]]
OtherObj(o, ch, skip) ==
   [o EXCEPT !.ent = [e \in Ents |-> IF e \in Drops(ch) \cap Shared /\ <<ch.k, e>> # skip THEN "E" ELSE o.ent[e]]]
(* a copy is a new object: it has none of the shared entries, and the
   coefficients (sympy expressions) are not pickled *)
CopyOf(o) == [o EXCEPT !.ent = [e \in Ents |-> IF e = "fev" THEN o.ent[e] ELSE "E"]]

(* ------------------------------ the design ----------------------------- *)
VARIABLES cdObjs, cdSkip
Kinds == {"geom", "mono", "bi", "def", "V", "S"}
NoSkip == <<"", "">>
Droppable == {<<ch.k, e>> : ch \in Changes, e \in Ents}
CacheInit == cdObjs = [i \in 1 .. 2 |-> NewModel] /\ cdSkip = NoSkip
(* one model, with one of the invalidations left out *)
MutantInit == /\ cdObjs = [i \in 1 .. 1 |-> NewModel]
              /\ cdSkip \in {s \in Droppable : \E ch \in Changes : ch.k = s[1] /\ s[2] \in Drops(ch)}
              /\ TLCSet(1, {})
CacheNext ==
   /\ \E i \in DOMAIN cdObjs :
        \/ \E ch \in Changes : /\ Legal(cdObjs[i], ch)
                               /\ cdObjs' = [j \in DOMAIN cdObjs |-> IF j = i THEN ChangedObj(cdObjs[j], ch, cdSkip)
                                                              ELSE OtherObj(cdObjs[j], ch, cdSkip)]
        \/ \E op \in {"surface", "volume", "jac", "calc", "tau"} : cdObjs' = [cdObjs EXCEPT ![i] = Evaluated(@, Fills(op))]
        \/ Len(cdObjs) = 2 /\ cdObjs' = [cdObjs EXCEPT ![i] = CopyOf(cdObjs[3 - i])]
   /\ UNCHANGED cdSkip
Stale == {e \in Ents : \E i \in DOMAIN cdObjs : cdObjs[i].ent[e] = "S"}
Coherent == cdSkip = NoSkip => Stale = {}
(* the invalidations without which something is stale in some behaviour *)
Needed == {s \in Droppable : \E ch \in Changes, m \in {"mono", "bi"} :
              ch.k = s[1] /\ s[2] \in Drops(ch) /\ Deps(s[2], m) \cap Changed(ch) # {}}
OnlyNeeded == Stale # {} => /\ cdSkip \in Needed /\ Stale = {cdSkip[2]}
                            /\ TLCSet(1, TLCGet(1) \cup {cdSkip})
AllNeeded == TLCGet(1) = Needed
Explore == Stale = {}                              \* (constraint: not beyond a stale entry)
CacheSpec  == CacheInit /\ [][CacheNext]_<<cdObjs, cdSkip>>
MutantSpec == MutantInit /\ [][CacheNext]_<<cdObjs, cdSkip>>
=============================================================================
