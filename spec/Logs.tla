-------------------------------- MODULE Logs --------------------------------
(***************************************************************************)
(* Logging.  st.log is a record                                            *)
(*   own    set_loglevel was called: there is exactly one handler of the   *)
(*          package                                                        *)
(*   lev    the level of the logger (0: notset)                            *)
(*   fmt    the format: [k |-> "preset", s |-> name] ("raw" is             *)
(*          BASIC_FORMAT), or [k |-> "custom", parts |-> ...] with parts   *)
(*          [lit |-> text] and [fld |-> record attribute]                  *)
(*   users  handlers a user added: a sequence of [at, lev], at = "package" *)
(*          or "root"                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LogOps == {"setlog", "userh", "emit", "handlers"}
Preset(s) == [k |-> "preset", s |-> s]
LevelNo(name) == CASE name = "notset" -> 0 [] name = "debug" -> 10 [] name = "info" -> 20
                   [] name = "warning" -> 30 [] name = "error" -> 40 [] name = "critical" -> 50
LevelNames == {"notset", "debug", "info", "warning", "error", "critical"}
LOCAL RecName(n) == CASE n = 10 -> "DEBUG" [] n = 20 -> "INFO" [] n = 30 -> "WARNING" [] n = 40 -> "ERROR" [] n = 50 -> "CRITICAL"

(* ev.lev: [k |-> "name", s |-> lower case name, how |-> upper, title, ...] or [k |-> "int", n |-> number];
   ev.fmt: [k |-> "preset", s |-> name], [k |-> "custom", parts |-> ...], [k |-> "none"], [k |-> "omit"] *)
RejLog(st, ev) == IF ev.op = "setlog" /\ ev.lev.k = "name" /\ ev.lev.s \notin LevelNames THEN {"ValueError"} ELSE {}
AfterLog(st, ev) ==
   IF RejLog(st, ev) # {} THEN st
   ELSE CASE ev.op = "setlog" ->
          [st EXCEPT !.log = [own |-> TRUE,
              lev |-> IF ev.lev.k = "name" THEN LevelNo(ev.lev.s) ELSE ev.lev.n,
              fmt |-> CASE ev.fmt.k \in {"preset", "custom"} -> ev.fmt
                        [] ev.fmt.k = "none" -> st.log.fmt [] ev.fmt.k = "omit" -> Preset("timed"),
              users |-> st.log.users]]
     [] ev.op = "userh" -> [st EXCEPT !.log.users = Append(@, [at |-> ev.at, lev |-> ev.lev])]
     [] OTHER -> st

(* a record is printed exactly once if it is at or above the level.
   (With level "notset" the level of the root logger, warning, applies to
   records below it; nothing is specified about these.) *)
LOCAL Printed(lg, n) == n >= lg.lev
LOCAL Unspecified(lg, n) == lg.lev = 0 /\ n < 30
(* the words of the line; times are replaced by <TIME> *)
LOCAL Words(fmt, ev) ==
   CASE fmt = "plain" -> <<ev.msg>>
     [] fmt \in {"minimal", "basic"} -> <<"<TIME>", ev.msg>>
     [] fmt = "timed" -> <<"<TIME>", RecName(ev.n), ev.msg>>
     [] fmt = "debug" -> <<"<TIME>", RecName(ev.n), ev.name, ev.msg>>
     [] fmt = "raw" -> <<RecName(ev.n), ev.name, ev.msg>>
RECURSIVE Compose(_, _, _)
Compose(parts, ev, k) ==
   IF k = 0 THEN ""
   ELSE LET p == parts[k]
            s == IF "lit" \in DOMAIN p THEN p.lit
                 ELSE CASE p.fld = "message" -> ev.msg [] p.fld = "levelname" -> RecName(ev.n)
                        [] p.fld = "name" -> ev.name [] p.fld = "levelno" -> ToString(ev.n)
        IN Compose(parts, ev, k - 1) \o s
LOCAL WhyEmit(lg, ev, obs) ==
   IF Unspecified(lg, ev.n) \/ ~ lg.own THEN ""
   ELSE IF ~ Printed(lg, ev.n) THEN IF obs.lines = <<>> THEN "" ELSE "a record below the level was printed"
   ELSE IF Len(obs.lines) # 1 THEN "the record was printed " \o ToString(Len(obs.lines)) \o " times"
   ELSE IF lg.fmt.k = "preset"
        THEN IF obs.words[1] = Words(lg.fmt.s, ev) THEN "" ELSE "format of the record"
        ELSE IF obs.lines[1] = Compose(lg.fmt.parts, ev, Len(lg.fmt.parts)) THEN "" ELSE "custom format of the record"
LOCAL WhyUsers(lg, ev, obs) ==
   IF lg.lev = 0 \/ ~ lg.own THEN ""
   ELSE IF \E i \in 1 .. Len(lg.users) :
             obs.user[i] # (IF Printed(lg, ev.n) /\ ev.n >= lg.users[i].lev THEN <<ev.msg>> ELSE <<>>)
        THEN "output of a handler of the user" ELSE ""
WhyLog(st, ev, obs) ==
   LET rej == RejLog(st, ev)  lg == AfterLog(st, ev).log IN
   IF rej # {} THEN (IF obs.exc \in rej THEN "" ELSE "an unknown level has to be rejected")
   ELSE IF obs.exc # "" THEN "unexpected " \o obs.exc
   ELSE IF ~ obs.users_ok THEN "a handler of the user was changed or removed"
   ELSE CASE ev.op = "emit" -> IF WhyEmit(lg, ev, obs) # "" THEN WhyEmit(lg, ev, obs) ELSE WhyUsers(lg, ev, obs)
          [] ev.op \in {"setlog", "handlers"} -> IF obs.own = (IF lg.own THEN 1 ELSE 0) THEN "" ELSE "number of handlers of the package"
          [] OTHER -> ""
=============================================================================
