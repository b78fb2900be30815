------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The complete machine: the models (RT1, Results), the plotting functions *)
(* and widgets (Plots), and logging (Logs).                                *)
(*   Step(st, ev)           the state after call ev                        *)
(*   WhyNot(st, ev, obs)    "" if observation obs of ev conforms to the    *)
(*                          specification, otherwise the discrepancy       *)
(***************************************************************************)
EXTENDS Plots, Logs

Step(st, ev) == IF ev.op \in WidOps THEN AfterWid(st, ev)
                ELSE IF ev.op \in LogOps THEN AfterLog(st, ev)
                ELSE After(st, ev)
WhyNot(st, ev, obs) == IF ev.op \in PlotOps THEN WhyPlot(st, ev, obs)
                       ELSE IF ev.op \in LogOps THEN WhyLog(st, ev, obs)
                       ELSE Why(st, ev, obs)
=============================================================================
