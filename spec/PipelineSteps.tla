--------------------------- MODULE PipelineSteps ------------------------------
(***************************************************************************)
(* Life cycle of solving (C21): several solvers, run in any order, each    *)
(* run from loading the instance to storing and returning the result.      *)
(* StepOf(Solvers, s, e): the states event e may lead to, none when it     *)
(* must not happen.  Every part may fail (ok = FALSE); then the run ends.  *)
(*  Solver == [optL, optM, optS, optD : options of its parts,              *)
(*             kind : "none" | "single" | "set", n : members of the set]   *)
(*  Event == [k, id, by, fleet, job, res, opt, m, ok]                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

AtRest == [pc |-> "idle", c |-> 0, disp |-> 0, ldr |-> 0, fleet |-> 0, job |-> 0, meth |-> 0, res |-> 0, st |-> 0,
         built |-> {}, stored |-> {}, seen |-> {}, runs |-> 0, log |-> << >>]

Fail(t) == [t EXCEPT !.pc = "failed"]
Made(t, e) == IF e.ok THEN [t EXCEPT !.seen = @ \cup {e.id}] ELSE Fail(t)
Fresh(t, e) == e.ok => e.id \notin t.seen
Do(Solvers, t, e) ==
  CASE e.k = "run" ->
         IF t.pc = "idle" /\ e.id \in DOMAIN Solvers
         THEN {[AtRest EXCEPT !.pc = "load", !.c = e.id, !.seen = t.seen, !.runs = t.runs + 1]} ELSE {}
    [] e.k = "dispatcher" ->
         IF t.pc = "load" /\ t.disp = 0 /\ t.ldr = 0 /\ e.opt = Solvers[t.c].optD
         THEN {IF e.ok THEN [t EXCEPT !.disp = e.id] ELSE Fail(t)} ELSE {}
    [] e.k = "loader" ->
         IF t.pc = "load" /\ t.ldr = 0 /\ Fresh(t, e) /\ e.opt = Solvers[t.c].optL
         THEN {[Made(t, e) EXCEPT !.ldr = e.id]} ELSE {}
    [] e.k \in {"fleet", "job"} ->
         IF t.pc # "idle" /\ t.pc # "failed" /\ t.ldr # 0 /\ e.by = t.ldr /\ (e.ok /\ t[e.k] # 0 => e.id = t[e.k])
         THEN {IF e.ok THEN [t EXCEPT ![e.k] = e.id] ELSE Fail(t)} ELSE {}
    [] e.k = "method" ->
         IF /\ t.pc = "load" /\ t.fleet # 0 /\ t.job # 0 /\ e.fleet = t.fleet /\ e.job = t.job
            /\ Fresh(t, e) /\ e.opt = Solvers[t.c].optM
         THEN {LET u == Made(t, e) IN IF e.ok THEN [u EXCEPT !.meth = e.id, !.pc = "ready"] ELSE u} ELSE {}
    [] e.k = "optimize" ->
         IF t.pc = "ready" /\ e.by = t.meth /\ Fresh(t, e)
         THEN {LET u == Made(t, e) IN IF e.ok THEN [u EXCEPT !.res = e.id, !.pc = "solved"] ELSE u} ELSE {}
    [] e.k = "storer" ->
         IF t.pc = "solved" /\ t.st = 0 /\ Solvers[t.c].kind # "none" /\ e.res = t.res /\ Fresh(t, e) /\ e.opt = Solvers[t.c].optS
         THEN {[Made(t, e) EXCEPT !.st = e.id]} ELSE {}
    [] e.k = "store" ->
         IF t.pc = "solved" /\ t.st # 0 /\ e.by = t.st
         THEN {IF e.ok THEN [t EXCEPT !.pc = "storing"] ELSE Fail(t)} ELSE {}
    [] e.k = "member" ->
         IF /\ t.pc = "storing" /\ e.m \in 1..Solvers[t.c].n /\ e.m \notin {b.m : b \in t.built}
            /\ e.res = t.res /\ Fresh(t, e) /\ e.opt = Solvers[t.c].optS
         THEN {[Made(t, e) EXCEPT !.built = @ \cup {[m |-> e.m, id |-> e.id]}]} ELSE {}
    [] e.k = "mstore" ->
         IF t.pc = "storing" /\ [m |-> e.m, id |-> e.by] \in t.built /\ e.m \notin t.stored
         THEN {IF e.ok THEN [t EXCEPT !.stored = @ \cup {e.m}] ELSE Fail(t)} ELSE {}
    [] e.k = "return" ->
         IF /\ e.res = t.res
            /\ \/ t.pc = "solved" /\ Solvers[t.c].kind = "none"
               \/ t.pc = "storing" /\ t.stored = (IF Solvers[t.c].kind = "set" THEN 1..Solvers[t.c].n ELSE {})
         THEN {[t EXCEPT !.pc = "idle"]} ELSE {}
    [] e.k = "raise" -> IF t.pc = "failed" THEN {[t EXCEPT !.pc = "idle"]} ELSE {}
    [] OTHER -> {}
Reading == {"fleet", "job"}      \* the loader may be asked again
StepOf(Solvers, t, e) == {[u EXCEPT !.log = CASE e.k = "run" -> << >> [] e.k \in Reading /\ e.ok -> t.log [] OTHER -> Append(t.log, e)] : u \in Do(Solvers, t, e)}
=============================================================================
