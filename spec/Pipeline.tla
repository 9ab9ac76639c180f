------------------------------ MODULE Pipeline ------------------------------
(* The life cycle of PipelineSteps as a transition system: anything may be  *)
(* attempted, in any order, with any options and results.                  *)
EXTENDS PipelineSteps

CONSTANT Solvers, MaxRuns
VARIABLE s
Solver(t) == Solvers[t.c]
Step(t, e) == StepOf(Solvers, t, e)
Kinds == {"run", "dispatcher", "loader", "fleet", "job", "method", "optimize", "storer", "store", "member", "mstore", "return", "raise"}
Ev(k) == [k |-> k, id |-> 0, by |-> 0, fleet |-> 0, job |-> 0, res |-> 0, opt |-> 0, m |-> 0, ok |-> TRUE]
NextId == Cardinality(s.seen) + 1
Mine(k) == CASE k = "dispatcher" -> Solver(s).optD [] k = "loader" -> Solver(s).optL [] k = "method" -> Solver(s).optM [] OTHER -> Solver(s).optS
Events ==
  LET any == {[Ev("run") EXCEPT !.id = c] : c \in DOMAIN Solvers} IN
  IF s.pc = "idle" THEN IF s.runs < MaxRuns THEN any ELSE {}
  ELSE {[Ev(k) EXCEPT !.id = i, !.by = b, !.fleet = s.fleet, !.job = s.job, !.res = r, !.opt = IF o THEN Mine(k) ELSE 9, !.m = m, !.ok = ok] :
          k \in Kinds \ {"run", "fleet", "job"}, i \in {NextId}, b \in {s.ldr, s.meth, s.st} \cup {x.id : x \in s.built},
          r \in {0, s.res}, o \in BOOLEAN, m \in 0..Solver(s).n, ok \in BOOLEAN}
       \cup {[Ev(k) EXCEPT !.id = 1000 + s.runs, !.by = s.ldr, !.ok = ok] : k \in {"fleet", "job"} , ok \in BOOLEAN}
Init == s = AtRest
Next == \E e \in Events : s' \in Step(s, e)
(* irrelevant parts of an event are not distinguished *)
View == [s EXCEPT !.log = [k \in DOMAIN s.log |-> <<s.log[k].k, s.log[k].ok, s.log[k].res>>]]

Count(k) == Cardinality({i \in DOMAIN s.log : s.log[i].k = k})
At(k) == {i \in DOMAIN s.log : s.log[i].k = k}
Good(k) == {i \in At(k) : s.log[i].ok}
InvOnce ==
  /\ \A k \in {"loader", "method", "optimize", "storer", "store", "return", "raise"} : Count(k) <= 1
  /\ \A m \in 1..9 : Cardinality({i \in At("mstore") : s.log[i].m = m}) <= 1
InvOrder ==
  /\ \A i \in At("method") : Good("loader") # {} /\ \A j \in Good("loader") : j < i
  /\ \A i \in At("storer") \cup At("store") \cup At("member") \cup At("mstore") : Good("optimize") # {} /\ \A j \in Good("optimize") : j < i
InvSameResult ==
  \A i \in At("return") : \A j \in At("optimize") :
     /\ s.log[i].res = s.log[j].id /\ s.log[j].ok
     /\ \A l \in At("storer") \cup At("member") : s.log[l].res = s.log[j].id
InvAllStored ==
  \A i \in At("return") : CASE Solver(s).kind = "none" -> Count("store") = 0
                            [] Solver(s).kind = "single" -> Cardinality(Good("store")) = 1
                            [] OTHER -> Cardinality(Good("mstore")) = Solver(s).n
InvStops == \A i \in DOMAIN s.log : ~s.log[i].ok /\ s.log[i].k # "raise" => i + 1 >= Len(s.log) /\ (i + 1 = Len(s.log) => s.log[i + 1].k = "raise")
InvOptions == \A i \in DOMAIN s.log : s.log[i].k \in {"dispatcher", "loader", "method", "storer", "member"} => s.log[i].opt = Mine(s.log[i].k)
Inv == InvOnce /\ InvOrder /\ InvSameResult /\ InvAllStored /\ InvStops /\ InvOptions
(* something can always be done until the runs are over; every part can be reached *)
InvLive == s.pc = "idle" \/ \E e \in Events : Step(s, e) # {}
=============================================================================
