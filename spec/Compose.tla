------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Composite solving methods (C13): trees of iterated and sequential       *)
(* methods over leaves, GRASP being one such tree.  What a leaf returns is *)
(* arbitrary: the environment picks it, one outcome per leaf call:         *)
(*   0..3  a new plan of that quality;  4  the plan it was started from    *)
(*         (a new plan of quality 0 when it was started from none)         *)
(* The state is the list of outcomes so far; Run replays the method on it. *)
(*  Term == [k |-> "leaf", mark] | [k |-> "iter", n, restart, kid]         *)
(*        | [k |-> "seq", kids] | [k |-> "grasp", n, restart, fn, frestart,*)
(*                                 first, improve]                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT MaxCalls
Terms == JsonDeserialize(IOEnv.DATA)
Outcomes == 0..4
VARIABLES term, script
cv == <<term, script>>

None == [id |-> 0, q |-> -1]
Grasp(t) ==      \* a first solution, then improvement without restarts, over and over
  [k |-> "iter", n |-> t.n, restart |-> t.restart, kid |->
    [k |-> "seq", kids |-> <<
       [k |-> "iter", n |-> t.fn, restart |-> t.frestart, kid |-> t.first],
       [k |-> "iter", n |-> 3, restart |-> FALSE, kid |-> [k |-> "seq", kids |-> t.improve]]>>]]

(* st: [calls, need]: leaf calls made so far; need: the script ended before the method did *)
RECURSIVE Run(_, _, _, _)
Run(t, from, st, scr) ==
  IF st.need THEN [st |-> st, res |-> None]
  ELSE CASE t.k = "leaf" ->
         LET c == Len(st.calls) + 1 IN
         IF c > Len(scr) THEN [st |-> [st EXCEPT !.need = TRUE, !.next = [mark |-> t.mark, from |-> from.id]], res |-> None]
         ELSE LET r == IF scr[c] = 4 /\ from.id # 0 THEN from ELSE [id |-> c, q |-> IF scr[c] = 4 THEN 0 ELSE scr[c]] IN
              [st |-> [st EXCEPT !.calls = Append(@, [mark |-> t.mark, from |-> from.id, res |-> r.id, q |-> r.q])],
               res |-> r]
       [] t.k = "seq" ->
         FoldLeft(LAMBDA a, kid : Run(kid, a.res, a.st, scr), [st |-> st, res |-> from], t.kids)
       [] t.k = "iter" ->
         FoldLeft(LAMBDA a, e :
                    LET b == Run(t.kid, IF t.restart \/ a.res = None THEN from ELSE a.res, a.st, scr) IN
                    [st |-> b.st, res |-> IF a.res = None \/ b.res.q > a.res.q THEN b.res ELSE a.res],
                  [st |-> st, res |-> None], [e \in 1..t.n |-> e])
       [] t.k = "grasp" -> Run(Grasp(t), from, st, scr)
Zero == [calls |-> << >>, need |-> FALSE, next |-> [mark |-> "", from |-> 0]]
Now == Run(Terms[term].t, None, Zero, script)
Complete == ~Now.st.need

Init == term \in DOMAIN Terms /\ script = << >>
Next == ~Complete /\ Len(script) < MaxCalls /\ term' = term /\ \E o \in Outcomes : script' = Append(script, o)

(* ---- the guarantees, on every reachable history ---- *)
T == Terms[term].t
Results == {None} \cup {[id |-> Now.st.calls[k].res, q |-> Now.st.calls[k].q] : k \in DOMAIN Now.st.calls}
(* an iterated leaf runs as often as asked and the best, earliest, result is returned *)
InvIterated ==
  (Complete /\ T.k = "iter" /\ T.kid.k = "leaf") =>
     LET cs == Now.st.calls IN
     /\ Len(cs) = T.n
     /\ \A k \in DOMAIN cs : cs[k].q <= Now.res.q
     /\ \E k \in DOMAIN cs : cs[k].res = Now.res.id /\ \A m \in 1..(k - 1) : cs[m].q < Now.res.q
     /\ T.restart => \A k \in DOMAIN cs : cs[k].from = 0
     /\ ~T.restart => \A k \in DOMAIN cs : k > 1 =>
          \E m \in 1..(k - 1) : cs[m].res = cs[k].from /\ \A l \in 1..(k - 1) : cs[l].q <= cs[m].q
(* a sequence hands each result to the next and returns the last *)
InvSequential ==
  (Complete /\ T.k = "seq" /\ \A k \in DOMAIN T.kids : T.kids[k].k = "leaf") =>
     LET cs == Now.st.calls IN
     /\ [k \in DOMAIN cs |-> cs[k].mark] = [k \in DOMAIN T.kids |-> T.kids[k].mark]
     /\ \A k \in DOMAIN cs : cs[k].from = (IF k = 1 THEN 0 ELSE cs[k - 1].res)
     /\ Now.res.id = cs[Len(cs)].res
(* when improvement never worsens what it is given, GRASP's plan is no worse than any first solution *)
FirstCalls == {k \in DOMAIN Now.st.calls : Now.st.calls[k].mark = T.first.mark}
Quality(id) == IF id = 0 THEN -1 ELSE (CHOOSE r \in Results : r.id = id).q
InvGrasp ==
  (Complete /\ T.k = "grasp" /\ \A k \in DOMAIN Now.st.calls \ FirstCalls : Now.st.calls[k].q >= Quality(Now.st.calls[k].from))
     => \A k \in FirstCalls : Now.st.calls[k].q <= Now.res.q
(* the incumbent never drops *)
InvKnownResult == Complete => Now.res \in Results

Emit == Complete => PrintT(<<"H", term, ToJson([script |-> script, calls |-> Now.st.calls, res |-> Now.res.id])>>)
=============================================================================
