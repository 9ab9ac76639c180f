---------------------------- MODULE ComposeTrace ----------------------------
(* Judges runs of composite methods over the real parts (C13).              *)
(* Record: [id, kind, given, log, final, ok, about, options]; log: the parts run, in order, *)
(* with the values they started from (<< >>: none) and reached, and the     *)
(* option each one was run with.                                            *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
L == Rec.log
Ins == {k \in DOMAIN L : L[k].part = "insert"}
Sea == {k \in DOMAIN L : L[k].part = "search"}
Bad ==
     Cl("options_of_each_part", /\ \A k \in Ins : L[k].opt = Rec.given.insertion
                                /\ \A k \in Sea : L[k].opt = Rec.given.search)
\* GRASP: what is given for a part is used there, and nowhere else
\cup Cl("options_of_its_parts", ToSet(Rec.given.used) = ToSet(Rec.given.uses))
\cup Cl("feasible", Rec.ok)
\cup Cl("plan_of_the_problem_given", Rec.about)      \* also when the same options were used for another problem
\cup Cl("options_left_alone", Rec.options)
\cup Cl("as_many_first_solutions", Cardinality(Ins) = Rec.given.n)
\cup Cl("searched", Rec.given.search = "none" \/ Sea # {})
\* serving more never counts less in the dial-a-ride objective (two components)
\cup Cl("not_worse_than_first_solutions", Rec.kind # "iterative" /\ Len(Rec.final) = 2 => \A k \in Ins : ~LexLess(Rec.final, L[k].to))
\cup Cl("not_worse_than_what_was_searched", Len(Rec.final) = 2 => \A k \in Sea : ~LexLess(Rec.final, L[k].frm))
\cup (IF Rec.kind = "iterative"
      THEN Cl("best_episode", \E k \in Ins : L[k].to = Rec.final)
           \cup Cl("starts_from_best", \A k \in DOMAIN L :
                  L[k].frm = (IF Rec.given.restart \/ k = 1 THEN << >>
                              ELSE L[CHOOSE m \in 1..(k - 1) : \A l \in 1..(k - 1) : ~LexLess(L[m].to, L[l].to)].to))
           \cup Cl("best_of_all", \A k \in Ins : ~LexLess(Rec.final, L[k].to))
      ELSE {})
Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(L))
=============================================================================
