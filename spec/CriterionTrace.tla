--------------------------- MODULE CriterionTrace ---------------------------
(* Judges scores and rankings of routes by the library's criteria (C15).    *)
(* Record: [id, inst, crit, routes, scores, best, sorted, nbest]            *)
(*   scores: ticks;  best: seq of [args, got], args indices into routes (0: *)
(*   absent), got the position of the winner;  sorted: seq of [args, got];  *)
(*   nbest: seq of [n, args, got]; got: positions in args                   *)
EXTENDS Judge

VARIABLES j, done
Rec == Data[j]
I == Rec.inst
Ok(k) == Feasible(I, Rec.routes[k])
Sc(k) == Score(I, Rec.crit, Rec.routes[k], Sched(I, Rec.routes[k]))
Beats(a, b) == Ok(a) /\ (~Ok(b) \/ BetterScore(Rec.crit, Sc(a), Sc(b)))

(* positions of args ordered by score, the given order among equals *)
Ranked(args) == SetToSortSeq(DOMAIN args, LAMBDA x, y :
   Beats(args[x], args[y]) \/ (~Beats(args[y], args[x]) /\ x < y))
Given(args) == SelectSeq(Ranked([k \in DOMAIN args |-> IF args[k] = 0 THEN 1 ELSE args[k]]), LAMBDA x : args[x] # 0)
Worst(k) == IF Maximises(Rec.crit) THEN Rec.scores[k] <= -INF ELSE Rec.scores[k] >= INF
Scored(k) == LET s == Sc(k) IN Abs(Rec.scores[k] * s[2] - s[1]) <= (IF s[2] = 1 THEN 0 ELSE s[2])
Bad ==
     Cl("score_by_definition", \A k \in DOMAIN Rec.routes : Ok(k) => Scored(k))
\cup Cl("infeasible_scores_worst", \A k \in DOMAIN Rec.routes : ~Ok(k) => Worst(k))
\cup Cl("best", \A m \in DOMAIN Rec.best : LET p == Rec.best[m]  g == Given(p.args) IN
                  p.got = IF g = << >> THEN 0 ELSE g[1])
\cup Cl("sorted", \A m \in DOMAIN Rec.sorted : Rec.sorted[m].got = Ranked(Rec.sorted[m].args))
\cup Cl("n_best", \A m \in DOMAIN Rec.nbest : LET p == Rec.nbest[m]  g == Ranked(p.args) IN
                    p.got = SubSeq(g, 1, Min2(p.n, Len(g))))

Init == j \in DOMAIN Data /\ done = FALSE
Next == ~done /\ done' = TRUE /\ j' = j /\ Report(Rec.id, 1, Bad) /\ Finished(Rec.id, Len(Rec.routes))
=============================================================================
