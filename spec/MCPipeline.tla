---------------------------- MODULE MCPipeline ----------------------------
(* Pipeline over every pair of solver configurations of a small family.    *)
EXTENDS Pipeline
CONSTANTS Kind1, Kind2
MCSolvers == << [optL |-> 1, optM |-> 2, optS |-> 3, optD |-> 0, kind |-> Kind1, n |-> IF Kind1 = "set" THEN 2 ELSE 0],
                [optL |-> 4, optM |-> 0, optS |-> 0, optD |-> 5, kind |-> Kind2, n |-> 0] >>
=============================================================================
