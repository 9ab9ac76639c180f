----------------------------- MODULE MCPlanner -----------------------------
(* Model-checks Planner on instances read from a JSON file. *)
EXTENDS Planner, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
MCInsts == Data
CONSTANTS MCStrats
=============================================================================
