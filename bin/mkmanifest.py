#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python bin/check.py"
MC, EX = "model_checking", "exploration"
T = {
 "C01": (MC, "TLC model checking of Planner.tla; plans returned by the real methods judged by PlanTrace.tla (TLC)"),
 "C02": (MC, "TLC model checking of Planner.tla; plans returned by the real methods judged by PlanTrace.tla (TLC)"),
 "C03": (MC, "TLC model checking of Planner.tla (verdict implies limits); real plans judged against the limits by PlanTrace.tla (TLC)"),
 "C04": (MC, "TLC model checking of RouteEdit.tla; its histories replayed on real routes, every read compared with the specification"),
 "C05": (MC, "TLC model checking of RouteEdit.tla; its histories, aimed at the limits, replayed on real routes; real plans judged by PlanTrace.tla"),
 "C06": (MC, "insertion search outcomes judged by CandidateTrace.tla (TLC); RouteEdit histories with offers replayed"),
 "C07": (MC, "TLC model checking of RouteEdit.tla (copies); histories with copies replayed, recorded versions judged by CopyTrace.tla (TLC)"),
 "C08": (MC, "RouteEdit histories with offers replayed, and real searches recorded; judged by CopyTrace.tla (TLC)"),
 "C09": (MC, "TLC model checking of Planner.tla (safety and termination); recorded insertion runs judged step by step by InsertionTrace.tla (TLC)"),
 "C10": (MC, "TLC model checking of Planner.tla per criterion; recorded insertion choices judged by InsertionTrace.tla (TLC)"),
 "C11": (MC, "TLC model checking of Planner.tla (moves, termination); recorded local searches judged by SearchTrace.tla (TLC)"),
 "C12": (MC, "TLC model checking of Planner.tla (optimum at rest); recorded local searches judged by SearchTrace.tla (TLC)"),
 "C13": (MC, "TLC model checking of Compose.tla; all its behaviours replayed on the real composite methods; real composite runs judged by ComposeTrace.tla"),
 "C14": (EX, "objective values of real plans judged by ObjectiveTrace.tla (TLC)"),
 "C15": (EX, "criterion scores and rankings of real routes judged by CriterionTrace.tla (TLC)"),
 "C16": (MC, "TLC model checking of Planner.tla (windows); data as presented by the library judged by DataTrace.tla (TLC)"),
 "C17": (EX, "real exact plans judged by ExactTrace.tla, in which TLC enumerates every plan of the instance"),
 "C18": (EX, "loaded files judged by LoaderTrace.tla (TLC), which says what a file means"),
 "C19": (EX, "loaded files judged by LoaderTrace.tla (TLC), which says what a file means"),
 "C20": (EX, "written reports, read back, judged by ReportTrace.tla (TLC)"),
 "C21": (MC, "TLC model checking of Pipeline.tla; recorded histories of real solve runs with failures judged as its behaviours by PipelineTrace.tla"),
 "C23": (EX, "whole solve runs: the stored report judged against the rows of the file alone by EndTrace.tla (TLC)"),
 "C24": (EX, "finished pictures of plotted plans, read back, judged by GraphTrace.tla (TLC)"),
 "C25": (EX, "what real objects say about themselves judged by DescribeTrace.tla (TLC)"),
 "C26": (EX, "problems solved, stored and plotted again and again: recorded histories judged by CopyTrace.tla and PlanTrace.tla (TLC)"),
 "C22": (MC, "TLC model checking of Surface.tla; its histories replayed on real surfaces and judged by SurfaceTrace.tla"),
}
NOTE = {
 MC: "The specification is explored exhaustively by TLC within small bounds; the code is bound to it by replayed behaviours "
     "and validated traces over seeded random instances (see DESIGN.md), so the code itself is covered by sampling.",
 EX: "The specification is the oracle: TLC evaluates it on facts recorded from the real code over seeded random inputs; "
     "coverage of the code's inputs is by sampling (see DESIGN.md).",
}
checks = [dict(property=p, quick_cmd="%s %s --tier quick" % (PY, p), thorough_cmd="%s %s --tier thorough" % (PY, p),
               technique=t, level=l, level_note=NOTE[l]) for p, (l, t) in sorted(T.items())]
listed = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
assert listed == sorted(T), (listed, sorted(T))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
