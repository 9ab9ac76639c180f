#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that statements stay readable)."""
import json, os
M="jinete/models/"; A="jinete/algorithms/"; I=A+"heuristics/insertion/"; L=A+"heuristics/local_search/"; ME=A+"metaheuristics/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=list(observe)
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Each trip is served at most once and each vehicle drives one route",
  "Every plan returned by any solving method uses only vehicles of the given fleet, each in at most one route, and serves only requested trips, each of them at most once in the whole plan. Insertion, local-search and metaheuristic methods, and the exact method, return exactly one route (idle or loaded) for every vehicle of the fleet they started from.",
  ["inputs","configurations","histories"],"all instances, all solving methods and option combinations, all intermediate steps of the search that lead to the returned plan",
  "Tests solve a handful of small random instances and look at coverage or objective of the final result; none compares the multiset of served trips and vehicles after sequences of insertions, reallocations, reversals and restarts.",
  [I+"iterators/abc.py",I+"iterators/ranking.py",I+"iterators/stateless.py",I+"algorithm.py",L+"strategies/abc.py",L+"strategies/plannings/reallocation.py",L+"strategies/routes/two_opt.py",M+"plannings.py"],
  [("routes per vehicle map and removal of pending trips",I+"iterators/abc.py:_set_route"),("replacement of the improved routes by vehicle",L+"strategies/abc.py:_update_routes")],
  [("routes_container","current route of every vehicle",I+"iterators/abc.py"),("pending_trips","requested trips not served yet",I+"iterators/abc.py")],["Result.planning.routes"])
p("C02","Routes run depot to depot and visit each trip's places in order",
  "Every route of every returned plan starts at its vehicle's start place and ends at its end place, and its stops form one unbroken chain. Each trip on it is picked up at its requested origin and later, at a different stop of the same route and by the same vehicle, delivered at its requested destination, so the vehicle is empty again at the end.",
  ["inputs","configurations","histories"],"all instances (including repeated places, different start and end places, zero-load trips) and every solving method and option combination",
  "Existing tests append trips by hand or check counts; pairing, precedence and linkage after arbitrary insertion positions, removals, swaps and reversals are never checked.",
  [M+"routes.py",M+"stops.py",M+"planned_trips.py",I+"strategies/abc.py",L+"strategies/routes/one_shift.py",L+"strategies/routes/two_opt.py",A+"exacts/models/three_index.py"],
  [("stop insertion/removal relinks the chain",M+"routes.py:insert_stop_at/remove_stop_at"),("precedence guards of the moves",L+"strategies/routes")],
  [("stops","ordered stops of a route",M+"routes.py"),("previous","chain link between stops",M+"stops.py")],["Route.stops","Stop.previous","PlannedTrip.pickup/delivery"])
p("C03","Returned plans respect every limit of the instance",
  "In every plan returned by any solving method that is asked for feasible routes (the default), recomputing the visit times from the order of the stops and the announced start times shows, within the 0.001 tolerance: load never above the vehicle's capacity, each pickup and delivery started inside its requested time window, no rider on board longer than the trip's limit, route duration within the vehicle's limit, departure not before the vehicle's shift begins and arrival back not after it ends (every vehicle being able to drive straight from its start to its end within its own limits). For the exact method this is guaranteed when vehicles are identical, share one depot, work the standard day and all windows are finite.",
  ["inputs","configurations","histories"],"all instances and all solving methods, insertion strategies, ranking criteria, local-search strategies and their compositions",
  "Tests rely on the library's own cached verdict for a few instances; a stale or incomplete verdict is invisible to them, and violations need particular sequences of edits.",
  [M+"routes.py",M+"stops.py",M+"planned_trips.py",M+"constants.py",I+"strategies/abc.py",L+"strategies/routes/one_shift.py",L+"strategies/plannings/reallocation.py",ME+"grasp.py"],
  [("feasibility verdicts guard each accepted move",M+"routes.py:feasible"),("tolerance",M+"constants.py:ERROR_BOUND")],
  [("feasible","cached verdicts of stop, planned trip and route",M+"stops.py, planned_trips.py, routes.py")],["Result.routes"])
p("C04","Timetables and loads always follow from the current stops",
  "Along any route, a vehicle reaches each stop at the departure from the previous one plus the travel time (the first at the start of its shift), starts service at the latest of that arrival, the earliest time allowed by everything done there and any explicitly requested start, and leaves after the longest service time needed there; waiting, distances, route duration and the load on board follow the same recurrence. This holds after any history of adding and removing stops or trips, requesting start times followed by a refresh, cloning and reading values in between; a stop whose predecessor is not on the route is refused and changes nothing.",
  ["inputs","histories"],"all instances and all finite histories of route edits interleaved with reads, on the edited route and on its copies",
  "Values are cached per stop; tests read each value once right after one edit, so a forgotten invalidation for some edit position, or after a read at the wrong moment, goes unnoticed.",
  [M+"stops.py",M+"routes.py",M+"planned_trips.py"],
  [("cached properties dropped by flush",M+"stops.py:flush"),("edits flush the tail of the route",M+"routes.py:insert_stop_at/remove_stop_at/remove_trip")],
  [("arrival_time, departure_time, capacity","cached timetable and load of each stop",M+"stops.py"),("_starting_time","explicitly requested start",M+"stops.py")],["Stop.*_time","Stop.capacity","Route.duration","Route.distance","Route.waiting_time"])
p("C05","Feasibility verdicts are exact for the current content",
  "A route, planned trip, plan or result is reported feasible exactly when its present stops and timetable satisfy every limit (places of start and end, shift, route duration, and for every trip on it the windows, load and ride time) within the 0.001 tolerance. The verdict never depends on when or how often it was asked before, and a plan without routes is feasible.",
  ["inputs","histories"],"all well-formed routes and plans, including boundary values around the tolerance, after any history of edits and earlier verdict queries",
  "Verdicts are cached at three levels; the tests query them once on fresh objects and mostly on clearly feasible or clearly infeasible data, never on both sides of each limit after edits.",
  [M+"routes.py",M+"stops.py",M+"planned_trips.py",M+"plannings.py",M+"results.py",M+"constants.py"],
  [("verdict predicates",M+"routes.py:feasible, stops.py:feasible, planned_trips.py:feasible"),("invalidation",M+"routes.py:flush and stops.py:flush")],
  [("feasible","cached verdicts",M+"routes.py, stops.py, planned_trips.py")],["Route.feasible","PlannedTrip.feasible","Stop.feasible","Planning.feasible","Result.feasible"])
p("C06","Insertion search offers exactly the valid insertions of a trip",
  "Asked to insert trips into a route, the search returns routes that equal the given one with one of those trips added, all earlier stops kept in their order, and, when only feasible routes are requested, no infeasible one. The exhaustive strategy tries each pair of pickup/delivery positions exactly once per trip, the tail strategy only the end of the route, and the sampling strategy distinct valid position pairs, as many as asked for or all when there are no more; a position pair whose plain insertion respects every limit is never lost. Timing is improved only by leaving the depot later by the wait at the first stop and, if limits still fail, by delaying pickups by the excess of their ride.",
  ["inputs","configurations"],"all feasible base routes (including delayed departures and requested starts), all trips and sets of trips, all strategies and options, all numbers of stops",
  "Tests count the returned routes on one or two examples; they never compare the set of returned routes with the set of valid insertions, nor orders and timetables of each.",
  [I+"strategies/abc.py",I+"strategies/intensive.py",I+"strategies/sampling.py",I+"strategies/tail.py","jinete/utils/random.py",M+"routes.py"],
  [("position pair enumeration",I+"strategies/*.py, jinete/utils/random.py"),("building of one candidate",I+"strategies/abc.py:_compute_one")],
  [],["InsertionStrategy.compute"])
p("C07","Cloning a route reproduces it from any cut point",
  "A clone of a route taken from any cut point has the same vehicle, the same sequence of stops with the same trips, timetable, load, distance and verdict as the original, and its own copy of every stop from that point on, so later edits of the clone from that point on change nothing in the original and vice versa; the same edits made on both give the same route. A deep copy of a plan or result has the same content and shares no route or stop with its source.",
  ["inputs","histories"],"all routes (trips overlapping the cut point, several trips per stop, requested starts), all cut points, all later edit histories on either copy",
  "Tests clone two example routes at a few indices and compare shapes; aliasing between copies only shows after later edits at particular positions.",
  [M+"routes.py",M+"plannings.py",L+"strategies/abc.py"],
  [("cut point moved back until no trip straddles it",M+"routes.py:RouteCloner"),("deep copies",M+"routes.py:__deepcopy__, plannings.py:__deepcopy__")],
  [("mapper","old planned trip to new planned trip",M+"routes.py:RouteCloner")],["Route.clone","copy.deepcopy(Planning/Result)"])
p("C08","Searching never alters the plan or route it starts from",
  "Computing insertions on a route, running an insertion from an initial result, or running a local search or metaheuristic from an initial result leaves that route or result exactly as it was: same stops and trips, same timetable, loads, verdicts and objective value. Routes offered earlier by the same search are likewise not altered by computing or accepting later ones on the same vehicle or others.",
  ["inputs","histories","configurations"],"all routes and results used as a starting point, all strategies, all sequences of later computations",
  "Routes share stops for speed; tests never re-inspect the starting point after the search, and corruption only appears for particular waiting times and positions.",
  [I+"strategies/abc.py",I+"iterators/abc.py",M+"routes.py",L+"strategies/abc.py",L+"algorithm.py"],
  [("partial clone before editing",I+"strategies/abc.py:_compute_one"),("deep copy of the initial plan",I+"iterators/abc.py, "+L+"strategies/abc.py")],
  [],["Route given to InsertionStrategy.compute","initial Result"])
p("C09","Insertion keeps exact account of pending trips and stops only when stuck",
  "At every step of an insertion run the pending trips are exactly the requested trips not on any current route; each step changes one vehicle's route by adding one pending trip and never removes or moves to another vehicle a trip already served. The run terminates, and (identical vehicles, exhaustive position search, candidate limit not below the number of trips) it terminates only when no pending trip has any feasible insertion left into any vehicle's current route.",
  ["inputs","histories","configurations"],"all instances, all iteration schemes, strategies and criteria, from scratch or from an initial result covering the fleet",
  "Tests check coverage on instances where everything fits; lost trips, missed vehicles or premature stops depend on the order of insertions.",
  [I+"iterators/abc.py",I+"iterators/ranking.py",I+"iterators/stateless.py",I+"algorithm.py"],
  [("pending bookkeeping",I+"iterators/abc.py:_set_route"),("ranking refresh after each insertion",I+"iterators/ranking.py:_update_ranking")],
  [("pending_trips","not served yet",I+"iterators/abc.py"),("ranking","candidate routes per vehicle",I+"iterators/ranking.py")],["InsertionIterator.pending_trips","InsertionIterator.routes_container","InsertionIterator.__next__"])
p("C10","Greedy insertion always takes the best candidate by the chosen criterion",
  "With no randomisation, every step of the ranking and of the best-candidate insertion scheme takes a feasible insertion that no other feasible insertion of a pending trip into the offered vehicles beats under the chosen criterion. With randomisation k, the best-candidate scheme takes one of the k best insertions overall and the ranking scheme one of the k best of some vehicle.",
  ["inputs","histories","configurations"],"all instances with at most the candidate limit of trips, all criteria, all steps of the run, randomisation sizes 1..4",
  "Tests check single scores and that a result appears; they never compare the accepted step with all alternatives, and stale rankings only appear after several insertions.",
  [I+"iterators/ranking.py",I+"iterators/stateless.py",M+"criterions.py",M+"constants.py"],
  [("sorted sub rankings per vehicle",I+"iterators/ranking.py"),("n best",M+"constants.py:OptimizationDirection.nbest")],
  [("ranking","candidate routes per vehicle, kept up to date",I+"iterators/ranking.py")],["InsertionIterator.__next__"])
p("C11","Local search never worsens a plan nor loses served trips",
  "Local search started from a feasible result returns a feasible plan that serves exactly the same trips with the same fleet and whose objective value is at least as good as the initial one. If nothing improves, the returned plan equals the initial one, and the search always terminates.",
  ["inputs","histories","configurations"],"all feasible initial results (greedy, randomised, improved before), all three local-search strategies, all objectives, any patience",
  "Tests run each strategy once on one instance and only check the type of the result; accepting a worse, infeasible or duplicated route needs particular geometry and windows.",
  [L+"algorithm.py",L+"strategies/abc.py",L+"strategies/plannings/reallocation.py",L+"strategies/routes/one_shift.py",L+"strategies/routes/two_opt.py",M+"objectives.py"],
  [("acceptance by objective",L+"algorithm.py:_optimize"),("feasibility check of each move",L+"strategies")],
  [("best","incumbent result",L+"algorithm.py")],["LocalSearchAlgorithm.optimize","LocalSearchStrategy.improve"])
p("C12","Local search stops only at a local optimum of its neighbourhood",
  "When local search (travel-distance objective) stops, no single move of its neighbourhood yields a feasible plan with a strictly better objective value: for reallocation no trip can move to any position pair of another vehicle's route of at most sixteen stops (positions of longer routes are sampled), for adjacent swaps no two neighbouring stops can be exchanged, and for reversals no block of three or more consecutive stops can be reversed. Reallocation moves within one pass are the best available one.",
  ["inputs","configurations"],"all feasible initial results with routes of at most sixteen stops, all three strategies",
  "Needs comparing the final plan with every neighbour; tests check only that a result is returned.",
  [L+"algorithm.py",L+"strategies/plannings/reallocation.py",L+"strategies/routes/one_shift.py",L+"strategies/routes/two_opt.py"],
  [("neighbourhood enumeration",L+"strategies"),("repeat until no improvement",L+"algorithm.py:_optimize")],
  [],["LocalSearchAlgorithm.optimize"])
p("C13","Composite methods keep the best result and pass it on",
  "An iterated method runs exactly the requested number of episodes, with a new seed each, and returns the plan of the best episode, the earliest among equals; without restarts every episode after the first starts from the best so far, so quality never drops. A sequential method starts each stage from the previous stage's result, in order, and returns the last one; GRASP builds a first solution and then improves it, honouring the options given for each part, and its plan is, by the dial-a-ride objective, never worse than its first solution of that episode.",
  ["inputs","histories","configurations"],"all sequences of episode outcomes (values, ties), all episode counts, restart modes, stage lists and option combinations",
  "Tests run the composites with the default parts on one instance; selection among arbitrary sequences of outcomes and hand-over of intermediate results are never exercised.",
  [ME+"iterative.py",ME+"sequential.py",ME+"grasp.py",A+"abc.py",M+"objectives.py"],
  [("best-of loop",ME+"iterative.py:_optimize"),("stage chaining",ME+"sequential.py:_optimize"),("composition",ME+"grasp.py")],
  [("best","incumbent result over the episodes",ME+"iterative.py"),("current","result handed from stage to stage",ME+"sequential.py")],["Algorithm.optimize","arguments of the inner algorithms"])
p("C14","Objective values follow their definitions at every level",
  "Dial-a-ride value is (trips served, minus total distance driven), taxi-sharing value is the total riding time of trips with load, and HashCode value is, for trips with load, the trip distance plus the bonus when its pickup is completed exactly at its earliest time; a route's value sums its trips, a plan's its routes and a result's its plan. Better means lexicographically larger and among equals the first argument is kept, absent ones being ignored.",
  ["inputs","configurations"],"all routes, plans and results (idle routes, zero-load trips, several trips per stop), all objectives, all comparison argument lists",
  "Tests evaluate one fixed route set per objective; sums over idle or mixed routes and ties are not covered.",
  [M+"objectives.py",M+"results.py",M+"constants.py"],
  [("hierarchical sums",M+"objectives.py"),("selection",M+"objectives.py:best")],[],["Objective.optimization_function","Objective.best","Result.optimization_value"])
p("C15","Route criteria score and rank routes by their definitions",
  "For a feasible route the criteria score: last departure (smaller better), mean ride duration with 0 for an idle route (smaller better), route duration (shorter or longer better, respectively), sum of direct trip distances (larger better), and that sum plus bonuses for pickups completed exactly at their earliest time (larger better); infeasible routes score worst. Picking the best, sorting and picking the n best order routes by that score, keeping the given order among equals.",
  ["inputs","configurations"],"all routes, feasible or not, all criteria, all lists of routes with ties",
  "Tests score three hand-made routes per criterion, without infeasible ones, waits, delayed starts or ties.",
  [M+"criterions.py",M+"constants.py",M+"routes.py"],
  [("scoring functions",M+"criterions.py"),("ordering",M+"constants.py:OptimizationDirection")],[],["RouteCriterion.scoring/best/sorted/nbest"])
p("C16","Derived trip windows and result statistics follow from the data",
  "A trip's usable pickup and delivery windows are the requested ones tightened by each other through travel time, pickup service time and ride limit, so that they are never looser and exclude no visit times which respect the request; defaults (unbounded window, zero service time, unit load, end place equal to start place) apply when data is omitted. A result's completed trips are the requested trips with load on its routes, its coverage is their share of the requested trips (1 for an empty request), and plan and route counts of trips, loaded routes and vehicles agree with their content.",
  ["inputs"],"all combinations of windows, durations, limits (including unbounded) and travel times; all plans",
  "Tests fix a few numeric examples with mostly default values.",
  [M+"trips.py",M+"services.py",M+"vehicles.py",M+"results.py",M+"plannings.py",M+"routes.py"],
  [("window tightening",M+"trips.py"),("statistics",M+"results.py, plannings.py")],[],["Trip.*","Vehicle.*","Result.completed_trips","Result.coverage_rate"])
p("C17","The exact method returns a shortest plan serving every trip",
  "For instances in the model's domain (identical vehicles with one shared depot and the standard day of 1440, finite windows, loads that fit a vehicle, positive travel or service time between visits) the exact method serves every trip with the least total travel distance any feasible plan serving all of them can have. If no feasible plan serves all trips it returns idle routes for the whole fleet.",
  ["inputs"],"all instances of the domain, here with up to three trips and two vehicles enumerated by the specification",
  "The single test compares one four-trip instance with a fixed number; optimality against all other plans is not tested.",
  [A+"exacts/milp.py",A+"exacts/models/three_index.py",A+"exacts/models/abc.py"],
  [("three-index formulation",A+"exacts/models/three_index.py:_constraints/_objective"),("reconstruction of routes",A+"exacts/models/three_index.py:_solution_to_routes")],[],["MilpAlgorithm.optimize"])
p("C18","Cordeau-Laporte files are loaded faithfully",
  "Loading a file in the Cordeau-Laporte format yields as many vehicles as its header says, all starting and ending at the depot with the header's capacity and route duration limit and no other limit, and one trip per request, numbered from one in file order, pairing the i-th pickup row with the i-th delivery row: places, windows, service times, load and the header's ride limit. Distances are Euclidean and the objective is the dial-a-ride one.",
  ["inputs"],"all well-formed files: any number of vehicles and requests, any numeric values, spacing",
  "Tests use one generated file shape with shared values, so swapped columns or rows with equal values pass.",
  ["jinete/loaders/file.py","jinete/loaders/formatters/cordeau_laporte.py","jinete/loaders/abc.py"],
  [("row parsing","jinete/loaders/file.py:_data"),("row to object mapping","jinete/loaders/formatters/cordeau_laporte.py")],[],["FileLoader.fleet/job/surface"])
p("C19","HashCode files are loaded faithfully",
  "Loading a HashCode 2018 file yields as many unit-capacity vehicles as its header says, based at the origin corner with a shift ending at the time horizon, and one unit-load trip per ride, numbered from zero in file order: corner to corner, not startable before the earliest start, to be finished by the latest finish, with the header's bonus for starting on time. Distances are Manhattan and the objective is the HashCode one.",
  ["inputs"],"all well-formed files: any header and ride values",
  "Tests use one generated file and compare few fields.",
  ["jinete/loaders/file.py","jinete/loaders/formatters/hashcode.py"],
  [("row to object mapping","jinete/loaders/formatters/hashcode.py")],[],["FileLoader.fleet/job/surface"])
p("C20","Written reports state exactly what the plan contains",
  "The HashCode report has one line per loaded route (or per route when asked): the number of trips with load and their identifiers in pickup order, lines sorted. The columnar report states the plan's number of routes, each route's vehicle, trips and stops with their times, and the plan's coverage, objective value and feasibility; the file storer writes exactly the formatted text and the prompt storer prints it.",
  ["inputs","configurations"],"all results, formatters and formatter options",
  "Tests check that a non-empty text is produced or compare one example.",
  ["jinete/storers/formatters/hashcode.py","jinete/storers/formatters/columnar.py","jinete/storers/formatters/abc.py","jinete/storers/file.py","jinete/storers/prompt.py","jinete/storers/sets.py"],
  [("formatting","jinete/storers/formatters")],[],["StorerFormatter.format","Storer.store"])
p("C21","Solving loads, optimises and stores exactly once, with the given options",
  "One solve run builds the loader, the solving method and the storer once each with exactly the options configured for it, gives the method the loaded fleet and job, stores the result the method produced after it has produced it, and returns that same result. A storer set stores the same result once through each of its storers; a second run starts afresh and a failing part stops the run before later parts act.",
  ["histories","configurations","fault_sequences"],"all combinations of loader, method, storer, dispatcher and options, repeated runs, and failures at each stage",
  "Tests run the pipeline once per part with mocks or defaults; orders, repetition and failures are not covered.",
  ["jinete/solvers.py","jinete/dispatchers/abc.py","jinete/dispatchers/static.py","jinete/storers/sets.py","jinete/storers/abc.py","jinete/loaders/abc.py"],
  [("pipeline","jinete/dispatchers/static.py:run"),("option binding","jinete/solvers.py")],[],["Solver.solve","arguments and order of the parts' calls"])
p("C22","Distances and travel times are the metric, whatever was asked before",
  "On a surface the distance and travel time between two places is the chosen metric of their coordinates (Manhattan or Euclidean), so it is zero exactly from a place to itself, symmetric, and independent of earlier queries and of which equal place object is used. Asking again for coordinates already known creates no new place, places are equal, and interchangeable, exactly when their coordinates are equal, and so are services with the same place, window and duration.",
  ["inputs","histories"],"all coordinate sets and dimensions, all query histories on one or several surfaces",
  "Distances are cached; tests query a few pairs once.",
  [M+"surfaces.py",M+"positions.py",M+"constants.py",M+"services.py"],
  [("distance cache",M+"surfaces.py:GeometricSurface.distance"),("place identity",M+"positions.py:__eq__/__hash__")],
  [("cached_distance","memo of the metric",M+"surfaces.py")],["Position.distance_to/time_to","Surface.get_or_create_position"])
p("C23","A solved file is reported as a valid plan of that file with its true value",
  "Whatever well-formed problem file, solving method, options, formatter and storer are combined in one solve run, the report it leaves is about that file: it names only the file's vehicles and requests, each vehicle and request at most once, its stops are at the file's places in an order in which every request is picked up before it is delivered, and its announced times follow from driving between them and respect every limit in the file. The coverage, value and feasibility it states are those of that plan; a HashCode report, played by the rules of the contest, serves every ride it lists in time and earns at least the value claimed.",
  ["inputs","configurations"],"all files of both formats, insertion, iterative, sequential and randomised methods with any options, both report formats, prompt, file and combined storers, repeated runs",
  "Tests solve one small generated instance per method and only look at types; no test follows a plan from the file to the report.",
  ["jinete/solvers.py","jinete/dispatchers/static.py","jinete/loaders","jinete/storers",A+"heuristics",A+"metaheuristics",M],
  [("pipeline","jinete/dispatchers/static.py:run"),("reading and writing","jinete/loaders/formatters, jinete/storers/formatters"),("solving",A)],[],["Solver.solve","text of the stored report"])
p("C24","A plotted plan shows exactly that plan",
  "The picture of a plan in the plane has one dot at each place which is requested by a trip or visited by a route, and no other, at its own coordinates; one arrow for each ordered pair of places that some route visits one after the other, and no other, in the colour of a route that drives it, different routes having different colours; and on each requested place a label naming a trip picked up there (+) or delivered there (-). It is kept at the given path, or shown if there is none, exactly once, and neither depends on what was plotted before nor changes the plan.",
  ["inputs","histories"],"all plans over plane places, including idle routes, shared places and empty plans, plotted one after the other, alone or in a storer set",
  "The only test checks that a graph object is created; what is drawn is never looked at.",
  ["jinete/storers/plots/graph.py","jinete/storers/abc.py","jinete/storers/sets.py"],
  [("drawing","jinete/storers/plots/graph.py:_generate_edges/_generate_nodes/_show_graph")],
  [("current figure","the canvas of the plotting library, shared by all plots","jinete/storers/plots/graph.py")],["GraphPlotStorer.store","the finished figure"])
p("C25","Descriptions state the current content and change nothing",
  "The name of a stop lists the trips picked up there and then those delivered there, and a route's name those of its stops in order. The data listed by a service, trip, vehicle, fleet, request, surface, stop, planned trip, route, plan or result is its own current data (identifiers, places, windows, durations, loads, limits, verdict, stops and vehicles), printing shows it, and neither listing nor printing changes the object or any later answer about a plan.",
  ["inputs","histories"],"all plans and their parts, whenever they are described or printed",
  "Tests compare the listings of single hand-made objects; names of stops shared by trips and effects on later answers are not covered.",
  [M+"abc.py",M+"stops.py",M+"routes.py",M+"planned_trips.py",M+"trips.py",M+"vehicles.py",M+"results.py",M+"plannings.py",M+"jobs.py",M+"services.py"],
  [("listing",M+"abc.py:__repr__ and every __iter__"),("names",M+"stops.py:identifier, routes.py:identifier")],[],["dict(model)","repr(model)","Stop.identifier","Route.identifier"])
p("C26","A problem and its options are only read, so it can be solved again",
  "Solving a problem with any method, from scratch or from an earlier result, and formatting, storing or plotting a result, leave everything the user handed over as it was: the fleet, its vehicles and the requests (who is in them, places, windows, loads, limits, bonus, distances, objective) and the options given for the method, nested ones included. Earlier results on the same problem stay as they were, each with its own fleet and request. So the same method, with the same options, can be applied again to the same fleet and job, also after some more requests have become known, and gives a valid plan every time.",
  ["histories","inputs","configurations"],"all sequences of solving methods, options, storers and plots applied to one problem, with option dicts and earlier results used again",
  "Tests build a fresh problem and fresh options for every single run and never look at them afterwards.",
  [A+"heuristics",A+"metaheuristics",A+"exacts",A+"abc.py",M+"jobs.py",M+"vehicles.py",M+"trips.py",M+"services.py","jinete/storers"],
  [("requests still to be served",A+"heuristics/insertion/iterators/abc.py"),("options handed down",A+"metaheuristics/grasp.py, sequential.py, iterative.py"),("results",M+"results.py")],[],["Fleet, Job, Trip, Vehicle and Service data","option dicts","Result"])
for d in P: assert len(d["title"])<=80,d["id"]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
