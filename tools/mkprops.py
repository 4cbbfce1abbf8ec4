import json
DF="data_formatting/data_formatting/"
RS="railway_solvers/railway_solvers/"
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,title
    return d
L=[]
SHIP="The tests read a few trains of the shipped schedule files and compare literal values; "
L.append(P("C01","Reading a schedule file loses and invents nothing",
 "For every well-formed schedule file, the loaded timetable has exactly the trains of the file, each with its own type, name and destinations and exactly its own block rows, in file order. Every filled cell keeps its value, every empty cell stays empty, and the raw table is not modified.",
 ["inputs"],"every well-formed schedule file: any number of trains, any route length including none, any pattern of filled and empty cells",
 SHIP+"no test writes a file of its own, so other layouts, orders and texts are never read.",
 [DF+"time_table_check.py"],[("timetable_to_train_dict and the header/row splitting",DF+"time_table_check.py")],["data_formatting.timetable_to_train_dict"]))
L.append(P("C02","Running times of blocks follow the network table, impossible moves fail",
 "For every train whose consecutive blocks are connected in the network table, each block's running time is the table's entry for that ordered pair of blocks, for the actual direction of travel and the train's speed class, and each block is labelled with the station it belongs to. A move the table does not contain, or marks as impossible, is refused instead of being given a time.",
 ["inputs"],"every network table, every route over it in either direction, every assignment of speed classes to blocks, and every route with a move that is not in the table",
 SHIP+"other networks, reversed rows, mixed speed classes and impossible moves are not generated.",
 [DF+"time_table_check.py",DF+"utils.py"],[("get_passing_time_4singleblock, get_passing_time_4all_blocks, update_all_timetables",DF+"utils.py")],["data_formatting.update_all_timetables","data_formatting.get_passing_time_4singleblock"]))
L.append(P("C03","A train's itinerary of stations matches its block route",
 "For every train the reported sequence of stations, the next station, its terminal station, the blocks it uses at and between stations, and the trains present at or departing from a station are those its block route implies. For every two trains, the reported common stations, common blocks between two stations and same/opposite direction are exactly those their routes imply.",
 ["inputs"],"every set of trains on every network, every pair of trains and every pair of stations",
 SHIP+"most pairs of trains, stations off the route and partly shared routes are not queried.",
 [DF+"utils.py",DF+"time_table_check.py",DF+"make_J_taus.py"],[("get_Paths, subsequent_station, get_blocks_b2win_station4train, common block search",DF+"utils.py"),("get_skip_stations",DF+"make_J_taus.py")],["data_formatting.get_Paths","data_formatting.get_skip_stations","data_formatting.get_trains_at_station"]))
L.append(P("C04","Impossible routes are refused, possible ones accepted",
 "For every list of blocks, the route check passes when each block is connected with the next one in the network table, and raises an error otherwise.",
 ["inputs"],"every route and every network table: valid routes and routes with a block dropped, replaced, swapped, added or unknown, and tables with rows removed",
 "The tests feed the shipped valid routes only; which broken routes slip through is a question about all of them.",
 [DF+"time_table_check.py",DF+"utils.py"],[("check_path_continuity",DF+"time_table_check.py")],["data_formatting.check_path_continuity"]))
L.append(P("C05","Minimal running, stopping and turnaround times add up",
 "For every train and every pair of consecutive stations the minimal running time is the sum of the running times of the blocks between them; for every station the train leaves after arriving, the minimal stop is the running time of its station block plus a turnaround given there; the turnaround of a train that starts at a station is its preparation time. Results are exact, or rounded to the nearest minute when whole minutes are asked for.",
 ["inputs","configurations"],"every set of trains on every network, with turnarounds at any stations, exact and rounded",
 SHIP+"a turnaround at a station other than the first one is never examined.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("get_taus_pass, get_taus_stop, get_taus_prep, minimal_stay",DF+"make_J_taus.py")],["data_formatting.get_taus_pass","data_formatting.get_taus_stop","data_formatting.get_taus_prep"]))
L.append(P("C06","The headway keeps a following train clear of the one in front",
 "For every ordered pair of trains running between the same consecutive stations over the same blocks, the headway is the smallest time offset at which, both running freely, the second train never enters a block before the first has cleared the required number of blocks ahead. A headway is given for every such ordered pair and is zero when no block is shared.",
 ["inputs"],"every pair of trains with any running times over any number of blocks, every leg including those with shortened spacing",
 SHIP+"the maximum over all block prefixes is a claim about every combination of running times.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("get_taus_headway, minimal_headway",DF+"make_J_taus.py")],["data_formatting.get_taus_headway"]))
L.append(P("C07","Following trains are grouped exactly by shared route",
 "For every two consecutive stations, the trains running from the first to the second are partitioned into groups such that two trains are in one group if and only if they use the same blocks between the stations. Every such train is in exactly one group.",
 ["inputs"],"every set of trains on every network, including parallel and partly shared tracks and stations with nothing in between",
 SHIP+"no test has partly shared parallel routes.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("jd",DF+"make_J_taus.py")],["data_formatting.jd"]))
L.append(P("C08","Trains meeting head-on on one track are always paired",
 "Two trains are listed as a single-track conflict between two stations if and only if they run between these stations in opposite directions over the same blocks; each such pair is listed once, under the direction of travel of the train listed first. Trains that share only some of the blocks are outside the supported input.",
 ["inputs"],"every set of trains on every network, in any listing order, including trains that start or end at either station",
 SHIP+"whether any pair is missed depends on all combinations of routes and terminals.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("josingle",DF+"make_J_taus.py")],["data_formatting.josingle"]))
L.append(P("C09","Trains using the same station track are always grouped",
 "For every station, two trains are in one group of the track-occupation set if and only if they use the same track block of that station; every train passing the station is in exactly one group. Depot tracks and depots, where trains do not exclude one another, yield no groups.",
 ["inputs"],"every set of trains on every network, any number of tracks per station",
 SHIP+"stations with several tracks and many trains are a small sample of the possible assignments.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("jtrack",DF+"make_J_taus.py")],["data_formatting.jtrack"]))
L.append(P("C10","Trains passing a common switch are always paired",
 "For every station, the set of switches reported for a train entering or leaving is the one in the network table for that move, however the cell is written. A pair of movements of two different trains is listed as a switch conflict if and only if their switch sets intersect, except that a move between a main station and its own adjacent station part is counted once, at the main station, and moves within a depot are not counted.",
 ["inputs"],"every set of trains on every network, every content of switch cells (lists, single numbers, decimals, empty)",
 SHIP+"entries reached by no tested train, such as single numbers, are never evaluated.",
 [DF+"make_switch_set.py",DF+"make_J_taus.py"],[("z_in, z_out",DF+"make_switch_set.py"),("jswitch",DF+"make_J_taus.py")],["data_formatting.jswitch","data_formatting.z_in","data_formatting.z_out"]))
L.append(P("C11","Rolling-stock circulation pairs are found and ordered correctly",
 "Every train whose number is another train's number with the shunting suffix is paired with it, and no other trains are. The pair is listed at the station where one train ends and the other begins, the ending train first; a pair that does not meet at any station is refused.",
 ["inputs"],"every set of trains, any listing order, stock brought in or taken away by the shunting train, and pairs that do not meet",
 SHIP+"only the two shipped pairs are seen, never a pair that fails to meet.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("get_jround, get_trains_pair9",DF+"make_J_taus.py")],["data_formatting.get_jround"]))
L.append(P("C12","Scheduled and initial departures are minutes from the reference time",
 "For every train and reference time, the schedule gives for each station with a listed departure its offset in minutes from the reference time, negative when earlier. The initial condition is given for the first station of each train and no other: its listed departure there, or else its estimated entry, in the same convention, or zero when neither is listed.",
 ["inputs","configurations"],"every pattern of arrival, departure and estimated times and every reference time of a day",
 SHIP+"one reference time is used.",
 [DF+"scheduling_tools.py",DF+"make_J_taus.py"],[("get_schedule, get_initial_conditions",DF+"scheduling_tools.py")],["data_formatting.get_schedule","data_formatting.get_initial_conditions"]))
L.append(P("C13","A delay is added to the named train and to no other",
 "Adding a delay to a train raises the start time of exactly that train by exactly that delay, whatever the numbers of the other trains are, leaves everything else as it was and does not modify its input.",
 ["inputs","histories"],"every set of trains including numbers containing the digits of one another, every sequence of delays",
 "The tests add one delay to one shipped train whose number is not contained in another one.",
 [DF+"scheduling_tools.py",DF+"utils.py"],[("add_delay",DF+"scheduling_tools.py")],["data_formatting.add_delay"]))
L.append(P("C14","Objective weights follow train category, empty stock counts separately",
 "Every train gets exactly one weight, at the last station it departs from, determined by its category; a train that only moves empty rolling stock for another one gets the empty-stock weight, and no other train does.",
 ["inputs","configurations"],"every set of trains of all categories, any train numbers, any weight values",
 SHIP+"train numbers that resemble a shunting number are not tried.",
 [DF+"scheduling_tools.py",DF+"make_J_taus.py"],[("make_weights",DF+"scheduling_tools.py")],["data_formatting.make_weights"]))
NO="The tests of this part cannot even be loaded here and elsewhere compare a handful of hand-made problems; "
H=RS+"helpers_functions.py"; LS=RS+"linear_solver.py"
L.append(P("C15","Earliest departures respect running times, stops, schedule and stock",
 "For every problem, the earliest departure of a train from a station is the largest of its initial or scheduled time there and the time it gets there from its previous station running and stopping as fast as allowed. No departure earlier than it is ever proposed.",
 ["inputs"],"every problem: any routes, times, schedules, initial conditions, stock hand-overs",
 NO+"recursion over hand-overs and stations is seen on short chains only.",
 [H],[("earliest_dep_time, tau, previous_station",H)],["railway_solvers.earliest_dep_time","railway_solvers.tau"]))
L.append(P("C16","Every solution of the integer program is free of conflicts",
 "For every dispatching problem, any assignment that satisfies the generated integer program corresponds to a timetable in which headways, opposing traffic on single tracks, station-track occupation, switch use, minimal stops and running times and rolling-stock hand-overs are all respected, and no train departs before its earliest time or later than the allowed delay.",
 ["inputs","schedules"],"every dispatching problem and every timetable (assignment of delays) for it",
 NO+"they check optima of single problems, not that no conflicting timetable satisfies the constraints.",
 [LS,H],[("create_linear_problem and its constraint builders",LS)],["railway_solvers.create_linear_problem"],
 [("delay variables","delay of a train's departure beyond its earliest time",LS),("order variables","which of two trains goes first",LS)]))
L.append(P("C17","Every conflict-free timetable is admitted by the integer program",
 "For every dispatching problem, a timetable within the allowed delays that respects all traffic rules satisfies the generated integer program for some choice of train orders. Nothing is forbidden that the rules allow, in particular constraints dropped or bounded because of the delay limit never exclude a valid timetable.",
 ["inputs","schedules"],"every dispatching problem and every conflict-free timetable for it",
 NO+"over-restriction shows only on timetables that no test enumerates.",
 [LS,H],[("create_linear_problem: big-M values and dropped constraints",LS)],["railway_solvers.create_linear_problem"]))
L.append(P("C18","The optimum is the least weighted delay of all conflict-free timetables",
 "For every dispatching problem with a conflict-free timetable, solving the generated program gives the minimal weighted sum of delays relative to the maximal delay; problems without one are reported infeasible. The value does not depend on the order in which trains and groups are listed.",
 ["inputs"],"every dispatching problem, every permutation of trains and groups",
 NO+"the optimum of generated problems is not compared with an independent search.",
 [LS,H],[("create_linear_problem, objective",LS)],["railway_solvers.create_linear_problem"]))
L.append(P("C19","The reported result is the solution that was found",
 "For every solved problem, the reported delay, actual departure time and conflict-free time of each train at each station, and its share of the objective, are those of the solution, and the shares add up to the objective.",
 ["inputs"],"every dispatching problem and every feasible solution of it",
 NO+"reports for terminal stations, handed-over trains and free trains are rarely examined.",
 [LS,H,"helpers.py"],[("delay_and_acctual_time, impact_to_objective, return_delay_and_acctual_time",LS)],["railway_solvers.delay_and_acctual_time","helpers.print_optimisation_results"]))
L.append(P("C20","The constrained quadratic model says the same as the integer program",
 "For every integer program of the kind generated, and for every assignment of its variables, the converted constrained model has the same objective value and satisfies exactly the constraints that the program satisfies; the variables keep their names, kinds and bounds.",
 ["programs","inputs"],"every generated program and every assignment of its variables within and at the bounds",
 NO+"they count constraints of a few converted problems.",
 [RS+"converter_cqm.py"],[("convert_to_cqm, constraint_to_quadratic_model",RS+"converter_cqm.py")],["railway_solvers.convert_to_cqm"]))
L.append(P("C21","Lowest energy of the unconstrained model is the optimum of the program",
 "For every integer program of the kind generated and a penalty weight p, the energy of any bit assignment equals the objective plus p times the sum of squared constraint residuals with slack, so a feasible assignment has a completion whose energy is its objective. With p large enough, minimal energy assignments decode to optimal solutions.",
 ["programs","inputs","configurations"],"every generated program, every bit assignment, every penalty weight",
 NO+"they sample single problems with a randomised annealer.",
 [RS+"converter_bqm.py"],[("convert_to_bqm, convert_to_pyqubo, LogEncInteger slack",RS+"converter_bqm.py")],["railway_solvers.convert_to_bqm","railway_solvers.convert_to_pyqubo"]))
L.append(P("C22","Decoding a sample gives back the program's variables",
 "For every bit assignment of the unconstrained model, interpreting it gives a value for every variable of the integer program, within the bounds encoded, and only those; feeding back an encoded feasible solution returns that very solution.",
 ["programs","inputs"],"every generated program and every bit assignment",
 NO+"decoding is exercised only on samples of an annealer for fixed problems.",
 [RS+"converter_bqm.py"],[("interpreter of convert_to_bqm",RS+"converter_bqm.py")],["railway_solvers.convert_to_bqm"]))
RM=RS+"results_manipulation.py"
L.append(P("C23","Samples are judged and ranked by what the program says about them",
 "For every set of samples, the reported objective, feasibility, number of broken constraints and number of samples are those of the integer program for that sample; results are ranked by objective. The sample chosen as best is a feasible one with the least objective, or one of least energy when none is feasible.",
 ["programs","inputs"],"every generated program and every collection of samples: feasible, infeasible, mixed, repeated",
 NO+"mixed and infeasible collections of samples are not generated.",
 [RM],[("analyze_constraints, get_results, get_best_feasible_sample, count_quality, sorting",RM)],["railway_solvers.get_results","railway_solvers.get_best_feasible_sample"]))
L.append(P("C24","Solvers receive the problem and settings asked for, answers come back intact",
 "For every method, the chosen solver is given exactly the model of the problem and the read count, sweep count, time limit and other settings asked for, and the samples it returns come back decoded to the variables of the program, unchanged in number and content.",
 ["configurations","inputs"],"every method (annealing simulation, annealer, hybrid solvers), every setting, every returned sample set",
 "The tests would need remote services; only one simulator with default settings is ever called.",
 [RS+"d_wave_solves.py","helpers.py"],[("sim_anneal, real_anneal, hybrid_anneal, constrained_solver",RS+"d_wave_solves.py"),("solve_on_quantum",'helpers.py')],["railway_solvers.sim_anneal","railway_solvers.real_anneal","railway_solvers.hybrid_anneal","railway_solvers.constrained_solver"]))
DG="solutions_quantum/data4diagrams/"
L.append(P("C25","Space-time diagrams show each train where and when it is",
 "For every solution, the path drawn for a train on a line consists of its arrival and departure at each of its stations on that line, in order of travel, at the station's kilometre and the time of the solution; no other train's points appear in it.",
 ["inputs"],"every solution, every train and every line of the network",
 "There is no test of this part.",
 [DG+"train_utils.py",DG+"railway_lines.py","helpers.py"],[("train paths and segments on a diagram",DG+"train_utils.py"),("the diagram script",DG+"echo_gnuplot_file.py")],["echo_gnuplot_file.py (drawn series)"]))
L.append(P("C26","Kilometre positions are consistent along every line and segment",
 "For every line and segment, the positions of stations are those of the line table, distances are symmetric and add up along the line, and the stations of a segment are listed in line order with positions that never go backwards.",
 ["inputs"],"every line, segment, station and pair of stations",
 "There is no test of this part.",
 [DG+"railway_lines.py"],[("line tables, lookups and routes over lines",DG+"railway_lines.py")],["railway_lines functions and tables"]))
L.append(P("C27","Statistics of solutions count every sample once",
 "For every collection of samples, the published numbers (share of feasible ones, distribution of objectives, delays and broken constraints) are those obtained by counting every sample exactly once.",
 ["inputs"],"every collection of results",
 "There is no test of this part.",
 [DG+"visualise_statistics.py",DG+"read_quantum_pickle.py",RM],[("statistics of stored solutions",DG+"visualise_statistics.py"),("readers of stored samples",DG+"read_quantum_pickle.py"),("objective over time limit plots","solutions_quantum/tmin_plot.py"),("plots of generic cases","results_KO_GLC/fast_plot.py")],["saved figures and printed statistics"]))
L.append(P("C29","From schedule file to solution: conflict-free with the least delay",
 "For every schedule of trains with any initial delays, the prepared data make a dispatching problem that is solved exactly when some timetable keeps all headways, line, track, switch and stock rules within the allowed delay, and then with the least weighted delay. The reported departures keep all these rules, and no train is sent ahead of its schedule. Storing the prepared timetables and reading them back changes nothing.",
 ["inputs","schedules"],"every schedule of trains on shipped and generated networks, every reference time, every set of initial delays and every allowed delay",
 "The tests never run data preparation and solver together; the solver tests need libraries and licences and use small hand-written problems.",
 ["helpers.py",DF+"make_J_taus.py",DF+"scheduling_tools.py",LS],[("make_train_set, make_timetable, build_timetables, load_timetables",'helpers.py'),("create_linear_problem",LS)],["helpers.make_train_set","helpers.make_timetable","helpers.build_timetables","helpers.load_timetables","railway_solvers.create_linear_problem","helpers.print_optimisation_results"]))
L.append(P("C28","The reported size of a problem is its size, spoilt orders are noticed",
 "For every dispatching problem, the reported numbers of order variables, time variables and constraints are those of the problem, whatever the stations are called. A solution in which some order is neither one nor the other is refused, and every other solution is accepted.",
 ["inputs"],"every dispatching problem with any names of stations, every solution of it and every solution with spoilt order values",
 "No test calls the counting; the published tables of problem sizes rest on it, and names of stations that resemble names of variables never occur in tests.",
 ["helpers.py"],[("count_vars, check_count_vars","helpers.py")],["helpers.count_vars","helpers.check_count_vars"]))
L.append(P("C30","The programs solve the published case they are asked for",
 "For every case number, kind of variables and solver, the programs take the files of that case, add exactly the delays published for it, hand the solver and its time limit over as asked, and print or store the least weighted delay and the size of that problem. The timetable stored for diagrams keeps all traffic rules and has that least delay. Results are stored under the name of the case, the solver and the kind of variables.",
 ["configurations","inputs"],"every case, solver, kind of variables and time limit, with any schedule in the files of the case",
 "No test runs the programs; they take minutes with the shipped data and need solvers that are not installed.",
 ["solve_real_problem.py","solve_KO_GLC_problems.py","helpers.py"],[("choice of files, delays and solver, stored results","solve_real_problem.py"),("twelve disturbances per case, stored results","solve_KO_GLC_problems.py")],["command line, printed text and stored files of solve_real_problem.py and solve_KO_GLC_problems.py"]))
L.append(P("C31","Answers of quantum solvers are stored, judged and shown as they came",
 "For every sequence of answers of a quantum or hybrid solver, the programs call the solver asked for once per run with the time limit asked for, and store for each run the best of its answers, marked feasible exactly when the timetable keeps all traffic rules. A later run that shows the timetable calls no solver and shows the stored departures. Every run and setting has its own file.",
 ["configurations","histories","inputs"],"every method, number of runs and setting, every answer of the solver, feasible or not, for any schedule and for the Wisla problem",
 "No test runs the programs or has a solver that gives more than one answer; the real solvers need an account.",
 ["solve_real_problem.py","solve_KO_GLC_problems.py","wisla_problems.py","helpers.py"],[("solve_on_quantum, get_best_feasible_sample","helpers.py"),("stored solutions and diagrams","solve_real_problem.py"),("problem, stored solutions and diagrams","wisla_problems.py")],["command line and stored files of the three programs"]))
L.append(P("C32","The shipped network, station lists and schedules fit together",
 "For every shipped network with its station lists and schedules, and for every selection of its trains or new way over its tracks, a train that runs over a track listed for a station is known to meet that station, every way of a shipped train exists in the network, and no track belongs to two stations. Writing the station lists again gives the shipped lists and the same prepared problem.",
 ["configurations","inputs"],"every shipped set of files, every selection of its trains and every new way through its network",
 "Tests prepare the shipped trains only, which use a part of the tracks; nothing compares the names in the different files, and no test runs the scripts that write the lists.",
 ["data/important_stations.py","data/important_stations_Gt.py","data/KO_GLC/important_stations_KO_GLC.py","data/KO_GLC/important_stations_KO_GLC_R.py",DF+"utils.py"],[("tracks of the stations","data/important_stations.py"),("tracks of the stations, detour","data/important_stations_Gt.py"),("tracks of the stations, generic line","data/KO_GLC/important_stations_KO_GLC.py"),("stations along a way",DF+"utils.py")],["files under data","update_all_timetables"]))
L.sort(key=lambda d:d["id"])
with open("/verif/properties.jsonl","w") as f:
    for d in L: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(L))
