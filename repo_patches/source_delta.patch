From 875ad246ea1a48ab74c429e5615ddb4579b07f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 01/27] fix: add a delay only to the train it is meant for

The train number was searched anywhere in the key, so a delay of train 1
was also added to train 11.
---
 data_formatting/data_formatting/scheduling_tools.py | 2 +-
 data_formatting/data_formatting/utils.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 3e0e6dd..99a5bab 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -88,7 +88,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 40b12fa..e6535ea 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -490,7 +490,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
-- 
2.43.0


From c2064fe9f6f25a2892b19c35614b2ed0f4443cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 02/27] fix: count a turnaround on the way in the minimal stop

The flag of the first station was never cleared, so turnarounds at later
stations were treated as preparation time and left out of the stop.
---
 data_formatting/data_formatting/make_J_taus.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 3f279e8..8d3f039 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -460,15 +460,13 @@ def get_taus_stop(train_dict: dict, important_stations: dict, trains=None, r=1):
     """
     taus_stop = {}
     taus_prep = {}
-    first_station = False
 
     paths = get_Paths(train_dict)
     if trains == None:
         trains = paths.keys()
     for train in trains:
         for i, station in enumerate(paths[train]):
-            if i == 0:
-                first_station = True
+            first_station = i == 0
             if (i == len(paths[train]) - 1) and subsequent_block(
                 train_dict[train][1]["path"].tolist(),
                 blocks_list_4station(train_dict[train][1], station, important_stations)[
-- 
2.43.0


From 7ca16625fb815ff21a3e7c5ac9e1d63714bfcbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 03/27] fix: read switch cells holding a single number or
 nothing

A number is not text and cannot be evaluated as such, an empty cell means
there are no switches.
---
 data_formatting/data_formatting/make_switch_set.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data_formatting/data_formatting/make_switch_set.py b/data_formatting/data_formatting/make_switch_set.py
index f161466..880da8f 100644
--- a/data_formatting/data_formatting/make_switch_set.py
+++ b/data_formatting/data_formatting/make_switch_set.py
@@ -55,11 +55,13 @@ def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isna(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
@@ -100,11 +102,13 @@ def z_out(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isna(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
-- 
2.43.0


From f0829086ad0697a9bdb02dad6e4479d7c045580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 04/27] fix: refuse a route with two blocks that are not
 connected

Only blocks missing from the network were reported.
---
 data_formatting/data_formatting/time_table_check.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/time_table_check.py b/data_formatting/data_formatting/time_table_check.py
index 28ef4d1..8f6bc11 100644
--- a/data_formatting/data_formatting/time_table_check.py
+++ b/data_formatting/data_formatting/time_table_check.py
@@ -102,8 +102,10 @@ def check_path_continuity(paths, data_path_check):
     """
     # paths = train_time_table(data, train)["path"]
     for i in range(len(paths) - 1):
-        if data_path_check.isin([paths[i], paths[i + 1]]).all(1).any() == False:
+        blocks = data_path_check.iloc[:, :2]
+        if blocks.isin([paths[i], paths[i + 1]]).all(1).any() == False:
             if data_path_check.isin([paths[i]]).any(1).any() == False:
                 raise AssertionError(paths[i], "not present in possible paths")
             if data_path_check.isin([paths[i + 1]]).any(1).any() == False:
-                raise AssertionError(paths[i], "not present in possible paths")
+                raise AssertionError(paths[i + 1], "not present in possible paths")
+            raise AssertionError(paths[i], paths[i + 1], "not connected")
-- 
2.43.0


From d2f9a21903bf1d9fe8e5aa8ce3cc5ad53c48556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 05/27] fix: give the empty stock weight to shunting trains
 only

Any train whose number was ten times a paired train plus a digit got it.
---
 data_formatting/data_formatting/scheduling_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 99a5bab..ba251f3 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -112,7 +112,7 @@ def make_weights(
     for train in train_dict.keys():
         type_of_train = train_dict[train][0][0]
         weight = trains_weights[type_of_train]
-        if train // 10 in flatten(get_trains_pair9(train_dict)):
+        if train in [pair[1] for pair in get_trains_pair9(train_dict)]:
             weight = empty
         station = train_important_stations(train_dict[train][1])[-1]
         if train in skip_stations and station == skip_stations[train]:
-- 
2.43.0


From 74036d9f3db1041195947773a344fa35d97f4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 06/27] fix: stop when trains sharing rolling stock do not meet

sys.exit was not called, so the block of the previous pair was used.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 8d3f039..1436507 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -67,7 +67,7 @@ def get_jround(train_dict, important_stations):
             block = train_time_table(train_dict, pair[1])["path"].tolist()[0]
         else:
             print("Something is wrong in get_jround")
-            sys.exit
+            sys.exit(1)
         station = [key for key, value in important_stations.items() if block in value][
             0
         ]
-- 
2.43.0


From 6bb6134bb0af63db79dd2c639b9c7885e0dfa4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 07/27] fix: find opposing trains that end at the other station

Only departing trains were considered, a train coming the other way and
ending at the station was left out.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 1436507..eaef9a0 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -194,7 +194,7 @@ def josingle(trains_dict, important_stations, imp_stations=None):
 
     init_josingle = {}
     imp_stations_list, trains_at_stations = important_trains_and_stations(
-        trains_dict, important_stations, imp_stations, True
+        trains_dict, important_stations, imp_stations, False
     )
 
     for s in imp_stations_list:
-- 
2.43.0


From 11ab5e317091bec0b894988ed7b3fe08c5ec9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 08/27] fix: keep common elements found before the last element

The run collected last was dropped unless the list ended with it.
---
 data_formatting/data_formatting/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index e6535ea..1a3bf8b 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -46,6 +46,8 @@ def check_common_specific_elements_lists(list1, list2):
                 i += 1
         else:
             i += 1
+    if short:
+        check_elements.append(short)
     return check_elements
 
 
-- 
2.43.0


From cce6babbda1f3d7cfc700eef89a48f686841949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:26:17 +0000
Subject: [PATCH 09/27] fix: group trains only when their whole path is the
 same

A train using a part of the blocks of another one joined its group, but
not the other way round, so groups depended on the order of trains.
---
 data_formatting/data_formatting/make_J_taus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index eaef9a0..49ea8ca 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -389,9 +389,9 @@ def jd(time_tables_dict, important_stations, imp_stations=None):
                 added = False
                 while i < len(jd[s][s2]):
                     path_check = (
-                        common_path(
-                            timetable, time_tables_dict[jd[s][s2][i][0]][1], s, s2
-                        )
+                        get_blocks_b2win_station4train(
+                            time_tables_dict[jd[s][s2][i][0]][1], s, s2
+                        )[0]
                         == get_blocks_b2win_station4train(timetable, s, s2)[0]
                     )
                     if jd[s][s2][i] != [] and path_check == True:
-- 
2.43.0


From d88a5f1c3f884f0e2cb712a32faf82323e5b430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:58 +0000
Subject: [PATCH 10/27] fix: round preparation times listed with the stops when
 whole minutes are asked for

---
 data_formatting/data_formatting/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 1a3bf8b..2a4247d 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -396,7 +396,7 @@ def minimal_stay(
     if np.isnan(turn_around) == False:
         turn_around = float(turn_around)
         if first_station == True:
-            taus_prep1[f"{train}_{station}"] = turn_around
+            taus_prep1[f"{train}_{station}"] = round(turn_around) if r == 1 else turn_around
             turn_around = 0
         t += turn_around
     time += t
-- 
2.43.0


From ad7e136b6354acf81223c0c27665fd3597bb5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:45:58 +0000
Subject: [PATCH 11/27] fix: compare skipped stations by name, not by substring

---
 railway_solvers/railway_solvers/linear_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index bfe5b25..287000e 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -511,8 +511,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    skip = "skip_station" in train_sets and jp in train_sets["skip_station"] and s in train_sets["skip_station"][jp]
-                    if not skip:
+                    if not skip_station(jp, s, train_sets):
                         keep_trains_order(
                             s,
                             j,
@@ -533,8 +532,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
                             d_max,
                         )
 
-                    skip = "skip_station" in train_sets and j in train_sets["skip_station"] and s in train_sets["skip_station"][j]
-                    if not skip:
+                    if not skip_station(j, s, train_sets):
                         trains_order_at_s(
                             s,
                             j,
-- 
2.43.0


From db2c70b145beb99c0e56610a3f4b6209a4d7f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:47:03 +0000
Subject: [PATCH 12/27] fix: keep the order of trains on a track however the
 trains are listed

---
 .../railway_solvers/linear_solver.py          | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 287000e..37d0751 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -424,14 +424,13 @@ def keep_trains_order(
                 if not can_MO_on_line(j, jp, s, train_sets):
                     # the order on station y[j][jp][s] must be the same as
                     # on the path y[j][jp][sp] (previous station)
-                    if s in y[j][jp]["one_station"] and sp in y[j][jp]["one_station"]:
-                        problem += (
-                            y[j][jp]["one_station"][s] == y[j][jp]["one_station"][sp],
-                            f"track_occupation_{j}_{jp}_{s}_{sp}",
-                        )
+                    problem += (
+                        get_y3(y, j, jp, s) == get_y3(y, j, jp, sp),
+                        f"track_occupation_{j}_{jp}_{s}_{sp}",
+                    )
                 elif are_two_trains_entering_via_the_same_switches(train_sets, s, j, jp):
                     problem += (
-                                get_y4_in(y, "in", j, jp, s) == y[j][jp]["one_station"][s],
+                                get_y4_in(y, "in", j, jp, s) == get_y3(y, j, jp, s),
                                 f"track_occupation_{j}_{jp}_{s}_{sp}",
                                 )
 
@@ -511,15 +510,15 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
+                    keep_trains_order(
+                        s,
+                        j,
+                        jp,
+                        problem,
+                        y,
+                        train_sets,
+                    )
                     if not skip_station(jp, s, train_sets):
-                        keep_trains_order(
-                            s,
-                            j,
-                            jp,
-                            problem,
-                            y,
-                            train_sets,
-                        )
                         trains_order_at_s(
                             s,
                             jp,
-- 
2.43.0


From 7f129dedd526f05bf9708ccc2ff828ba8a764b0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:47:03 +0000
Subject: [PATCH 13/27] fix: do not tie the order at a station to a train that
 starts there

---
 railway_solvers/railway_solvers/linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 37d0751..ee840a9 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -420,7 +420,7 @@ def keep_trains_order(
     if sp in train_sets["Jd"].keys():
         if s in train_sets["Jd"][sp].keys():
             # if both trains goes sp -> s and have common path
-            if occurs_as_pair(j, jp, train_sets["Jtrack"][s]):
+            if previous_station(S[jp], s) is not None and occurs_as_pair(j, jp, train_sets["Jtrack"][s]):
                 if not can_MO_on_line(j, jp, s, train_sets):
                     # the order on station y[j][jp][s] must be the same as
                     # on the path y[j][jp][sp] (previous station)
-- 
2.43.0


From 2c8f4836424eeb76e326bf902c6b2ea07f50f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:48:28 +0000
Subject: [PATCH 14/27] fix: let opposing trains pass on a double track line
 with switches at both ends

---
 .../railway_solvers/linear_solver.py          | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index ee840a9..308496a 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -12,6 +12,7 @@ from .helpers_functions import get_M
 from .helpers_functions import tau
 from .helpers_functions import not_the_same_rolling_stock
 from .helpers_functions import previous_station
+from .helpers_functions import subsequent_station
 from .helpers_functions import occurs_as_pair
 from .helpers_functions import penalty_weights
 from .helpers_functions import skip_station
@@ -127,12 +128,29 @@ def order_var4switch_occupation(order_vars, train_sets):
                 else:
                     update_y3(order_vars, jp, jpp, sp)
             elif s in (sp, spp):
-                update_y4(order_vars, jp, jpp, sp, spp)
+                if pass_on_separate_tracks(jp, jpp, sp, spp, train_sets):
+                    # orders at s and at the other end of the line may differ
+                    update_y4_in(order_vars, f"in_{sp if s == spp else spp}", jp, jpp, s)
+                else:
+                    update_y4(order_vars, jp, jpp, sp, spp)
             else: # we have differen s, sp and spp
                 update_y4_in(order_vars, "in", jp, jpp, s)
 
 
 
+def pass_on_separate_tracks(j, jp, s, sp, train_sets):
+    """checks if j goes s -> sp and jp goes sp -> s and the line is not a single
+    track one for them, i.e. they can pass each other on the line
+    """
+    S = train_sets["Paths"]
+    if subsequent_station(S[j], s) != sp or subsequent_station(S[jp], sp) != s:
+        return False
+    single = train_sets["Josingle"]
+    pairs = [(a, b) for (a, b) in single.get((s, sp), [])]
+    pairs += [(b, a) for (a, b) in single.get((sp, s), [])]
+    return (j, jp) not in pairs
+
+
 def update_y3(order_var, j, jp, s):
     """checks if there is an order variable for (j,jp,s) or for (jp,j,s)
     if not creates one
@@ -580,7 +598,10 @@ def switch_occ(
             else:
                 RHS -= M * get_y3(y, jp, jpp, sp)
         elif s in (spp, sp):
-            RHS -= M * get_y4_singleline(y, jp, jpp, sp, spp)
+            if pass_on_separate_tracks(jp, jpp, sp, spp, train_sets):
+                RHS -= M * get_y4_in(y, f"in_{sp if s == spp else spp}", jp, jpp, s)
+            else:
+                RHS -= M * get_y4_singleline(y, jp, jpp, sp, spp)
         else: # s, sp and spp differs
             RHS -= M * get_y4_in(y, "in", jp, jpp, s)
 
-- 
2.43.0


From b045bb7875f0dc5647c3c2e25d17f267a4a40b86 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:53:04 +0000
Subject: [PATCH 15/27] fix: report delays at stations whose name has
 characters not allowed in variable names

---
 railway_solvers/railway_solvers/linear_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 308496a..adf7380 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -732,8 +732,9 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
     """given the solution of the optimisation problem returns secondary delay
     conflict free time and conflicted time
     """
+    name = pus.LpVariable(f"Delays_{j}_{s}").name
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
@@ -749,8 +750,9 @@ def impact_to_objective(prob, timetable, j, s, d_max, data = []):
     """return the impact to the objective of the particular secondary delay
     of particular train at particular station
     """
+    name = pus.LpVariable(f"Delays_{j}_{s}").name
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
-- 
2.43.0


From 9164e22a2cdeac5069c024572f91b0f82a53d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:53:05 +0000
Subject: [PATCH 16/27] fix: report the departure of a train that no constraint
 or weight refers to

---
 railway_solvers/railway_solvers/linear_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index adf7380..8228b3e 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -743,6 +743,10 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
             conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
             conflict_free = delay + conflicted_tt
             return delay, conflict_free, conflicted_tt
+    if not skip_station(j, s, train_sets) and subsequent_train_at_Jround(train_sets, j, s) is None:
+        # nothing restricts this departure
+        conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
+        return 0, conflicted_tt, conflicted_tt
     return 0,0,0
 
 
-- 
2.43.0


From 7967f8703b2aa8657e791c37192ae5f219f2179c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 20:58:14 +0000
Subject: [PATCH 17/27] fix: convert programs with constraints that can only be
 satisfied tightly

---
 .../railway_solvers/converter_bqm.py           | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/railway_solvers/railway_solvers/converter_bqm.py b/railway_solvers/railway_solvers/converter_bqm.py
index c6b5a00..b33258b 100644
--- a/railway_solvers/railway_solvers/converter_bqm.py
+++ b/railway_solvers/railway_solvers/converter_bqm.py
@@ -57,6 +57,15 @@ def _get_slack_ub(data: List[int], offset: int) -> int:
     return int(result)
 
 
+def _get_slack(cname: str, ub: int):
+    """Slack variable with values 0, ..., ub. If the constraint can only be
+    satisfied tightly (ub = 0) no slack variable is necessary.
+    """
+    if ub == 0:
+        return 0
+    return LogEncInteger(cname, (0, ub))
+
+
 def convert_to_pyqubo(model: LpProblem):
     """Converts Integer program into pyqubo.Model. Placeholders (penalty
     parameters) are NOT set up. Names of placeholders can be found in the code of
@@ -90,15 +99,12 @@ def convert_to_pyqubo(model: LpProblem):
         if sense == pulp.LpConstraintEQ:
             H += ph * expr ** 2
         elif sense == pulp.LpConstraintLE:
-            slack = LogEncInteger(cname, (0, _get_slack_ub(c.items(), c.constant)))
+            slack = _get_slack(cname, _get_slack_ub(c.items(), c.constant))
             H += ph * (expr + slack) ** 2
         elif sense == pulp.LpConstraintGE:
-            slack = LogEncInteger(
+            slack = _get_slack(
                 cname,
-                (
-                    0,
-                    _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
-                ),
+                _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
             )
             H += ph * (expr - slack) ** 2
 
-- 
2.43.0


From fa614590cbb9c1e3713ac160c29571411f2ed553 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:06:39 +0000
Subject: [PATCH 18/27] fix: hand numbers of sweeps and reads over to the
 annealer in their places

---
 railway_solvers/railway_solvers/d_wave_solves.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index e2c603d..2123d86 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -28,7 +28,11 @@ def sim_anneal(
     """
     s = neal.SimulatedAnnealingSampler()
     sampleset = s.sample(
-        bqm, beta_range, num_sweeps, num_reads, beta_schedule_type="geometric"
+        bqm,
+        beta_range=beta_range,
+        num_sweeps=num_sweeps,
+        num_reads=num_reads,
+        beta_schedule_type="geometric",
     )
     return sampleset
 
-- 
2.43.0


From fc9cbafc86a7f653548ccad55b6090d0ed2b3790 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:24:10 +0000
Subject: [PATCH 19/27] fix: look the stations of a route up on the lines

---
 solutions_quantum/data4diagrams/railway_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/railway_lines.py b/solutions_quantum/data4diagrams/railway_lines.py
index 3781747..b1e3a25 100644
--- a/solutions_quantum/data4diagrams/railway_lines.py
+++ b/solutions_quantum/data4diagrams/railway_lines.py
@@ -87,7 +87,7 @@ def route_on_lines(route, lines):
     It will return a list with station ordinal numbers on lines."""
     result = []
     for station in route:
-        result.append(tuple(filter(lambda x: x[0] in lines, station_on_line(station))))
+        result.append(tuple(filter(lambda x: x[0] in lines, station_on_lines(station))))
     return [s for s in result if s!=()]
 
 def station2km(station, segment):
-- 
2.43.0


From 7059dd52492be729df736b609090656b2d20f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:24:10 +0000
Subject: [PATCH 20/27] fix: list the conflicted train paths instead of the
 resolved ones twice

---
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index faf9ff4..f42fa6e 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -23,7 +23,7 @@ else:
     kdtraindata = data
     
 for trainno in kdtraindata.keys():
-    for status in ('conflcted', 'resolved'):
+    for status in ('conflicted', 'resolved'):
         t = tu.kdtrain2trainpath(trainno, kdtraindata[trainno], status=status)
         print(t)
     print('----------------------------------------')
-- 
2.43.0


From 85c754511e272314c38def0eeab4ecdc83be3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:24:10 +0000
Subject: [PATCH 21/27] fix: positions of the stations from Katowice to Tychy
 on the segment from Gliwice

---
 solutions_quantum/data4diagrams/railway_lines.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solutions_quantum/data4diagrams/railway_lines.py b/solutions_quantum/data4diagrams/railway_lines.py
index b1e3a25..0230f93 100644
--- a/solutions_quantum/data4diagrams/railway_lines.py
+++ b/solutions_quantum/data4diagrams/railway_lines.py
@@ -44,11 +44,11 @@ RAILWAYSEGMENTS={
                   {'name': 'Katowice Towarowa KTC', 'callsign': 'KTC', 'type': 'podg', 'km': 24.19},
                   {'name': 'Katowice', 'callsign': 'KO', 'type': 'st', 'km': 26.71},
                   {'name': 'Katowice Brynów', 'callsign': 'Bry', 'type': 'po', 'km': 30.59},
-                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 36.67},
-                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 44.42},
-                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 55.77},
-                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 69.81},
-                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 86.78}),
+                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 32.79},
+                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 34.46},
+                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 38.06},
+                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 40.75},
+                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 43.68}),
     '137138GLYKZ': ({'name': 'Gliwice', 'callsign': 'GLC', 'type': 'st', 'km': 0.0},
                     {'name': 'Zabrze', 'callsign': 'ZZ', 'type': 'st', 'km': 8.18},
                     {'name': 'Ruda Śląska', 'callsign': 'RSl', 'type': 'po', 'km': 12.5},
-- 
2.43.0


From fa3a715ab773e94ac1838967d18d7d7dbec7dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:24:10 +0000
Subject: [PATCH 22/27] fix: load the timetables from the path handed over

---
 helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.py b/helpers.py
index cd70abc..94d7891 100644
--- a/helpers.py
+++ b/helpers.py
@@ -38,7 +38,7 @@ from railway_solvers.railway_solvers import (
 )
 
 def load_timetables(timetables_path):
-    with open(timetables_path.load, "rb") as file:
+    with open(timetables_path, "rb") as file:
         train_dict = pkl.load(file)
     return train_dict
 
-- 
2.43.0


From 396257e9df4be1304aa9076b6b1bcb34bb7e7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 21:27:09 +0000
Subject: [PATCH 23/27] fix: do not take rounding errors for broken constraints

---
 railway_solvers/railway_solvers/results_manipulation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/railway_solvers/railway_solvers/results_manipulation.py b/railway_solvers/railway_solvers/results_manipulation.py
index d290808..636e1d5 100644
--- a/railway_solvers/railway_solvers/results_manipulation.py
+++ b/railway_solvers/railway_solvers/results_manipulation.py
@@ -5,6 +5,9 @@ import dimod
 import pulp
 from pulp.pulp import LpProblem
 
+# constraints have fractions of minutes, sums of these are not exact
+TOLERANCE = 1e-6
+
 def analyze_constraints(
     prob: LpProblem, sample: Dict[str, int]
 ) -> Tuple[Dict[str, bool], int]:
@@ -23,11 +26,11 @@ def analyze_constraints(
         sense = c.sense
         expr = sum(val * sample[var.name] for var, val in c.items())
         if sense == pulp.LpConstraintEQ:
-            result[cname] = expr == -c.constant
+            result[cname] = abs(expr + c.constant) <= TOLERANCE
         elif sense == pulp.LpConstraintLE:
-            result[cname] = expr <= -c.constant
+            result[cname] = expr + c.constant <= TOLERANCE
         elif sense == pulp.LpConstraintGE:
-            result[cname] = expr >= -c.constant
+            result[cname] = expr + c.constant >= -TOLERANCE
     return result, sum(result.values())
 
 def get_objective(prob: pulp.LpProblem, sample) -> float:
-- 
2.43.0


From 826216b752c6dadb82d8957cce00ac102c2ffbcf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 00:40:20 +0000
Subject: [PATCH 24/27] fix: count order variables by the beginning of their
 names

---
 helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.py b/helpers.py
index 94d7891..040a87a 100644
--- a/helpers.py
+++ b/helpers.py
@@ -143,7 +143,7 @@ def check_count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             assert v.varValue in [pytest.approx(0), pytest.approx(1)]
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
@@ -161,7 +161,7 @@ def count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
     constraints = prob.numConstraints()
-- 
2.43.0


From dee7ed30a117b67c19138defd635656a76af51cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 00:40:20 +0000
Subject: [PATCH 25/27] fix: read single switches from a column of numbers

---
 data_formatting/data_formatting/make_switch_set.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/make_switch_set.py b/data_formatting/data_formatting/make_switch_set.py
index 880da8f..7e8e42f 100644
--- a/data_formatting/data_formatting/make_switch_set.py
+++ b/data_formatting/data_formatting/make_switch_set.py
@@ -57,7 +57,9 @@ def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
                     switch = data_path_check["switches"][s]
                     if pd.isna(switch):
                         switch = set()
-                    elif type(switch) is float:
+                    elif isinstance(switch, float) and switch == int(switch):
+                        switch = {int(switch)}
+                    elif isinstance(switch, float):
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
@@ -104,7 +106,9 @@ def z_out(data_path_check, j, s, paths, station_blocks, blocks_lists):
                     switch = data_path_check["switches"][s]
                     if pd.isna(switch):
                         switch = set()
-                    elif type(switch) is float:
+                    elif isinstance(switch, float) and switch == int(switch):
+                        switch = {int(switch)}
+                    elif isinstance(switch, float):
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-- 
2.43.0


From c31bd41caecac7eecad6441bb95c45e2196b2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:20 +0000
Subject: [PATCH 26/27] fix: keep the trains from station 10 to 5 of the Wisla
 problem apart

---
 wisla_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wisla_problems.py b/wisla_problems.py
index 4d87caa..ca7160b 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -60,7 +60,7 @@ if __name__ == "__main__":
         "Paths": { "Ks1": [1,3,5,10], "Ks3": [1,3,5,10], "Ic1": [1,3,5,10], "Ks2": [10,5,3,1], "Ks4": [10,5,3,1], "Ic2": [10,5,3,1]},
         "J": ["Ks1", "Ks3", "Ic1", "Ks2", "Ks4", "Ic2"],
         "Jd": {1: {3: [["Ks1", "Ks3", "Ic1"]]}, 3:{1:[["Ks2", "Ks4", "Ic2"]], 5:[["Ks1", "Ks3", "Ic1"]]}, 
-               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}}, 10:{5:[["Ks2", "Ks4", "Ic2"]]},
+               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}, 10:{5:[["Ks2", "Ks4", "Ic2"]]}},
         "Josingle": {(1,3): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (3,5): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (5,10): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]]
@@ -78,7 +78,7 @@ if __name__ == "__main__":
 
                         "Ks2_Ks4_3_1": 2, "Ks2_Ks4_5_3": 2, "Ks2_Ks4_10_5": 2, "Ks4_Ks2_3_1": 2, "Ks4_Ks2_5_3": 2, "Ks4_Ks2_10_5": 2,
                         "Ks2_Ic2_3_1": 2, "Ks2_Ic2_5_3": 2, "Ks2_Ic2_10_5": 2, "Ks4_Ic2_3_1": 2, "Ks4_Ic2_5_3": 2, "Ks4_Ic2_10_5": 2,
-                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_5_10": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
+                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_10_5": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
             
             },
             "prep": {"Ic2_10": 20},
-- 
2.43.0


From e169e7e05d6b052addd8d7493cb079e5eea355dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 04:06:04 +0000
Subject: [PATCH 27/27] fix: name track 3 of Katowice in the station lists as
 in the network table

---
 data/KO_GLC/important_stations_KO_GLC.npz   | Bin 1040 -> 1041 bytes
 data/KO_GLC/important_stations_KO_GLC.py    |   2 +-
 data/KO_GLC/important_stations_KO_GLC_R.npz | Bin 1179 -> 1180 bytes
 data/KO_GLC/important_stations_KO_GLC_R.py  |   2 +-
 data/important_stations.npz                 | Bin 2053 -> 2054 bytes
 data/important_stations.py                  |   2 +-
 data/important_stations_Gt.npz              | Bin 2165 -> 2166 bytes
 data/important_stations_Gt.py               |   2 +-
 8 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/data/KO_GLC/important_stations_KO_GLC.npz b/data/KO_GLC/important_stations_KO_GLC.npz
index f7b844b9cd1269a5081e0e4c5adfb013e4347317..fe77912d9158b359b103fec9bc281300716c913b 100644
GIT binary patch
delta 98
zcmbQhF_FV0z?+#xgaHB+8SWhJYv^QVU;trG1`&qDqM~>My}W`-Mg{?}AV^{7Mw2*3
gE|4ZAZ+|5nh0U`WEtojrS|{IO)?+&YG=PBt0L-=&>i_@%

delta 97
zcmbQpF@eJ*z?+#xgaHB+8MrRVP3vH0U;trG1`&qDqM~>My}W`-Mg{?}AV^`yMw2*3
gPGKNR$=hE^XY(9J3nosu&dGO~_1F#r^)oO408b(kiU0rr

diff --git a/data/KO_GLC/important_stations_KO_GLC.py b/data/KO_GLC/important_stations_KO_GLC.py
index 2ce7a2a..88a15ca 100644
--- a/data/KO_GLC/important_stations_KO_GLC.py
+++ b/data/KO_GLC/important_stations_KO_GLC.py
@@ -6,7 +6,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/KO_GLC/important_stations_KO_GLC_R.npz b/data/KO_GLC/important_stations_KO_GLC_R.npz
index df894c792e06e36be79ed23acbd3990cbb7519ab..44784c07971555e644bb831e100a12a7cddb75a6 100644
GIT binary patch
delta 98
zcmbQuIfv6Ez?+#xgaHB+8M6Po3X8BXFn};8g9t-nQBk~sUS2^ZBZB}~5TsCKqe&bi
g7f6$mx4)8(!sgkGhnYCxS|_Ko=&|_&4PamZ01BQE761SM

delta 97
zcmbQkIh)fYz?+#xgaHB+8LoWW5h={VzyQLW3?dAPMMd!jdU*wvj0^%`L6Ab>jV5u7
goWekslDEH-&gMCchnYCxIwxna=&|_$^)oO40At<~ApigX

diff --git a/data/KO_GLC/important_stations_KO_GLC_R.py b/data/KO_GLC/important_stations_KO_GLC_R.py
index 9aab44b..f574e36 100644
--- a/data/KO_GLC/important_stations_KO_GLC_R.py
+++ b/data/KO_GLC/important_stations_KO_GLC_R.py
@@ -6,7 +6,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/important_stations.npz b/data/important_stations.npz
index 16da4d2cf1d226e29af8f2ed23e4f8218c578d74..d466c33993ea7b7046fa9a64773d2cc690c0b945 100644
GIT binary patch
delta 98
zcmZn_XcI6A@MdNaVSoTd2Ej(VrFHBK3?R(OAi|JXR1|NZmse29$RGd~1SzcBXmW#*
g3#3WO+h0jXVY4XHW>!wP*2x#y_1Ja-4PamZ09xM?r~m)}

delta 97
zcmZn@XcaIC@MdNaVSoTdhMYLd*R|{n3?R(OAi|JXR1|NZmse29$RGd~1SzcDXmW#*
fQy9on^7dEK*(}DinUxc+bMhs2J+>V{{R|8McQX@n

diff --git a/data/important_stations.py b/data/important_stations.py
index 70e3f2e..d18437d 100644
--- a/data/important_stations.py
+++ b/data/important_stations.py
@@ -10,7 +10,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/important_stations_Gt.npz b/data/important_stations_Gt.npz
index a46f2d713ed7ed7beb60fb18c98e4a67bef8b194..99007484da843e228f30abf45401ddbec4e2c0ad 100644
GIT binary patch
delta 98
zcmew=@J+xZz?+#xgaHB+8MaiWdcI?4U;trG1`&qDqM~>My}W`-Mg{?}AV}f6jV3o3
fxj>qfy#1AQ6gG=8DYJ3HwN7^A&|}l&0I383H*gh4

delta 97
zcmew+@KwMhz?+#xgaHB+8UEj2JK-%m0|N+iGKerF78S)C=;akuGBOB&1wjhmZZx^U
f$SDkDDS7)V>1-BbQfA|X>zwSwp~t4d0a6G6nxGe;

diff --git a/data/important_stations_Gt.py b/data/important_stations_Gt.py
index 4b7c298..e096399 100644
--- a/data/important_stations_Gt.py
+++ b/data/important_stations_Gt.py
@@ -10,7 +10,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
-- 
2.43.0

