From 00124e96105c2389854e368e3c5cef2f462e486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 01/31] fix: quadratic split finds a split when none stays
 within the capacity factor

Without a path within the capacity factor the predecessors were stale, which gave
routes that lost customers or ignored the cost.
---
 src/solver/genetic/split.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index ce64233..eda7d6a 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -188,6 +188,30 @@ impl Split {
         individual.evaluate(ctx);
     }
 
+    // Largest load allowed in a route of the Bellman-based split. There is no limit if the tour
+    // cannot be split into `max_vehicles` routes within the capacity factor.
+    fn max_load(&self, ctx: &Context, individual: &Individual, max_vehicles: usize) -> f64 {
+        let max_load = ctx.problem.vehicle.cap * ctx.config.borrow().split_capacity_factor;
+        let mut num_routes = 1;
+        let mut load = 0.0;
+        for node in individual.genotype.iter() {
+            let demand = ctx.problem.nodes[*node].demand;
+            if demand > max_load {
+                return f64::INFINITY;
+            }
+            if load + demand > max_load {
+                num_routes += 1;
+                load = 0.0;
+            }
+            load += demand;
+        }
+        if num_routes > max_vehicles {
+            f64::INFINITY
+        } else {
+            max_load
+        }
+    }
+
     // Split of the individual's genotype to create its phenotype
     pub fn split(
         &mut self,
@@ -198,7 +222,7 @@ impl Split {
         self.reset(false);
         let dim = ctx.problem.dim();
         let cap = ctx.problem.vehicle.cap;
-        let capacity_factor = ctx.config.borrow().split_capacity_factor;
+        let max_load = self.max_load(ctx, individual, dim - 1);
 
         if ctx.config.borrow().linear_split {
             let mut queue: MyVecDeque<usize> = MyVecDeque::new(ctx.problem.dim());
@@ -235,7 +259,7 @@ impl Split {
                 let mut cost = 0.0;
                 while to_index < dim
                     && (load + ctx.problem.nodes[individual.genotype_node(to_index)].demand)
-                        .approx_lte(cap * capacity_factor)
+                        .approx_lte(max_load)
                 {
                     load += ctx.problem.nodes[individual.genotype_node(to_index)].demand;
                     if to_index == from_index + 1 {
@@ -301,7 +325,7 @@ impl Split {
         self.reset(true);
         let dim = ctx.problem.dim();
         let cap = ctx.problem.vehicle.cap;
-        let capacity_factor = ctx.config.borrow().split_capacity_factor;
+        let max_load = self.max_load(ctx, individual, max_vehicles);
 
         if ctx.config.borrow().linear_split {
             let mut queue: MyVecDeque<usize> = MyVecDeque::new(ctx.problem.dim());
@@ -345,7 +369,7 @@ impl Split {
                     let mut cost = 0.0;
                     while to_index < dim
                         && load + ctx.problem.nodes[individual.genotype_node(to_index)].demand
-                            <= cap * capacity_factor
+                            <= max_load
                     {
                         load += ctx.problem.nodes[individual.genotype_node(to_index)].demand;
                         if to_index == from_index + 1 {
-- 
2.43.0


From e7e853a30cc9304a0d795d15c7495d3963b7d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 02/31] fix: broken pairs distance looks at the successor of
 the customer

It looked at successor(0) instead, which is unrelated to the customer.
---
 src/solver/genetic/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 481d778..634d6ba 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -115,7 +115,7 @@ impl Individual {
             // If the predecessor of self is a depot, but neither the predecessor or successor of the other is a depot
             if self.predecessor(index) == 0
                 && other.predecessor(index) != 0
-                && other.successor(0) != 0
+                && other.successor(index) != 0
             {
                 distance += 1;
             }
-- 
2.43.0


From 24f9d26f6813c587dd6ae958d895a164c8a21c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 03/31] fix: a circle sector keeps a first customer at angle
 zero

Start and end of zero also meant an empty sector, so the next customer replaced
one at angle zero instead of extending the sector.
---
 src/models/circle_sector.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/models/circle_sector.rs b/src/models/circle_sector.rs
index fcbd570..50ce47b 100644
--- a/src/models/circle_sector.rs
+++ b/src/models/circle_sector.rs
@@ -1,6 +1,9 @@
 // Used to represent the polar angles as integers
 const MAX_ANGLE: i32 = 65536;
 
+// Start and end of a sector without any angle
+const EMPTY: i32 = -1;
+
 /// Represents the sector with start and end polar angles in a circle
 #[derive(Clone, Debug)]
 pub struct CircleSector {
@@ -10,12 +13,19 @@ pub struct CircleSector {
 
 impl CircleSector {
     pub fn new() -> Self {
-        Self { start: 0, end: 0 }
+        Self {
+            start: EMPTY,
+            end: EMPTY,
+        }
     }
 
     pub fn reset(&mut self) {
-        self.start = 0;
-        self.end = 0;
+        self.start = EMPTY;
+        self.end = EMPTY;
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.start == EMPTY
     }
 
     pub fn from_angle(&mut self, angle: i32) {
@@ -24,7 +34,7 @@ impl CircleSector {
     }
 
     pub fn extend(&mut self, angle: i32) {
-        if self.start == 0 && self.end == 0 {
+        if self.is_empty() {
             self.from_angle(angle);
         } else {
             if !self.is_enclosed(angle) {
@@ -40,10 +50,15 @@ impl CircleSector {
     }
 
     pub fn is_enclosed(&self, angle: i32) -> bool {
-        (angle - self.start).rem_euclid(MAX_ANGLE) <= (self.end - self.start).rem_euclid(MAX_ANGLE)
+        !self.is_empty()
+            && (angle - self.start).rem_euclid(MAX_ANGLE)
+                <= (self.end - self.start).rem_euclid(MAX_ANGLE)
     }
 
     pub fn overlaps(&self, other: &Self) -> bool {
+        if self.is_empty() || other.is_empty() {
+            return false;
+        }
         (other.start - self.start).rem_euclid(MAX_ANGLE)
             <= (self.end - self.start).rem_euclid(MAX_ANGLE)
             || (self.start - other.start).rem_euclid(MAX_ANGLE)
-- 
2.43.0


From 5400680d23faf0a0fdb24abc2f700608bacc3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 04/31] fix: the fleet is large enough for hard packings

The bin packing lower bound plus the margin can be less than any packing needs,
e.g. for many customers just above half the capacity; no solution was then
feasible. The fleet is now at least what first-fit decreasing uses.
---
 src/solver/context.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/solver/context.rs b/src/solver/context.rs
index f03c128..84dd117 100644
--- a/src/solver/context.rs
+++ b/src/solver/context.rs
@@ -87,7 +87,28 @@ impl Context {
     fn initial_num_vehicles(&self) -> u64 {
         // Safety maring: 20% + 2 more than the bin packing lower bound
         let lower_bound = self.vehicle_lower_bound() as f64;
-        (1.2 as f64 * lower_bound + 2.0).ceil() as u64
+        let with_margin = (1.2 as f64 * lower_bound + 2.0).ceil() as u64;
+        with_margin.max(self.first_fit_decreasing())
+    }
+
+    // Number of vehicles used by the first-fit decreasing heuristic for bin packing. Customers
+    // with a demand above the vehicle capacity are alone in their vehicle.
+    fn first_fit_decreasing(&self) -> u64 {
+        let capacity = self.problem.vehicle.cap;
+        let mut demands: Vec<f64> = self.problem.nodes[1..]
+            .iter()
+            .map(|node| node.demand)
+            .collect();
+        demands.sort_by(|a, b| b.partial_cmp(a).unwrap());
+
+        let mut loads: Vec<f64> = Vec::new();
+        for demand in demands {
+            match loads.iter_mut().find(|load| **load + demand <= capacity) {
+                Some(load) => *load += demand,
+                None => loads.push(demand),
+            }
+        }
+        loads.len() as u64
     }
 
     // Estimation of the initial penalty
-- 
2.43.0


From 6bd839d4b6057983e814865eda004c96675e1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 05/31] fix: local search never looks beyond the list of
 neighbors

With a granularity above the number of neighbors it read neighbors of other
customers, the customer itself, or memory outside the matrix, and a granularity
of zero panicked.
---
 src/solver/improvement/local_search.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 5085db1..ec2ff4a 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -80,7 +80,9 @@ impl LocalSearch {
                     num_vehicles,
                     ctx.problem.dim(),
                 ),
-                granularity: ctx.config.borrow().local_search_granularity as usize,
+                // There are no more neighbors than the width of the correlation matrix
+                granularity: (ctx.config.borrow().local_search_granularity as usize)
+                    .min(ctx.matrix_provider.correlation.get(0).len()),
                 correlation: ctx.matrix_provider.correlation.clone(),
                 routes: routes,
                 move_count: 0,
@@ -160,7 +162,7 @@ impl LocalSearch {
                 let cor = &mut *{
                     self.correlation.top_slice_mut(*u_index, self.granularity) as *mut [usize]
                 };
-                if self.ctx.random.range_usize(0, self.granularity) == 0 {
+                if self.granularity > 0 && self.ctx.random.range_usize(0, self.granularity) == 0 {
                     self.ctx
                         .random
                         .shuffle(self.correlation.top_slice_mut(*u_index, self.granularity));
-- 
2.43.0


From 39d188c29ec4eb6db81c966c2db84b41333d1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 06/31] fix: local search always tests the moves into empty
 routes

They are left out of the first iteration, and the search ended before a second
one if the first found no improvement, or counted no iterations at all if SWAP*
was disabled.
---
 src/solver/improvement/local_search.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index ec2ff4a..f0b3f5a 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -152,7 +152,8 @@ impl LocalSearch {
         let mut loop_count = 0;
         let mut improvement = true;
         let moves = &*{ &self.moves as *const Moves };
-        while improvement {
+        // Moves into empty routes are not tested in the first iteration, so there are at least two
+        while improvement || loop_count < 2 {
             improvement = false;
             // Loop over all customers in random order
             self.ctx.random.shuffle(self.customers.as_mut_slice());
@@ -261,8 +262,8 @@ impl LocalSearch {
                         }
                     }
                 }
-                loop_count += 1;
             }
+            loop_count += 1;
         }
     }
 
-- 
2.43.0


From 7294d47137f6ff6509ee1c103f4539700df37547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 07/31] fix: depot moves of the local search use the depot

The moves meant to place a customer or tail directly after the depot were
called with the first customer of the route instead, i.e. were the ordinary
moves a second time.
---
 src/solver/improvement/local_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index f0b3f5a..c9f733a 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -202,10 +202,10 @@ impl LocalSearch {
                         let v_pred = (*v).predecessor;
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
-                                let delta = m.delta(&self, u, v);
+                                let delta = m.delta(&self, u, v_pred);
                                 if delta.approx_lt(0.0) {
                                     self.move_count += 1;
-                                    m.perform(self, u, v);
+                                    m.perform(self, u, v_pred);
                                     route_u = (*u).route;
                                     improvement = true;
                                     continue 'v_loop;
-- 
2.43.0


From aa1ad30c6ef320d017f9e5d20af44ea06dc3e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 08/31] fix: local search ends with high penalties

With the penalties of the decomposed search floating point noise can exceed the
tolerance, and moves without effect on the cost were repeated forever.
---
 src/solver/improvement/local_search.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index c9f733a..00ec686 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -151,6 +151,7 @@ impl LocalSearch {
     unsafe fn search(&mut self) {
         let mut loop_count = 0;
         let mut improvement = true;
+        let mut cost = self.cost();
         let moves = &*{ &self.moves as *const Moves };
         // Moves into empty routes are not tested in the first iteration, so there are at least two
         while improvement || loop_count < 2 {
@@ -264,9 +265,20 @@ impl LocalSearch {
                 }
             }
             loop_count += 1;
+
+            // Moves that do not change the cost can look like improvements due to limited floating
+            // point precision when the penalty is high. Stop before they are repeated forever.
+            let new_cost = self.cost();
+            improvement = improvement && new_cost < cost;
+            cost = new_cost;
         }
     }
 
+    // Penalized cost of all routes
+    fn cost(&self) -> f64 {
+        self.routes.iter().map(|route| route.cost).sum()
+    }
+
     fn update_individual(&self, individual: &mut Individual) {
         // Clear the genotype
         individual.genotype.clear();
-- 
2.43.0


From 71747a396155483ada4a63f3f841e539e3839274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 09/31] fix: resetting a time schedule restores temperature and
 progress

---
 src/solver/improvement/ruin_recreate/schedule.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 8dbc737..8b03a5f 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -158,6 +158,8 @@ impl Acceptance for TimeSchedule {
         self.start = Instant::now();
         self.iterations = 0;
         self.iterations_since_update = 0;
+        self.temp = self.start_temp;
+        self.completed = false;
     }
 
     fn print(&self) {
-- 
2.43.0


From 88c2b278cec5f6e46bc93ea689493e6499b20799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 10/31] fix: ruin and recreate starts from the cost of the
 loaded solution

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2368413..15e3770 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -176,9 +176,9 @@ impl RuinRecreate {
 
         // Load solution
         self.solution.load(individual);
-        self.current_solution = self.solution.clone();
         let routes: Vec<usize> = (0..self.solution.routes.len()).into_iter().collect();
         self.solution.evaluate(self.ctx, routes.iter());
+        self.current_solution = self.solution.clone();
         self.acceptance.reset();
         // self.acceptance.print();
 
-- 
2.43.0


From 5e32d216d56fbfbcf140f5f541feae5c46b27730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 11/31] fix: crossover ends with a single customer

---
 src/solver/genetic/genetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index ddfd35c..625f4a8 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -65,6 +65,14 @@ impl GeneticAlgorithm {
         parent_one: &Individual,
         parent_two: &Individual,
     ) -> Individual {
+        // With a single customer there is nothing to recombine
+        if parent_one.genotype.len() < 2 {
+            return Individual::new(
+                parent_one.genotype.clone(),
+                self.population.total_individuals_count,
+            );
+        }
+
         // Randomly select start of the crossover zone
         let start = ctx.random.range_usize(0, parent_one.genotype.len());
 
-- 
2.43.0


From b0940ab0e61df4f34dff2782cb77d17745dec8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 12/31] fix: the best solution includes those reported by ruin
 and recreate

---
 src/solver/genetic/genetic.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 625f4a8..bbfb21f 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -264,11 +264,27 @@ impl GeneticAlgorithm {
                 .current_best_solution_cost
                 .approx_lt(search_history.best_cost)
             {
-                self.best_solution = Some(self.child.clone());
                 search_history.add_message(format!("New best: {:.2}", self.child.penalized_cost()));
                 search_history.add(ctx, &self.child);
             }
         }
+
+        // The best solution is the one reported last, also if it was the ruin and recreate search
+        // that reported it
+        let search_history = ctx.search_history.borrow();
+        let best_cost = self
+            .best_solution
+            .as_ref()
+            .map_or(f64::INFINITY, |best| best.penalized_cost());
+        if let Some(last_entry) = search_history.last_entry() {
+            if last_entry.solution.cost < best_cost {
+                let routes = last_entry.solution.routes.clone();
+                let mut best = Individual::new(routes.iter().flatten().copied().collect(), 0);
+                best.phenotype = routes;
+                best.evaluate(ctx);
+                self.best_solution = Some(best);
+            }
+        }
     }
 
     fn reset(&mut self, ctx: &Context) {
-- 
2.43.0


From 439b62b350b5ba5a0056e108b05c4ab0370faf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 13/31] fix: a decomposed solution comes back with exactly the
 fleet's routes

---
 src/solver/genetic/decomposition.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 78e886c..e3c642a 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -137,6 +137,13 @@ impl<'a> Decomposition<'a> {
     pub fn new(global: &'a mut Individual, ctx: &Context) -> Self {
         let (mut sub_solution, mapping) = Self::decompose_global(&mut *global, ctx);
         let sub_ctx = ctx.from_mapping(&mapping[..]);
+
+        // The sub-problem gets the vehicles which the rest of the global solution does not use
+        let num_vehicles =
+            ctx.config.borrow().num_vehicles as usize - global.num_nonempty_routes();
+        sub_ctx.config.borrow_mut().num_vehicles = num_vehicles as u64;
+        sub_solution.phenotype.resize(num_vehicles, Vec::new());
+
         sub_solution.sort_routes(&sub_ctx);
         sub_solution.evaluate(&sub_ctx);
         println!("Decomposed size: {}", sub_ctx.problem.dim());
@@ -167,6 +174,7 @@ impl<'a> Decomposition<'a> {
     }
 
     pub fn finish(self, ctx: &Context) {
+        self.global.phenotype.retain(|route| !route.is_empty());
         for route in self.solution.phenotype.iter() {
             let new_route: Vec<usize> = route
                 .iter()
@@ -176,6 +184,8 @@ impl<'a> Decomposition<'a> {
                 self.global.phenotype.push(new_route);
             }
         }
+        let num_vehicles = ctx.config.borrow().num_vehicles as usize;
+        self.global.phenotype.resize(num_vehicles, Vec::new());
         self.global.genotype = self.global.phenotype.iter().flatten().copied().collect();
         self.global.sort_routes(ctx);
         self.global.evaluate(ctx);
@@ -228,6 +238,7 @@ impl<'a> Decomposition<'a> {
         let mut new_phenotype: Vec<Vec<usize>> = selected_routes
             .iter()
             .map(|&route_index| global.phenotype[route_index].clone())
+            .filter(|route| !route.is_empty())
             .collect();
 
         let mut index = 1;
@@ -240,10 +251,6 @@ impl<'a> Decomposition<'a> {
         }
 
         let new_genotype: Vec<usize> = new_phenotype.iter().flatten().copied().collect();
-        let extra_empty_routes = ((new_phenotype.len() as f64 / 10.0) + 2.0).round() as usize;
-        for _ in 0..extra_empty_routes {
-            new_phenotype.push(Vec::new());
-        }
 
         let mut sub_solution = Individual::empty();
         sub_solution.genotype = new_genotype;
-- 
2.43.0


From 20fe5c4fb48bb62df6ba99c098715ae4143f63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 14/31] fix: decomposition goes on when a sub-problem has no
 feasible solution

---
 src/solver/genetic/decomposition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index e3c642a..fba88d7 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -170,7 +170,10 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        self.solution = sub_ga.best_solution.unwrap();
+        // Keep the solution from before if no feasible solution was found
+        if let Some(best_solution) = sub_ga.best_solution {
+            self.solution = best_solution;
+        }
     }
 
     pub fn finish(self, ctx: &Context) {
-- 
2.43.0


From 23874d419ed4f5d6c889657d78e47eeeb652e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 15/31] fix: the iteration limit ends decomposed runs

---
 src/solver/genetic/decomposition.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index fba88d7..30054dd 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -78,6 +78,7 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 self.state = State::Cycle;
             }
             State::Cycle => {
+                ctx.next_iteration();
                 // panic!("{:?}", self.global_solution);
                 // println!("{:?}", self.global_solution);
                 // self.global_solution.print();
-- 
2.43.0


From 1a1ef7ffb3196d115857a20c91a833da3ac38737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 16/31] fix: seeds near the largest number do not overflow

---
 src/utils/random.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/random.rs b/src/utils/random.rs
index 6bfdce7..8366a5b 100644
--- a/src/utils/random.rs
+++ b/src/utils/random.rs
@@ -60,7 +60,12 @@ impl Random {
 
     pub fn random_state(&self) -> RandomState {
         if let Some(seed) = self.seed {
-            RandomState::with_seeds(seed, seed + 123, seed + 321, seed + 1337)
+            RandomState::with_seeds(
+                seed,
+                seed.wrapping_add(123),
+                seed.wrapping_add(321),
+                seed.wrapping_add(1337),
+            )
         } else {
             RandomState::new()
         }
-- 
2.43.0


From c275d2e62f3b0ac31042812f72cde83d81ec2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 17/31] fix: ruin and recreate goes through the ruined routes
 in an order given by the seed

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 15e3770..1dcf53b 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -40,7 +40,7 @@ impl RuinRecreateSolution {
         Self {
             routes,
             unassigned,
-            ruined_routes: HashSet::with_hasher(RandomState::new()),
+            ruined_routes: HashSet::with_hasher(ctx.random.random_state()),
             locations,
             cost: f64::INFINITY,
         }
-- 
2.43.0


From f0ac210020f827fe642911dc9364786a6cd2ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 18/31] fix: only given arguments override the configuration
 file

---
 src/cli.rs    | 13 ++++++-------
 src/config.rs | 10 +++++++---
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3c47c90..b40e63d 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,7 +6,7 @@ pub struct Args {
     pub solution_path: Option<String>,
     pub time_limit: Option<u64>,
     pub max_iterations: Option<u64>,
-    pub rounded: bool,
+    pub rounded: Option<bool>,
 }
 
 impl Args {
@@ -25,8 +25,7 @@ impl Args {
                 Arg::with_name("solution_path")
                     .short("o")
                     .takes_value(true)
-                    .default_value("output.sol")
-                    .help("Path to solution output"),
+                    .help("Path to solution output, output.sol unless configured"),
             )
             .arg(
                 Arg::with_name("iterations")
@@ -38,15 +37,13 @@ impl Args {
                 Arg::with_name("time_limit")
                     .short("t")
                     .takes_value(true)
-                    .default_value("10")
                     .help("Time limit in seconds"),
             )
             .arg(
                 Arg::with_name("rounded")
                     .short("r")
                     .takes_value(true)
-                    .default_value("true")
-                    .help("Rounded distances"),
+                    .help("Rounded distances: true or false"),
             )
             .get_matches();
 
@@ -65,7 +62,9 @@ impl Args {
             .value_of("time_limit")
             .map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));
 
-        let rounded = matches.is_present("rounded");
+        let rounded = matches
+            .value_of("rounded")
+            .map(|value| value.parse::<bool>().expect("Invalid rounded argument!"));
 
         Self {
             instance_path,
diff --git a/src/config.rs b/src/config.rs
index b1a5ef6..7e92351 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -90,7 +90,7 @@ impl Config {
         Self {
             // General
             instance_path: String::new(),
-            solution_path: None,
+            solution_path: Some(String::from("output.sol")),
             time_limit: 60,
             bks: f64::INFINITY,
             max_iterations: None,
@@ -213,13 +213,17 @@ impl Config {
     /// Update config with command line arguments
     pub fn update_from_args(&mut self, args: &Args) {
         self.instance_path = args.instance_path.clone();
-        self.solution_path = args.solution_path.clone();
+        if let Some(solution_path) = &args.solution_path {
+            self.solution_path = Some(solution_path.clone());
+        }
         if let Some(max_iterations) = args.max_iterations {
             self.max_iterations_without_improvement = max_iterations;
         }
         if let Some(time_limit) = args.time_limit {
             self.time_limit = time_limit;
         }
-        self.round_distances = args.rounded;
+        if let Some(rounded) = args.rounded {
+            self.round_distances = rounded;
+        }
     }
 }
-- 
2.43.0


From b4dd8da686b382c8a5391fb3de3616045fb03316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 19/31] fix: a lower row matrix may be broken into lines
 anywhere

---
 src/utils/parser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index a75775b..6ce14c8 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -185,13 +185,16 @@ impl ProblemParser {
     fn parse_lower_row_matrix(lines: &Lines, number: usize) -> Vec<Vec<f64>> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "EDGE_WEIGHT_SECTION" {
-                return lines
+                // The entries count, not how they are broken into lines
+                let mut entries = lines
                     .iter()
                     .skip(line_number + 1)
-                    .take(number - 1)
-                    .map(|line| {
-                        line.iter()
-                            .map(|val| val.parse::<f64>().expect("Failed to parse edge weight"))
+                    .flatten()
+                    .map(|val| val.parse::<f64>().expect("Failed to parse edge weight"));
+                return (1..number)
+                    .map(|row| {
+                        (0..row)
+                            .map(|_| entries.next().expect("Too few edge weights"))
                             .collect()
                     })
                     .collect();
-- 
2.43.0


From 2a66cdb3d50bda913908b2a55f073e28a2f0b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 20/31] fix: rounding noise made ruin and recreate report the
 same solution as a new best

---
 src/solver/improvement/ruin_recreate/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 1dcf53b..ab81bc5 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -200,9 +200,15 @@ impl RuinRecreate {
         {
             let mut best_individual = Individual::new_random(self.ctx, 0);
             self.update_individual(&self.current_solution, &mut best_individual);
-            search_history
-                .add_message(format!("New best: {:.2}", best_individual.penalized_cost()));
-            search_history.add(self.ctx, &best_individual);
+            // The cost of the search carries the rounding noise of all its moves
+            if best_individual
+                .penalized_cost()
+                .approx_lt(search_history.best_cost)
+            {
+                search_history
+                    .add_message(format!("New best: {:.2}", best_individual.penalized_cost()));
+                search_history.add(self.ctx, &best_individual);
+            }
         }
     }
 
-- 
2.43.0


From 0713296dc0e85bee3a061d0192b2d35d55fe896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 21/31] fix: rounding noise kept the search for the first
 global solution running for ever

---
 src/solver/genetic/decomposition.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 30054dd..13cf5e4 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -49,13 +49,19 @@ impl DecomposedGeneticAlgorithm {
         let rr = &mut self.global_ga.rr;
         rr.load(ctx, &mut self.global_ga.child);
         loop {
-            let cost_before = rr.best_cost();
+            // The cost within the search carries rounding noise, which could go down for ever
+            let cost_before = self.global_ga.child.penalized_cost();
             rr.acceptance.reset();
             while !rr.complete() {
                 rr.search();
             }
             rr.get_best_solution(&mut self.global_ga.child);
-            if rr.best_cost().approx_gte(cost_before) {
+            if self
+                .global_ga
+                .child
+                .penalized_cost()
+                .approx_gte(cost_before)
+            {
                 break;
             }
         }
-- 
2.43.0


From 9ee6fadbee6273fa52bd082d164252282f0758dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 22/31] fix: the run panicked when sorting individuals of
 nearly equal cost

---
 src/solver/genetic/genetic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index bbfb21f..72d61ff 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -176,7 +176,11 @@ impl GeneticAlgorithm {
             individual.evaluate(ctx);
         }
 
-        self.population.infeasible.population.sort();
+        // The order of individuals treats nearly equal costs as equal, which makes it no total order
+        self.population
+            .infeasible
+            .population
+            .sort_by(|a, b| a.penalized_cost().total_cmp(&b.penalized_cost()));
     }
 
     pub fn educate(&mut self, ctx: &Context) {
-- 
2.43.0


From 278406b77693f966573b0324918a1dabf49fee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 23/31] fix: empty matrices were allocated with no size, which
 is undefined

---
 src/models/matrix.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 0a0e797..50d409d 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -24,7 +24,8 @@ where
 impl<T: Copy> Matrix<T> {
     pub fn new(rows: usize, cols: usize) -> Self {
         // Allocate memory for the matrix
-        let elements = rows * cols;
+        // At least one element: an allocation must not be empty
+        let elements = (rows * cols).max(1);
         let layout = Layout::array::<T>(elements).expect("Failed to create layout for matrix");
         let ptr = unsafe {
             let ptr = alloc_zeroed(layout) as *mut T;
@@ -121,8 +122,8 @@ where
     T: Copy,
 {
     fn drop(&mut self) {
-        let layout =
-            Layout::array::<T>(self.rows * self.cols).expect("Failed to create layout for matrix");
+        let elements = (self.rows * self.cols).max(1);
+        let layout = Layout::array::<T>(elements).expect("Failed to create layout for matrix");
         unsafe { dealloc(self.ptr as *mut u8, layout) };
     }
 }
-- 
2.43.0


From 8f9ae224dffef4596dc27fc1bfe10fdc5045268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 24/31] fix: the log named the best solutions of sub-problems
 as new best ones

---
 src/solver/history.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.rs b/src/solver/history.rs
index 75521b4..ba7056d 100644
--- a/src/solver/history.rs
+++ b/src/solver/history.rs
@@ -115,7 +115,10 @@ impl SearchHistory {
             timestamp,
         };
 
-        log::info!("{}", new_best_message);
+        // The best of a sub-problem is no best of the problem
+        if self.log_new_best {
+            log::info!("{}", new_best_message);
+        }
 
         // Keep only json for the last found solution
         self.remove_previous_data();
-- 
2.43.0


From 438dd6dedbe7a214638d9ce75dd697aa29d80417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 25/31] fix: the DIMACS script gives -r the value the program
 asks for

---
 HGSRR-DIMACS.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HGSRR-DIMACS.sh b/HGSRR-DIMACS.sh
index 9f27d71..72a67e2 100755
--- a/HGSRR-DIMACS.sh
+++ b/HGSRR-DIMACS.sh
@@ -31,7 +31,7 @@ fi
 
 if [ $ROUNDED -eq 1 ]
 then
-    ./hybridcvrp $INSTANCE -t $TIME_LIMIT -r
+    ./hybridcvrp $INSTANCE -t $TIME_LIMIT -r true
 else
-    ./hybridcvrp $INSTANCE -t $TIME_LIMIT
+    ./hybridcvrp $INSTANCE -t $TIME_LIMIT -r false
 fi
-- 
2.43.0


From 89ceb82c47fb77a6763e8de04162be3733508957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:46 +0000
Subject: [PATCH 26/31] fix: instance files with missing or extra lines were
 read as another problem

---
 src/utils/parser.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index 6ce14c8..b4f3d8a 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -151,9 +151,26 @@ impl ProblemParser {
         panic!("Could not find EDGE_WEIGHT_FORMAT");
     }
 
+    /// Panics unless the section has exactly one line for each node
+    fn check_section(section: &[Vec<String>], number: usize) {
+        let length = section
+            .iter()
+            .skip(1)
+            .take_while(|line| !line.is_empty() && line[0].parse::<f64>().is_ok())
+            .count();
+        assert!(
+            length == number,
+            "Found {} lines in {}, but DIMENSION is {}",
+            length,
+            section[0][0],
+            number
+        );
+    }
+
     fn parse_coords(lines: &Lines, number: usize) -> Vec<Coordinate> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "NODE_COORD_SECTION" {
+                Self::check_section(&lines[line_number..], number);
                 return lines
                     .iter()
                     .skip(line_number + 1)
@@ -171,6 +188,7 @@ impl ProblemParser {
     fn parse_demands(lines: &Lines, number: usize) -> Vec<f64> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "DEMAND_SECTION" {
+                Self::check_section(&lines[line_number..], number);
                 return lines
                     .iter()
                     .skip(line_number + 1)
@@ -185,6 +203,17 @@ impl ProblemParser {
     fn parse_lower_row_matrix(lines: &Lines, number: usize) -> Vec<Vec<f64>> {
         for (line_number, line) in lines.iter().enumerate() {
             if !line.is_empty() && line[0] == "EDGE_WEIGHT_SECTION" {
+                let length = lines[line_number + 1..]
+                    .iter()
+                    .flatten()
+                    .take_while(|val| val.parse::<f64>().is_ok())
+                    .count();
+                assert!(
+                    length == number * (number - 1) / 2,
+                    "Found {} edge weights, but DIMENSION is {}",
+                    length,
+                    number
+                );
                 // The entries count, not how they are broken into lines
                 let mut entries = lines
                     .iter()
-- 
2.43.0


From 13d2eab9470280d1773c7aa7d9cc1a2a241347fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:16 +0000
Subject: [PATCH 27/31] fix: a folder in place of the instance file was read
 for ever

---
 src/utils/parser.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index b4f3d8a..7885fb7 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -1,5 +1,3 @@
-use std::fs::File;
-use std::io::{BufRead, BufReader};
 use std::path::Path;
 use std::str::FromStr;
 
@@ -86,12 +84,10 @@ impl ProblemParser {
     }
 
     fn read_file(path: &Path) -> Lines {
-        let file = File::open(path).expect("Failed to open file");
-        let reader = BufReader::new(file);
-        let line_strings: Vec<String> = reader.lines().filter_map(|line| line.ok()).collect();
+        let bytes = std::fs::read(path).expect("Failed to read file");
 
-        line_strings
-            .iter()
+        String::from_utf8_lossy(&bytes)
+            .lines()
             .map(|line| {
                 let line_values: Vec<String> = line
                     .split(&[' ', '\t', ':'][..])
-- 
2.43.0


From f5097404a39f9622a4ee1159a1e289f7dccc7df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 28/31] fix: a depot other than the first node was passed over

---
 src/utils/parser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index 7885fb7..5decd01 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -63,6 +63,7 @@ impl ProblemParser {
 
         let dimension = Self::parse_dimension(&lines);
         let capacity = Self::parse_capacity(&lines);
+        Self::check_depot(&lines);
         let coords = Self::parse_coords(&lines, dimension);
         let demands = Self::parse_demands(&lines, dimension);
         let nodes = Self::create_nodes(coords, demands);
@@ -147,6 +148,23 @@ impl ProblemParser {
         panic!("Could not find EDGE_WEIGHT_FORMAT");
     }
 
+    /// Panics if any other node than the first is a depot
+    fn check_depot(lines: &Lines) {
+        for (line_number, line) in lines.iter().enumerate() {
+            if !line.is_empty() && line[0] == "DEPOT_SECTION" {
+                let depots = lines
+                    .iter()
+                    .skip(line_number + 1)
+                    .take_while(|line| line.len() == 1)
+                    .map(|line| line[0].parse::<usize>())
+                    .take_while(|depot| depot.is_ok());
+                for depot in depots {
+                    assert!(depot == Ok(1), "Only the first node can be the depot");
+                }
+            }
+        }
+    }
+
     /// Panics unless the section has exactly one line for each node
     fn check_section(section: &[Vec<String>], number: usize) {
         let length = section
-- 
2.43.0


From 4335729fab442d1ae8215eeec7ae47083257d82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:16 +0000
Subject: [PATCH 29/31] fix: sub-problems were never taken around the last
 customer, but around the depot

---
 src/solver/genetic/decomposition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 13cf5e4..0060a1e 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -208,7 +208,7 @@ impl<'a> Decomposition<'a> {
                 route_for_customer[customer] = route_number;
             }
         }
-        let seed_customer = ctx.random.range_usize(0, global.genotype.len());
+        let seed_customer = ctx.random.range_usize(1, global.genotype.len() + 1);
 
         let mut selected_customers: HashSet<usize, RandomState> =
             HashSet::with_capacity_and_hasher(200, ctx.random.random_state());
-- 
2.43.0


From 540306b9d297ddececed75e693bc33d2d7a33474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:28 +0000
Subject: [PATCH 30/31] fix: the split used more routes than the fleet of a
 sub-problem has

The split raises the number of routes to the lower bound of the demands, which
the fleet of a sub-problem does not reach when it is taken from an infeasible
global solution. The run then panicked.
---
 src/solver/genetic/split.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index eda7d6a..b7ba9c8 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -178,7 +178,10 @@ impl Split {
     }
 
     pub fn run(&mut self, ctx: &Context, individual: &mut Individual, max_vehicles: u64) {
-        let max_vehicles = max_vehicles.max(ctx.vehicle_lower_bound()) as usize;
+        // The fleet of a sub-problem can be too small for its demands
+        let max_vehicles = max_vehicles
+            .max(ctx.vehicle_lower_bound())
+            .min(ctx.config.borrow().num_vehicles) as usize;
         self.load(ctx, individual);
 
         if !self.split(ctx, individual, max_vehicles) {
-- 
2.43.0


From 8b23b4c3a1acdc15515922e8dd0107868cc83032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:58 +0000
Subject: [PATCH 31/31] fix: nan and inf were read as numbers of an instance

---
 src/utils/parser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index 5decd01..e0d5109 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -111,10 +111,18 @@ impl ProblemParser {
         panic!("Could not find DIMENSION");
     }
 
+    /// Words such as nan and inf are no numbers of an instance
+    fn parse_number(value: &str) -> Option<f64> {
+        value
+            .parse::<f64>()
+            .ok()
+            .filter(|number| number.is_finite())
+    }
+
     fn parse_capacity(lines: &Lines) -> f64 {
         for line in lines.iter() {
             if !line.is_empty() && line[0] == "CAPACITY" {
-                return line[1].parse::<f64>().expect("Failed to parse capacity");
+                return Self::parse_number(&line[1]).expect("Failed to parse capacity");
             }
         }
         panic!("Could not find CAPACITY");
@@ -171,6 +179,11 @@ impl ProblemParser {
             .iter()
             .skip(1)
             .take_while(|line| !line.is_empty() && line[0].parse::<f64>().is_ok())
+            .take_while(|line| {
+                // Words such as nan and inf are no numbers of an instance
+                line.iter()
+                    .all(|val| val.parse::<f64>().map_or(true, f64::is_finite))
+            })
             .count();
         assert!(
             length == number,
@@ -233,7 +246,7 @@ impl ProblemParser {
                     .iter()
                     .skip(line_number + 1)
                     .flatten()
-                    .map(|val| val.parse::<f64>().expect("Failed to parse edge weight"));
+                    .map(|val| Self::parse_number(val).expect("Failed to parse edge weight"));
                 return (1..number)
                     .map(|row| {
                         (0..row)
-- 
2.43.0

