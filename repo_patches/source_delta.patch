From eb62f05cc69e08a1f4542c986c8a5e890ac80a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 01/41] fix: pass the algorithm's generator to every repair
 call

Repair functions that draw random numbers (rand) fell back to an unseeded
generator, so runs with a fixed seed were not reproducible.
---
 src/niapy/algorithms/basic/ba.py      |  2 +-
 src/niapy/algorithms/basic/bea.py     |  2 +-
 src/niapy/algorithms/basic/bfo.py     |  2 +-
 src/niapy/algorithms/basic/cso.py     |  4 ++--
 src/niapy/algorithms/basic/fa.py      |  2 +-
 src/niapy/algorithms/basic/loa.py     | 14 +++++++-------
 src/niapy/algorithms/basic/mbo.py     |  6 ++++--
 src/niapy/algorithms/basic/pso.py     |  6 +++---
 src/niapy/algorithms/modified/plba.py |  2 +-
 9 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 76ce334..4657136 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -162,7 +162,7 @@ class BatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness)
+        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bat Algorithm.
diff --git a/src/niapy/algorithms/basic/bea.py b/src/niapy/algorithms/basic/bea.py
index ba9022d..3325caf 100644
--- a/src/niapy/algorithms/basic/bea.py
+++ b/src/niapy/algorithms/basic/bea.py
@@ -136,7 +136,7 @@ class BeesAlgorithm(Algorithm):
         ind = self.integers(task.dimension)
         y = x.copy()
         y[ind] = x[ind] + self.uniform(-ngh, ngh)
-        y = task.repair(y)
+        y = task.repair(y, rng=self.rng)
         y_fitness = task.eval(y)
         return y, y_fitness
 
diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index 9a17344..cd422bc 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -250,7 +250,7 @@ class BacterialForagingOptimization(Algorithm):
 
             m = 0
             while True:
-                population[i] = task.repair(population[i] + self.step_size * step_direction)
+                population[i] = task.repair(population[i] + self.step_size * step_direction, rng=self.rng)
                 population_fitness[i] = task.eval(population[i])
 
                 if population_fitness[i] < best_fitness:
diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index 738123f..ca2504c 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -194,7 +194,7 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies[j][to_vary_indexes] += cat_copies[j][to_vary_indexes] * self.srd
             else:
                 cat_copies[j][to_vary_indexes] -= cat_copies[j][to_vary_indexes] * self.srd
-            cat_copies[j] = task.repair(cat_copies[j])
+            cat_copies[j] = task.repair(cat_copies[j], rng=self.rng)
             cat_copies_fs.append(task.eval(cat_copies[j]))
         if self.spc:
             cat_copies.append(cat.copy())
@@ -233,7 +233,7 @@ class CatSwarmOptimization(Algorithm):
         """
         new_velocity = np.clip(velocity + (self.random(len(velocity)) * self.c1 * (xb - cat)),
                                -self.max_velocity, self.max_velocity)
-        cat_new = task.repair(cat + new_velocity)
+        cat_new = task.repair(cat + new_velocity, rng=self.rng)
         return cat_new, task.eval(cat_new), new_velocity
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
diff --git a/src/niapy/algorithms/basic/fa.py b/src/niapy/algorithms/basic/fa.py
index b488d80..0c7d705 100644
--- a/src/niapy/algorithms/basic/fa.py
+++ b/src/niapy/algorithms/basic/fa.py
@@ -168,7 +168,7 @@ class FireflyAlgorithm(Algorithm):
                     beta = self.beta0 * np.exp(-self.gamma * r ** 2)
                     steps = alpha * (self.random(task.dimension) - 0.5) * task.range
                     population[i] += beta * (population[j] - population[i]) + steps
-                    population[i] = task.repair(population[i])
+                    population[i] = task.repair(population[i], rng=self.rng)
                     population_fitness[i] = task.eval(population[i])
                     best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
 
diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 19c621f..86edbe0 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -342,7 +342,7 @@ class LionOptimizationAlgorithm(Algorithm):
         if hunters:
             prey_x /= len(hunters)
 
-        return task.repair(prey_x), group_fitness, hunters
+        return task.repair(prey_x, rng=self.rng), group_fitness, hunters
 
     def _move_opposition(self, lion, prey_x, task):
         for i in range(task.dimension):
@@ -352,7 +352,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif opposite > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], opposite)
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_center(self, lion, prey_x, task):
@@ -362,7 +362,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif lion.current_x[i] > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], lion.current_x[i])
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_hunter(self, lion, prey_x, left, right, center, task):
@@ -380,7 +380,7 @@ class LionOptimizationAlgorithm(Algorithm):
 
             improvement = 1 - lion.f / lion.previous_iter_best_f
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
-            return task.repair(prey_x)
+            return task.repair(prey_x, rng=self.rng)
 
         return prey_x
 
@@ -480,7 +480,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     + rnd_u * np.tan(angle) * d * r_two
                 )
 
-                lion.current_x = task.repair(lion.current_x)
+                lion.current_x = task.repair(lion.current_x, rng=self.rng)
                 lion.current_f = task.eval(lion.current_x)
 
                 if lion.current_f < lion.f:
@@ -530,7 +530,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     angle = self.uniform(-np.pi / 6, np.pi / 6)
 
                     lion.current_x += x * d * np.tan(angle)
-                    lion.current_x = task.repair(lion.current_x)
+                    lion.current_x = task.repair(lion.current_x, rng=self.rng)
                     lion.current_f = task.eval(lion.current_x)
 
                     if lion.current_f < lion.f:
@@ -602,7 +602,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.has_improved = True
             cub.gender = gender
 
-            cub.evaluate(task)
+            cub.evaluate(task, rng=self.rng)
             cub.current_x = x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 2072c0e..f572355 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -258,10 +258,12 @@ class MonarchButterflyOptimization(Algorithm):
         elite = np.copy(population[:self.keep])
         max_t = task.max_iters if not np.isinf(task.max_iters) else task.max_evals / self.population_size
         population = np.apply_along_axis(task.repair, 1,
-                                         self.migration_operator(task.dimension, self.np1, self.np2, population))
+                                         self.migration_operator(task.dimension, self.np1, self.np2, population),
+                                         rng=self.rng)
         population = np.apply_along_axis(task.repair, 1,
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
-                                                                 population, current_best))
+                                                                 population, current_best),
+                                         rng=self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         current_best = population[0]
         population[-self.keep:] = elite
diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index ae8bce4..d84b08f 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -207,7 +207,7 @@ class ParticleSwarmAlgorithm(Algorithm):
         """
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) + self.c2 * self.random(task.dimension) * (gb - p),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of Particle Swarm Optimization algorithm.
@@ -937,7 +937,7 @@ class MutatedCenterUnifiedParticleSwarmOptimization(MutatedCenterParticleSwarmOp
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) * r3 + self.c2 * self.random(task.dimension) * (
                         gb - p) * (1 - r3),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
 
 class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
@@ -1096,7 +1096,7 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
             numpy.ndarray: Updated velocity of particle.
 
         """
-        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity)
+        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of algorithm.
diff --git a/src/niapy/algorithms/modified/plba.py b/src/niapy/algorithms/modified/plba.py
index 8c65ec9..793d5d9 100644
--- a/src/niapy/algorithms/modified/plba.py
+++ b/src/niapy/algorithms/modified/plba.py
@@ -104,7 +104,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension))
+        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension), rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Parameter-free Bat Algorithm.
-- 
2.43.0


From 9f1b5c797be2bb0795cf1a66decaa24b9ba959d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 02/41] fix: jDE/SHADE/ILSHADE hand the generator, not the
 bound method, to evaluate

With the rand repair function these algorithms raised a TypeError.
---
 src/niapy/algorithms/modified/ilshade.py | 2 +-
 src/niapy/algorithms/modified/jde.py     | 2 +-
 src/niapy/algorithms/modified/shade.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index de3d7b2..0145dff 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -213,7 +213,7 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
diff --git a/src/niapy/algorithms/modified/jde.py b/src/niapy/algorithms/modified/jde.py
index ecd7d95..56092be 100644
--- a/src/niapy/algorithms/modified/jde.py
+++ b/src/niapy/algorithms/modified/jde.py
@@ -174,7 +174,7 @@ class SelfAdaptiveDifferentialEvolution(DifferentialEvolution):
         for i, e in enumerate(new_pop):
             new_pop[i].x = self.strategy(new_pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
         for e in new_pop:
-            e.evaluate(task, rng=self.random)
+            e.evaluate(task, rng=self.rng)
         return new_pop
 
 
diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index deefd65..d628432 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -279,7 +279,7 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
-- 
2.43.0


From ce043e9a0ab8a6f4e7ca686731faf1502a702fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 03/41] fix: CuckooSearch repairs nests one by one

Repair functions other than limit index the bounds by component and raised
IndexError on the whole population.
---
 src/niapy/algorithms/basic/cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 5828e42..6b3d854 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -96,14 +96,14 @@ class CuckooSearch(Algorithm):
     def get_cuckoos(self, population, best_x, task):
         step_size = levy_flight(self.rng, size=population.shape) * (population - best_x)
         new_population = population + step_size * self.standard_normal(population.shape)
-        return task.repair(new_population, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
 
     def empty_nests(self, population, task):
         abandoned = self.random(population.shape) > self.pa
         i = self.rng.permutation(self.population_size)
         j = self.rng.permutation(self.population_size)
         step_size = self.random() * (population[i] - population[j])
-        return task.repair(population + step_size * abandoned, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, population + step_size * abandoned, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of CuckooSearch algorithm.
-- 
2.43.0


From c6185351549c1fd3e171f37986be30275de57a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 04/41] fix: NelderMeadMethod repairs reflected, expanded,
 contracted and shrunk points

They were evaluated (and could be returned) outside the search space.
---
 src/niapy/algorithms/other/nmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b8c7409..b7cd956 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -140,25 +140,26 @@ class NelderMeadMethod(Algorithm):
 
         """
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
-        xr = x0 + self.alpha * (x0 - population[-1])
+        xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
         if population_fitness[0] >= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-            xe = x0 + self.gamma * (x0 - population[-1])
+            xe = task.repair(x0 + self.gamma * (x0 - population[-1]), rng=self.rng)
             re = task.eval(xe)
             if re < rs:
                 population[-1], population_fitness[-1] = xe, re
             else:
                 population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
-        xc = x0 + self.rho * (x0 - population[-1])
+        xc = task.repair(x0 + self.rho * (x0 - population[-1]), rng=self.rng)
         rc = task.eval(xc)
         if rc < population_fitness[-1]:
             population[-1], population_fitness[-1] = xc, rc
             return population, population_fitness
         new_population = population[0] + self.sigma * (population[1:] - population[0])
+        new_population = np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
         new_population_fitness = np.apply_along_axis(task.eval, 1, new_population)
         population[1:], population_fitness[1:] = new_population, new_population_fitness
         return population, population_fitness
-- 
2.43.0


From 6ac309fade16cc96c68397cc59f544c8e4680984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 05/41] fix: RandomSearch pairs the initial fitness with the
 candidate it was computed for

---
 src/niapy/algorithms/other/rs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 0a3fd63..4cc09bc 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -109,7 +109,8 @@ class RandomSearch(Algorithm):
                     self.candidates.append(x)
                     break
 
-        x_fit = task.eval(self.candidates[0])
+        x = self.candidates[0]
+        x_fit = task.eval(x)
         return x, x_fit, {}
 
     def run_iteration(self, task, x, x_fit, best_x, best_fitness, **params):
-- 
2.43.0


From de7f29aaf5958b451dce1726cbc03417814aea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 06/41] fix: MTS local searches keep positions and fitness in
 step

mts_ls1/mts_ls1v1 modified the caller's arrays in place (possibly the best
solution itself) and mts_ls3 kept moving the array it had stored as the
current solution, so positions no longer matched their fitness.
---
 src/niapy/algorithms/other/mts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index b484daa..ed9af4d 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -41,6 +41,7 @@ def mts_ls1(current_x, current_fitness, best_x, best_fitness, improve, search_ra
             6. Search range.
 
     """
+    current_x = np.copy(current_x)
     if not improve:
         search_range /= 2
         i_fix = np.argwhere(search_range < 1e-15)
@@ -106,6 +107,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             6. Search range.
 
     """
+    current_x = np.copy(current_x)
     if not improve:
         search_range /= 2
         i_fix = np.argwhere(search_range < 1e-15)
@@ -262,7 +264,7 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
                 best_x, best_fitness, grade = x_new.copy(), x_new_fitness, grade + bonus1
             else:
                 grade += bonus2
-            current_x, current_fitness, improve = x_new, x_new_fitness, True
+            current_x, current_fitness, improve = x_new.copy(), x_new_fitness, True
     return current_x, current_fitness, best_x, best_fitness, improve, grade, search_range
 
 
-- 
2.43.0


From 6d546c3ef4a94cad6c55fc08eec8637c9379417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 07/41] fix: CamelAlgorithm remembers the best camel before the
 life cycle replaces it

---
 src/niapy/algorithms/basic/ca.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/ca.py b/src/niapy/algorithms/basic/ca.py
index e0b0b35..6825c77 100644
--- a/src/niapy/algorithms/basic/ca.py
+++ b/src/niapy/algorithms/basic/ca.py
@@ -354,6 +354,7 @@ class CamelAlgorithm(Algorithm):
 
         """
         new_caravan = objects_to_array([self.walk(c, best_x, task) for c in population])
+        best_x, best_fitness = self.get_best(new_caravan, np.asarray([c.f for c in new_caravan]), best_x, best_fitness)
         new_caravan = objects_to_array([self.oasis(c) for c in new_caravan])
         new_caravan = objects_to_array([self.life_cycle(c, task) for c in new_caravan])
         new_caravan_fitness = np.asarray([c.f for c in new_caravan])
-- 
2.43.0


From 14661b4a8c444bf16e35833bfdb62807fa8ef081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 08/41] fix: LionOptimizationAlgorithm remembers the best lion
 before the population is trimmed

---
 src/niapy/algorithms/basic/loa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 86edbe0..14894d7 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -1042,7 +1042,9 @@ class LionOptimizationAlgorithm(Algorithm):
         lions = self.hunting(population, pride_size, task)
         lions = self.move_to_safe_place(lions, pride_size, task)
         lions = self.roaming(lions, pride_size, task)
+        best_x, best_fitness = self.get_best(lions, np.asarray([lion.f for lion in lions]), best_x, best_fitness)
         lions, excess = self.mating(lions, pride_size, gender_distribution, task)
+        best_x, best_fitness = self.get_best(lions, np.asarray([lion.f for lion in lions]), best_x, best_fitness)
         lions, excess = self.defense(lions, pride_size, gender_distribution, excess)
         lions, excess = self.migration(lions, pride_size, gender_distribution, excess)
         lions = self.population_equilibrium(
-- 
2.43.0


From 0047208bad332eb2068c64d0f319858faaab2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 09/41] fix: MonarchButterflyOptimization keeps the best
 butterfly when evaluations run out

The new population is evaluated twice; when the budget ran out in between,
the best solution found by the first evaluation was lost.
---
 src/niapy/algorithms/basic/mbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index f572355..8f620b9 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -265,6 +265,7 @@ class MonarchButterflyOptimization(Algorithm):
                                                                  population, current_best),
                                          rng=self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
+        best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
         current_best = population[0]
         population[-self.keep:] = elite
         population_fitness, population = self.evaluate_and_sort(task, population)
-- 
2.43.0


From 5a214b835acefcabf1aca476b283eaf0db22f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 10/41] fix: MonarchButterflyOptimization adjusting operator
 copies the same component

It always took component 1, which does not exist for one-dimensional tasks
and takes values from another component's range.
---
 src/niapy/algorithms/basic/mbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 8f620b9..6e993e1 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -182,7 +182,7 @@ class MonarchButterflyOptimization(Algorithm):
                     butterflies[k2, i] = best[i]
                 else:
                     r4 = self.integers(np2 - 1)
-                    butterflies[k2, i] = pop2[r4, 1]
+                    butterflies[k2, i] = pop2[r4, i]
                     if self.uniform(0.0, 1.0) > self.bar:
                         butterflies[k2, i] += scale * (delta_x[i] - 0.5)
         return butterflies
-- 
2.43.0


From c33ad0c5eb3a79e4ea6933527d84328cc89d3eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 11/41] fix: CatSwarmOptimization never forgets the best cat

A new best found in seeking mode was only written over a random cat and was
lost when that cat was replaced later in the same iteration.
---
 src/niapy/algorithms/basic/cso.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index ca2504c..6624eda 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -164,7 +164,7 @@ class CatSwarmOptimization(Algorithm):
         cumulative_sum = np.cumsum(weights)
         return np.argmax(cumulative_sum >= (self.random() * cumulative_sum[-1]))
 
-    def seeking_mode(self, task, cat, cat_fitness, pop, fpop, fxb):
+    def seeking_mode(self, task, cat, cat_fitness, pop, fpop, xb, fxb):
         r"""Seeking mode.
 
         Args:
@@ -173,14 +173,17 @@ class CatSwarmOptimization(Algorithm):
             cat_fitness (float): Current individual's fitness/function value.
             pop (numpy.ndarray): Current population.
             fpop (numpy.ndarray): Current population fitness/function values.
+            xb (numpy.ndarray): Current best cat.
             fxb (float): Current best cat fitness/function value.
 
         Returns:
-            Tuple[numpy.ndarray, float, numpy.ndarray, float]:
+            Tuple[numpy.ndarray, float, numpy.ndarray, numpy.ndarray, numpy.ndarray, float]:
                 1. Updated individual's position
                 2. Updated individual's fitness/function value
-                3. Updated global best position
-                4. Updated global best fitness/function value
+                3. Updated population
+                4. Updated population fitness/function values
+                5. Updated global best position
+                6. Updated global best fitness/function value
 
         """
         cat_copies = []
@@ -213,8 +216,9 @@ class CatSwarmOptimization(Algorithm):
             ind = self.integers(self.population_size)
             pop[ind] = cat_copies[np.where(cat_copies_fs == best_fitness)[0][0]]
             fpop[ind] = best_fitness
+            xb, fxb = pop[ind].copy(), best_fitness
         sel_index = self.weighted_selection(cat_copies_select_probs)
-        return cat_copies[sel_index], cat_copies_fs[sel_index], pop, fpop
+        return cat_copies[sel_index], cat_copies_fs[sel_index], pop, fpop, xb, fxb
 
     def tracing_mode(self, task, cat, velocity, xb):
         r"""Tracing mode.
@@ -263,18 +267,13 @@ class CatSwarmOptimization(Algorithm):
         pop_copies = population.copy()
         for k in range(len(pop_copies)):
             if modes[k] == 0:
-                pop_copies[k], population_fitness[k], pop_copies, population_fitness = self.seeking_mode(task,
-                                                                                                         pop_copies[k],
-                                                                                                         population_fitness[k],
-                                                                                                         pop_copies,
-                                                                                                         population_fitness,
-                                                                                                         best_fitness)
+                pop_copies[k], population_fitness[k], pop_copies, population_fitness, best_x, best_fitness = self.seeking_mode(
+                    task, pop_copies[k], population_fitness[k], pop_copies, population_fitness, best_x, best_fitness)
             else:  # if cat in tracing mode
                 pop_copies[k], population_fitness[k], velocities[k] = self.tracing_mode(task,
                                                                                         pop_copies[k],
                                                                                         velocities[k],
                                                                                         best_x)
-        best_index = np.argmin(population_fitness)
-        if population_fitness[best_index] < best_fitness:
-            best_x, best_fitness = pop_copies[best_index].copy(), population_fitness[best_index]
+                if population_fitness[k] < best_fitness:
+                    best_x, best_fitness = pop_copies[k].copy(), population_fitness[k]
         return pop_copies, population_fitness, best_x, best_fitness, {'velocities': velocities}
-- 
2.43.0


From d224db09bcbfb484dc54eb33249d8dc92ddb4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 12/41] fix: MantisSearchAlgorithm starts from the population
 it evaluated

The initial population was evaluated a second time, which lost its fitness
when the budget was small, and with normalize_space it was returned in
normalized coordinates although run_iteration expects real ones.
---
 src/niapy/algorithms/basic/mshoa.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 6c35dbf..748fbd5 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -289,15 +289,6 @@ class MantisSearchAlgorithm(Algorithm):
         """
         pop, fpop, d = super().init_population(task)
 
-        # Optional normalization: convert to normalized space if enabled
-        if self.normalize_space:
-            pop = self._normalize_from_real(pop, task.lower, task.upper)
-            # Convert back to real space for initial evaluation
-            pop_real = self._normalize_to_real(pop, task.lower, task.upper)
-            fpop = np.apply_along_axis(task.eval, 1, pop_real)
-        else:
-            fpop = np.apply_along_axis(task.eval, 1, pop)
-
         # Initialize PTI vector: round(1 + 2 * rand) gives values {1, 2, 3}
         pti = np.round(1 + 2 * self.random(self.population_size)).astype(int)
         d['pti'] = pti
-- 
2.43.0


From c31dc388346f18346358260ce3ef63af799fa0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 13/41] fix: Individual.copy keeps the fitness

---
 src/niapy/algorithms/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index f1a7f97..122fd57 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -408,7 +408,9 @@ class Individual:
             Individual: Copy of self.
 
         """
-        return Individual(x=self.x.copy(), e=False, f=self.f)
+        individual = Individual(x=self.x.copy(), e=False)
+        individual.f = self.f
+        return individual
 
     def __eq__(self, other):
         r"""Compare the individuals for equalities.
-- 
2.43.0


From 4109b0ab45826dbf6c27b985a46bff364e5b2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 14/41] fix: an individual that was never evaluated is worst,
 also when maximizing

Fitness is kept in minimization form, so -inf made an unevaluated individual
the best one of a maximization task.
---
 src/niapy/algorithms/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index 122fd57..5a2f592 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -360,7 +360,7 @@ class Individual:
             e (Optional[bool]): True to evaluate the individual on initialization. Default value is True.
 
         """
-        self.f = task.optimization_type.value * np.inf if task is not None else np.inf
+        self.f = np.inf
         if x is not None:
             self.x = x if isinstance(x, np.ndarray) else np.asarray(x)
         elif task is not None:
-- 
2.43.0


From adb738306b23cc9112f0f8b46cf72ab9af6095e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:48 +0000
Subject: [PATCH 15/41] fix: convergence data by evaluations reports real
 fitness for maximization

The values were negated, unlike x_f and the data by iterations.
---
 src/niapy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/task.py b/src/niapy/task.py
index d3ed498..ee89779 100644
--- a/src/niapy/task.py
+++ b/src/niapy/task.py
@@ -147,7 +147,7 @@ class Task:
         if x_f < self.x_f * self.optimization_type.value:
             self.x_f = x_f * self.optimization_type.value
             self.n_evals.append(self.evals)
-            self.fitness_evals.append(x_f)
+            self.fitness_evals.append(self.x_f)
             if self.enable_logging:
                 logger.info('evals:%d => %s' % (self.evals, self.x_f))
         return x_f
-- 
2.43.0


From 5f3968af6d06de13e2462fae84a8df5bd8515ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:24 +0000
Subject: [PATCH 16/41] fix: mts_ls1v1 keeps the fitness of the current
 solution when it is a new best

The solution kept the improved position with the fitness of the old one.
---
 src/niapy/algorithms/other/mts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index ed9af4d..0a32ffa 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -120,6 +120,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
         new_fitness = task.eval(current_x)
         if new_fitness < best_fitness:
             grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+            current_fitness, improve = new_fitness, True
         elif new_fitness == current_fitness:
             current_x[i] = x_old
         elif new_fitness > current_fitness:
@@ -128,6 +129,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             new_fitness = task.eval(current_x)
             if new_fitness < best_fitness:
                 grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+                current_fitness, improve = new_fitness, True
             elif new_fitness >= current_fitness:
                 current_x[i] = x_old
             else:
-- 
2.43.0


From 80c3fe6039359f3f636887720b1098f060ebafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:13 +0000
Subject: [PATCH 17/41] fix: FireworksAlgorithm and EFWA never replace the best
 solution by a worse one

The best spark of the iteration was reported as the best solution even when
it was worse, which happens at least when the evaluations run out.
---
 src/niapy/algorithms/basic/fwa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index be7b7f6..1f8a7ba 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -423,9 +423,10 @@ class FireworksAlgorithm(Algorithm):
 
         all_sparks = np.concatenate((all_sparks, gaussian_sparks), axis=0)
 
-        population, population_fitness, best_x, best_fitness = self.selection(population, population_fitness,
-                                                                              all_sparks, task)
-
+        population, population_fitness, spark_x, spark_fitness = self.selection(population, population_fitness,
+                                                                                all_sparks, task)
+        if spark_fitness < best_fitness:
+            best_x, best_fitness = spark_x, spark_fitness
         return population, population_fitness, best_x, best_fitness, {}
 
 
-- 
2.43.0


From 2bc158979a15d028bf6ab298ae5ba15cf74452db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:13 +0000
Subject: [PATCH 18/41] fix: GravitationalSearchAlgorithm does not produce NaN
 for equal fitness values

When all masses were equal the division by zero made the next population NaN.
---
 src/niapy/algorithms/basic/gsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/gsa.py b/src/niapy/algorithms/basic/gsa.py
index fd50dfb..9ea2ab3 100644
--- a/src/niapy/algorithms/basic/gsa.py
+++ b/src/niapy/algorithms/basic/gsa.py
@@ -160,7 +160,10 @@ class GravitationalSearchAlgorithm(Algorithm):
         velocities = params.pop('velocities')
 
         ib, iw = np.argmin(population_fitness), np.argmax(population_fitness)
-        m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
+        if population_fitness[ib] == population_fitness[iw]:
+            m = np.ones(len(population_fitness))
+        else:
+            m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
         m = m / np.sum(m)
         forces = np.asarray([[self.gravity((task.iters + 1)) * ((m[i] * m[j]) / (euclidean(population[i], population[j]) + self.epsilon)) * (
                 population[j] - population[i]) for j in range(len(m))] for i in range(len(m))])
-- 
2.43.0


From 855c3a8111de8474d4f97d266c1e2b03164d544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:13 +0000
Subject: [PATCH 19/41] fix: KrillHerd does not produce NaN when a krill has
 zero fitness

The food location divided by zero and NaN points were evaluated.
---
 src/niapy/algorithms/basic/kh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/kh.py b/src/niapy/algorithms/basic/kh.py
index 05915d9..67fc147 100644
--- a/src/niapy/algorithms/basic/kh.py
+++ b/src/niapy/algorithms/basic/kh.py
@@ -349,8 +349,11 @@ class KrillHerd(Algorithm):
                 2. Foods function/fitness value.
 
         """
-        x_food = task.repair(np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness),
-                             rng=self.rng)
+        fitness = np.where(population_fitness == 0, self.epsilon, population_fitness)
+        total = np.sum(1 / fitness)
+        if total == 0:
+            total = self.epsilon
+        x_food = task.repair(np.asarray([np.sum(population[:, i] / fitness) for i in range(task.dimension)]) / total, rng=self.rng)
         x_food_f = task.eval(x_food)
         return x_food, x_food_f
 
-- 
2.43.0


From 761fdb754517e87c042618b650442badf93fb8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:13 +0000
Subject: [PATCH 20/41] fix: reflect repairs components with equal bounds

The modulo by zero turned them into NaN.
---
 src/niapy/util/repair.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 3c94f03..5a48b73 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -90,8 +90,10 @@ def reflect(x, lower, upper, **_kwargs):
         numpy.ndarray: Fix solution.
 
     """
-    ir = np.where(x > upper)
+    ir = np.where((x > upper) & (upper > lower))
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
-    ir = np.where(x < lower)
+    ir = np.where((x < lower) & (upper > lower))
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
+    ir = np.where(upper == lower)
+    x[ir] = lower[ir]
     return x
-- 
2.43.0


From 90db620a4f341cc2379cac99ee84114503b84f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:08 +0000
Subject: [PATCH 21/41] fix: Alpine1 computes |x sin(x) + 0.1 x|

---
 src/niapy/problems/alpine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/alpine.py b/src/niapy/problems/alpine.py
index 934ab83..56ccd80 100644
--- a/src/niapy/problems/alpine.py
+++ b/src/niapy/problems/alpine.py
@@ -70,7 +70,7 @@ class Alpine1(Problem):
         return r'''$f(\mathbf{x}) = \sum_{i=1}^{D} \lvert x_i \sin(x_i)+0.1x_i \rvert$'''
 
     def _evaluate(self, x):
-        return np.sum(np.abs(np.sin(x) + 0.1 * x))
+        return np.sum(np.abs(x * np.sin(x) + 0.1 * x))
 
 
 class Alpine2(Problem):
-- 
2.43.0


From 3d7f1c6887be402cfeaf3da1063f2b913ccbf0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:08 +0000
Subject: [PATCH 22/41] fix: Discus squares the first component

---
 src/niapy/problems/discus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/discus.py b/src/niapy/problems/discus.py
index e3df6f0..bf7fba8 100644
--- a/src/niapy/problems/discus.py
+++ b/src/niapy/problems/discus.py
@@ -69,4 +69,4 @@ class Discus(Problem):
         return r'''$f(\textbf{x}) = x_1^2 10^6 + \sum_{i=2}^D x_i^2$'''
 
     def _evaluate(self, x):
-        return x[0] * 1000000 + np.sum(np.square(x[1:]))
+        return x[0] ** 2 * 1000000 + np.sum(np.square(x[1:]))
-- 
2.43.0


From 272248834d980de35ed5dae66d2fe56a148c1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 23/41] fix: DixonPrice includes the second component

---
 src/niapy/problems/dixon_price.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/dixon_price.py b/src/niapy/problems/dixon_price.py
index e9a3888..3c0d6b3 100644
--- a/src/niapy/problems/dixon_price.py
+++ b/src/niapy/problems/dixon_price.py
@@ -69,6 +69,6 @@ class DixonPrice(Problem):
         return r'''$f(\textbf{x}) = (x_1 - 1)^2 + \sum_{i = 2}^D i (2x_i^2 - x_{i - 1})^2$'''
 
     def _evaluate(self, x):
-        indices = np.arange(2, self.dimension)
-        val = np.sum(indices * (2 * x[2:] ** 2 - x[1:self.dimension - 1]) ** 2)
+        indices = np.arange(2, self.dimension + 1)
+        val = np.sum(indices * (2 * x[1:] ** 2 - x[:-1]) ** 2)
         return (x[0] - 1) ** 2 + val
-- 
2.43.0


From bd7e1a36d7a65b29537ab610957a7c5d00282bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 24/41] fix: ExpandedGriewankPlusRosenbrock computes its
 documented formula

---
 src/niapy/problems/griewank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/griewank.py b/src/niapy/problems/griewank.py
index e478a1c..d808a1c 100644
--- a/src/niapy/problems/griewank.py
+++ b/src/niapy/problems/griewank.py
@@ -138,6 +138,7 @@ class ExpandedGriewankPlusRosenbrock(Problem):
         return r'''$f(\textbf{x}) = h(g(x_D, x_1)) + \sum_{i=2}^D h(g(x_{i - 1}, x_i)) \\ g(x, y) = 100 (x^2 - y)^2 + (x - 1)^2 \\ h(z) = \frac{z^2}{4000} - \cos \left( \frac{z}{\sqrt{1}} \right) + 1$'''
 
     def _evaluate(self, x):
-        x1 = 100.0 * (x[1:] - x[:-1] ** 2.0) ** 2.0 + (1 - x[:-1]) ** 2.0
-        x2 = x1 * x1 / 4000.0 - np.cos(x1 / np.sqrt(np.arange(1, self.dimension)))
+        x_next = np.roll(x, -1)
+        x1 = 100.0 * (x ** 2.0 - x_next) ** 2.0 + (x - 1) ** 2.0
+        x2 = x1 * x1 / 4000.0 - np.cos(x1) + 1
         return np.sum(x2)
-- 
2.43.0


From 1cf54b0bd632802a5eb54205cda1a65790f6c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 25/41] fix: Katsuura sums the distance to the nearest integer

---
 src/niapy/problems/katsuura.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/katsuura.py b/src/niapy/problems/katsuura.py
index c33afe3..b611806 100644
--- a/src/niapy/problems/katsuura.py
+++ b/src/niapy/problems/katsuura.py
@@ -69,5 +69,5 @@ class Katsuura(Problem):
     def _evaluate(self, x):
         k = np.atleast_2d(np.arange(1, 33)).T
         i = np.arange(1, self.dimension + 1)
-        inner = np.round(2 ** k * x) * (2.0 ** (-k))
+        inner = np.abs(2 ** k * x - np.round(2 ** k * x)) * (2.0 ** (-k))
         return np.prod(np.sum(inner, axis=0) * i + 1)
-- 
2.43.0


From 35fe187b1acc09c7b948258df90585cb3185baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 26/41] fix: Levy squares the inner sine

---
 src/niapy/problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/levy.py b/src/niapy/problems/levy.py
index ce98134..3579247 100644
--- a/src/niapy/problems/levy.py
+++ b/src/niapy/problems/levy.py
@@ -72,6 +72,6 @@ class Levy(Problem):
         w = 1 + (x - 1) / 4
         term1 = np.sin(np.pi * w[0]) ** 2
         wi = w[:-1]
-        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1)))
+        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1) ** 2))
         term3 = (w[-1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[-1]) ** 2)
         return term1 + term2 + term3
-- 
2.43.0


From 5127300d375459fa5161e847a1c1bd0b372bd3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 27/41] fix: Perm raises every component to every power

---
 src/niapy/problems/perm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/niapy/problems/perm.py b/src/niapy/problems/perm.py
index 3aeeb46..a92ccb0 100644
--- a/src/niapy/problems/perm.py
+++ b/src/niapy/problems/perm.py
@@ -20,7 +20,7 @@ class Perm(Problem):
     Function:
     **Perm Function**
 
-        :math:`f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2`
+        :math:`f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
@@ -31,10 +31,10 @@ class Perm(Problem):
 
     LaTeX formats:
         Inline:
-            $f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$
+            $f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$
 
         Equation:
-            \begin{equation} f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2 \end{equation}
+            \begin{equation} f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2 \end{equation}
 
         Domain:
             $-D \leq x_i \leq D$
@@ -67,11 +67,11 @@ class Perm(Problem):
             str: Latex code.
 
         """
-        return r'''$f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$'''
+        return r'''$f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j + \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$'''
 
     def _evaluate(self, x):
-        ii = np.arange(1, self.dimension + 1)
-        jj = np.tile(ii, (self.dimension, 1))
+        ii = np.arange(1, self.dimension + 1)[:, np.newaxis]
+        jj = np.tile(np.arange(1, self.dimension + 1), (self.dimension, 1))
         x_matrix = np.tile(x, (self.dimension, 1))
-        inner = np.sum((jj + self.beta) * (np.power(x_matrix, ii) - np.power(1.0 / jj, ii)), axis=0)
+        inner = np.sum((jj + self.beta) * (np.power(x_matrix, ii) - np.power(1.0 / jj, ii)), axis=1)
         return np.sum(inner ** 2)
-- 
2.43.0


From 082911d709450fefe1329b80634bdb2f3063581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 28/41] fix: ModifiedSchwefel selects the branch by the shifted
 component

---
 src/niapy/problems/schwefel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/schwefel.py b/src/niapy/problems/schwefel.py
index 6e59860..fdd593e 100644
--- a/src/niapy/problems/schwefel.py
+++ b/src/niapy/problems/schwefel.py
@@ -262,8 +262,8 @@ class ModifiedSchwefel(Problem):
 
     def _evaluate(self, x):
         xx = x + 420.9687462275036
-        conditions = [x > 500.0, x < -500.0]
-        xx_mod = np.fmod(xx, 500.0)
+        conditions = [xx > 500.0, xx < -500.0]
+        xx_mod = np.fmod(np.abs(xx), 500.0)
         choices = [(500.0 - xx_mod) * np.sin(np.sqrt(np.abs(500.0 - xx_mod))) - (xx - 500.0) ** 2 / (10000 * self.dimension),
                    (xx_mod - 500.0) * np.sin(np.sqrt(np.abs(xx_mod - 500.0))) + (xx - 500.0) ** 2 / (10000 * self.dimension)]
         default = xx * np.sin(np.sqrt(np.abs(xx)))
-- 
2.43.0


From 2b9e8f55897b4e22551bf1991c80a64936b2555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:36 +0000
Subject: [PATCH 29/41] fix: Michalewicz documents its own formula

---
 src/niapy/problems/michalewicz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/michalewicz.py b/src/niapy/problems/michalewicz.py
index ecb088a..771e683 100644
--- a/src/niapy/problems/michalewicz.py
+++ b/src/niapy/problems/michalewicz.py
@@ -18,9 +18,9 @@ class Michalewicz(Problem):
     License: MIT
 
     Function:
-    **High Conditioned Elliptic Function**
+    **Michalewicz's Function**
 
-        :math:`f(\textbf{x}) = \sum_{i=1}^D \left( 10^6 \right)^{ \frac{i - 1}{D - 1} } x_i^2`
+        :math:`f(\textbf{x}) = - \sum_{i = 1}^{D} \sin(x_i) \sin\left( \frac{ix_i^2}{\pi} \right)^{2m}`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
-- 
2.43.0


From 68a8e0be7dc45be8acf31d5e2798eb15821fdb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:36 +0000
Subject: [PATCH 30/41] fix: Stepint documents its own formula

---
 src/niapy/problems/stepint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/niapy/problems/stepint.py b/src/niapy/problems/stepint.py
index b58bfb3..b9ce17b 100644
--- a/src/niapy/problems/stepint.py
+++ b/src/niapy/problems/stepint.py
@@ -19,23 +19,23 @@ class Stepint(Problem):
 
     Function: **Stepint function**
 
-        :math:`f(\mathbf{x}) = \sum_{i=1}^D x_i^2`
+        :math:`f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor`
 
         **Input domain:**
         The function can be defined on any input domain but it is usually
         evaluated on the hypercube :math:`x_i ∈ [-5.12, 5.12]`, for all :math:`i = 1, 2,..., D`.
 
-        **Global minimum:** :math:`f(x^*) = 0`, at :math:`x^* = (-5.12,...,-5.12)`
+        **Global minimum:** :math:`f(x^*) = 25 - 6D`, at :math:`x^* = (-5.12,...,-5.12)`
 
     LaTeX formats:
         Inline:
-            $f(\mathbf{x}) = \sum_{i=1}^D x_i^2$
+            $f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor$
 
         Equation:
-            \begin{equation}f(\mathbf{x}) = \sum_{i=1}^D x_i^2 \end{equation}
+            \begin{equation}f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor \end{equation}
 
         Domain:
-            $0 \leq x_i \leq 10$
+            $-5.12 \leq x_i \leq 5.12$
 
     Reference paper:
         Jamil, M., and Yang, X. S. (2013).
@@ -67,7 +67,7 @@ class Stepint(Problem):
             str: Latex code.
 
         """
-        return r'''$f(\mathbf{x}) = \sum_{i=1}^D x_i^2$'''
+        return r'''$f(\mathbf{x}) = 25 + \sum_{i=1}^D \lfloor x_i \rfloor$'''
 
     def _evaluate(self, x):
         return 25.0 + np.sum(np.floor(x))
-- 
2.43.0


From f1860685f552c8d38fba9e1269f8de59b625f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 31/41] fix: HarmonySearch keeps the repaired harmony when the
 repair function returns a new array

---
 src/niapy/algorithms/basic/hs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/hs.py b/src/niapy/algorithms/basic/hs.py
index 41d1834..d8447d2 100644
--- a/src/niapy/algorithms/basic/hs.py
+++ b/src/niapy/algorithms/basic/hs.py
@@ -162,8 +162,8 @@ class HarmonySearch(Algorithm):
                 5. Additional arguments.
 
         """
-        harmony = self.improvise(population, task)
-        harmony_fitness = task.eval(task.repair(harmony, self.rng))
+        harmony = task.repair(self.improvise(population, task), rng=self.rng)
+        harmony_fitness = task.eval(harmony)
         iw = np.argmax(population_fitness)
         if harmony_fitness <= population_fitness[iw]:
             population[iw], population_fitness[iw] = harmony, harmony_fitness
-- 
2.43.0


From 28b34794854b1d10d92e0b2ccb5f978667cbd54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:21 +0000
Subject: [PATCH 32/41] fix: CoralReefsOptimization depredation removes whole
 corals

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 93c2b92..9a805d0 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -273,7 +273,7 @@ class CoralReefsOptimization(Algorithm):
 
         """
         depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
-        return np.delete(reef, depredation_index), np.delete(reef_fitness, depredation_index)
+        return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
         r"""Operator for setting reefs.
-- 
2.43.0


From 20c9732575117463f15c89590cc8e62de20752bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 33/41] fix: HarrisHawksOptimization keeps an accepted
 candidate together with its fitness

---
 src/niapy/algorithms/basic/hho.py | 33 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/niapy/algorithms/basic/hho.py b/src/niapy/algorithms/basic/hho.py
index 581535b..1f46199 100644
--- a/src/niapy/algorithms/basic/hho.py
+++ b/src/niapy/algorithms/basic/hho.py
@@ -122,6 +122,7 @@ class HarrisHawksOptimization(Algorithm):
             escaping_energy = decreasing_energy_factor * decreasing_energy_random
             escaping_energy_abs = np.abs(escaping_energy)
             random_number = self.rng.random()
+            accepted = False
             if escaping_energy >= 1 and random_number >= 0.5:
                 # 0. Exploration: Random tall tree
                 rhi = self.rng.integers(self.population_size)
@@ -148,24 +149,32 @@ class HarrisHawksOptimization(Algorithm):
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
+                cand_fitness = task.eval(cand1)
+                if cand_fitness < population_fitness[i]:
+                    population[i], population_fitness[i], accepted = cand1, cand_fitness, True
+                else:
+                    cand_fitness = task.eval(cand2)
+                    if cand_fitness < population_fitness[i]:
+                        population[i], population_fitness[i], accepted = cand2, cand_fitness, True
             elif escaping_energy_abs < 0.5 and random_number < 0.5:
                 # 5. Exploitation: Hard besiege with progressive rapid dives
                 cand1 = task.repair(best_x - escaping_energy * np.abs(jumping_energy * best_x - mean_sol), rng=self.rng)
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
-            # Repair agent (from population) values
-            population[i] = task.repair(population[i], rng=self.rng)
-            # Eval population
-            population_fitness[i] = task.eval(population[i])
+                cand_fitness = task.eval(cand1)
+                if cand_fitness < population_fitness[i]:
+                    population[i], population_fitness[i], accepted = cand1, cand_fitness, True
+                else:
+                    cand_fitness = task.eval(cand2)
+                    if cand_fitness < population_fitness[i]:
+                        population[i], population_fitness[i], accepted = cand2, cand_fitness, True
+            # An accepted candidate is already repaired and evaluated
+            if not accepted:
+                # Repair agent (from population) values
+                population[i] = task.repair(population[i], rng=self.rng)
+                # Eval population
+                population_fitness[i] = task.eval(population[i])
         # Get best of population
         best_index = np.argmin(population_fitness)
         xb_cand = population[best_index].copy()
-- 
2.43.0


From 19a244fe40d2a4779c210f8fc0b4429809c4b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 34/41] fix: ArtificialBeeColonyAlgorithm stops selecting food
 sources when the task has stopped

---
 src/niapy/algorithms/basic/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 2d1ecb8..487320a 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -189,7 +189,7 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                     if population[i].f < best_fitness:
                         best_x, best_fitness = population[i].x.copy(), population[i].f
         probabilities, t, s = self.calculate_probabilities(population), 0, 0
-        while t < self.food_number:
+        while t < self.food_number and not task.stopping_condition():
             if self.random() < probabilities[s]:
                 t += 1
                 solution = copy.deepcopy(population[s])
-- 
2.43.0


From 4574efd0fb7290de6f3c3e23aed882ceea3fbe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:25 +0000
Subject: [PATCH 35/41] fix: GeneticAlgorithm crossover operators pick another
 individual as the mate and leave the parent as it is

---
 src/niapy/algorithms/basic/ga.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/niapy/algorithms/basic/ga.py b/src/niapy/algorithms/basic/ga.py
index feb0ddf..fdf1685 100644
--- a/src/niapy/algorithms/basic/ga.py
+++ b/src/niapy/algorithms/basic/ga.py
@@ -65,10 +65,10 @@ def two_point_crossover(pop, ic, _cr, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
     r = np.sort(rng.choice(len(pop[ic]), 2))
-    x = pop[ic].x
+    x = pop[ic].x.copy()
     x[r[0]:r[1]] = pop[io].x[r[0]:r[1]]
     return np.asarray(x)
 
@@ -87,9 +87,9 @@ def multi_point_crossover(pop, ic, n, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
-    r, x = np.sort(rng.choice(len(pop[ic]), 2 * n)), pop[ic].x
+    r, x = np.sort(rng.choice(len(pop[ic]), 2 * n)), pop[ic].x.copy()
     for i in range(n):
         x[r[2 * i]:r[2 * i + 1]] = pop[io].x[r[2 * i]:r[2 * i + 1]]
     return np.asarray(x)
@@ -109,7 +109,7 @@ def uniform_crossover(pop, ic, cr, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
     j = rng.integers(len(pop[ic]))
     x = [pop[io][i] if rng.random() < cr or i == j else pop[ic][i] for i in range(len(pop[ic]))]
@@ -130,7 +130,7 @@ def crossover_uros(pop, ic, cr, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
     alpha = cr + (1 + 2 * cr) * rng.random(len(pop[ic]))
     x = alpha * pop[ic] + (1 - alpha) * pop[io]
-- 
2.43.0


From abfeac5073c954600804a960e21e2f99cdb3d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 36/41] fix: SimulatedAnnealing accepts a worse neighbour with
 probability exp(-delta / temperature)

---
 src/niapy/algorithms/other/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index 4e27e5a..42f31a7 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -196,7 +196,7 @@ class SimulatedAnnealing(Algorithm):
         c = task.repair(x - self.delta / 2 + self.random(task.dimension) * self.delta, rng=self.rng)
         c_fit = task.eval(c)
         delta_fit, r = c_fit - x_fit, self.random()
-        if delta_fit < 0 or r < np.exp(delta_fit / current_temperature):
+        if delta_fit < 0 or r < np.exp(-delta_fit / max(current_temperature, self.epsilon)):
             x, x_fit = c, c_fit
         current_temperature = self.cooling_method(current_temperature, starting_temperature=self.starting_temperature,
                                                   delta_temperature=self.delta_temperature, max_evals=task.max_evals)
-- 
2.43.0


From 9b8e06782ecf52e48485c4402191a493a46ed87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 37/41] fix: set_parameters of CoralReefsOptimization and
 EvolutionStrategyMp1 no longer passes self twice

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 src/niapy/algorithms/basic/es.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 9a805d0..45e44b0 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -197,7 +197,7 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(self, population_size=population_size, **kwargs)
+        super().set_parameters(population_size=population_size, **kwargs)
         self.phi = phi
         self.k = k
         self.crossover_rate = crossover_rate
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 5696272..f52b01c 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -284,7 +284,7 @@ class EvolutionStrategyMp1(EvolutionStrategy1p1):
 
         """
         mu = kwargs.pop('mu', 40)
-        super().set_parameters(self, mu=mu, **kwargs)
+        super().set_parameters(mu=mu, **kwargs)
 
 
 class EvolutionStrategyMpL(EvolutionStrategy1p1):
-- 
2.43.0


From 8fab822a2414bd878951df563567bde6950dd46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 38/41] fix: MultipleTrajectorySearchV1.set_parameters uses the
 parameters it is given

---
 src/niapy/algorithms/other/mts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 0a32ffa..6082922 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -657,4 +657,7 @@ class MultipleTrajectorySearchV1(MultipleTrajectorySearch):
 
         """
         kwargs.pop('num_searches_best', None)
-        super().set_parameters(num_searches_best=0, local_searches=(mts_ls1v1, mts_ls2), **kwargs)
+        kwargs.pop('local_searches', None)
+        super().set_parameters(population_size=population_size, num_tests=num_tests, num_searches=num_searches,
+                               num_searches_best=0, num_enabled=num_enabled, bonus1=bonus1, bonus2=bonus2,
+                               local_searches=(mts_ls1v1, mts_ls2), **kwargs)
-- 
2.43.0


From f2b71be735b1f33704ef89f31ef68f7f8a54c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:23 +0000
Subject: [PATCH 39/41] fix: BareBonesFireworksAlgorithm starts from one point
 with a scalar fitness

init_population returned a population of shape (1, D) and an array of one fitness
value although the algorithm works on a single point.  Until the first improvement
the reported solution had shape (1, D) and the reported fitness was an array.
---
 src/niapy/algorithms/basic/fwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 1f8a7ba..a8ec895 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -121,7 +121,7 @@ class BareBonesFireworksAlgorithm(Algorithm):
         """
         x, x_fit, d = super().init_population(task)
         d.update({'amplitude': task.range})
-        return x, x_fit, d
+        return x[0], x_fit[0], d
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bare Bones Fireworks Algorithm.
-- 
2.43.0


From 2d4930149ad951b74120c91f987aea4e1ca6ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 40/41] fix: BacterialForagingOptimization keeps its population
 size when it reproduces

The better half was duplicated with population_size // 2, so an odd population lost
an individual in every reproduction and a population of one became empty, after which
no iteration evaluated anything and a run with an evaluation budget never ended.
---
 src/niapy/algorithms/basic/bfo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index cd422bc..8e6db74 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -276,9 +276,10 @@ class BacterialForagingOptimization(Algorithm):
             population_fitness = population_fitness[sorted_indices]
             cost = cost[sorted_indices]
 
-            population = np.tile(population[:self.population_size // 2], (2, 1))
-            population_fitness = np.tile(population_fitness[:self.population_size // 2], 2)
-            cost = np.tile(cost[:self.population_size // 2], 2)
+            survivors = np.arange(self.population_size) % ((self.population_size + 1) // 2)
+            population = population[survivors]
+            population_fitness = population_fitness[survivors]
+            cost = cost[survivors]
 
             health = np.zeros(len(population), dtype=np.float64)
 
-- 
2.43.0


From 77514d1cdcc5af4504219b433c3effd6c87f7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:23 +0000
Subject: [PATCH 41/41] fix: EvolutionStrategyML hands its generator to new
 individuals

---
 src/niapy/algorithms/basic/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index f52b01c..c17a493 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -568,7 +568,7 @@ class EvolutionStrategyML(EvolutionStrategyMpL):
 
         """
         cn = objects_to_array(
-            [IndividualES(x=self.mutate_rand(c, task), task=task, rand=self.rng) for _ in range(self.lam)])
+            [IndividualES(x=self.mutate_rand(c, task), task=task, rng=self.rng) for _ in range(self.lam)])
         c = self.new_pop(cn)
         fc = np.asarray([x.f for x in c])
         best_x, best_fitness = self.get_best(c, fc, best_x, best_fitness)
-- 
2.43.0

