From 124354e0d657188ad0920057b60471428f442209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 01/56] fix: honour RunBefore and RunAfter stage restrictions

RunBefore[X] and RunAfter[X] are generic aliases, not types, so the
isinstance(..., type) tests never recognised them: the restrictions were
treated as ordinary inputs that no stage provides and every stage using one
failed to resolve. Recognise the aliases, and do not ask for them as inputs
when checking or running a stage.
---
 instancespace/stage_builder.py | 27 ++++++++++-----------------
 instancespace/stage_runner.py  | 17 ++++++++++++++---
 instancespace/stages/stage.py  | 24 +++++++++++++++++++++++-
 3 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..c63c1ed 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -3,7 +3,12 @@
 from typing import NamedTuple, Self, get_args
 
 from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
-from instancespace.stages.stage import RunAfter, RunBefore, StageClass
+from instancespace.stages.stage import (
+    RunAfter,
+    RunBefore,
+    StageClass,
+    is_run_restriction,
+)
 
 
 class _BeforeAfterRestriction(NamedTuple):
@@ -107,9 +112,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if is_run_restriction(output_type):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -265,11 +268,7 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not is_run_restriction(argument.parameter_type)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +291,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if is_run_restriction(argument.parameter_type, RunBefore):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if is_run_restriction(argument.parameter_type, RunAfter):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..a01e922 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -7,7 +7,7 @@ from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import OUT, Stage, StageClass, is_run_restriction
 
 StageScheduleElement = list[StageClass]
 
@@ -146,6 +146,11 @@ class StageRunner:
         raw_inputs = {}
 
         for input_name in input_arguments._fields:
+            # Run restrictions only affect the ordering of stages
+            if is_run_restriction(input_arguments.__annotations__[input_name]):
+                raw_inputs[input_name] = input_arguments._field_defaults.get(input_name)
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
@@ -243,11 +248,17 @@ class StageRunner:
 
         for schedule_element in stages:
             for stage in schedule_element:
-                if len(input_arguments[stage] - available_arguments) > 0:
+                missing_arguments = {
+                    argument
+                    for argument in input_arguments[stage] - available_arguments
+                    if not is_run_restriction(argument.parameter_type)
+                }
+
+                if len(missing_arguments) > 0:
                     raise StageRunningError(
                         "Stage order was not runnable. Not all inputs were available "
                         + "for a stage at the time of running. Missing inputs: "
-                        + f"{list(input_arguments[stage] - available_arguments)}",
+                        + f"{list(missing_arguments)}",
                     )
 
             for stage in schedule_element:
diff --git a/instancespace/stages/stage.py b/instancespace/stages/stage.py
index 25611de..63ebcba 100644
--- a/instancespace/stages/stage.py
+++ b/instancespace/stages/stage.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Generic, NamedTuple, TypeVar
+from typing import Any, Generic, NamedTuple, TypeVar, get_origin
 
 IN = TypeVar("IN", bound=NamedTuple)
 OUT = TypeVar("OUT", bound=NamedTuple)
@@ -50,3 +50,25 @@ class RunBefore(Generic[T]):
 
 class RunAfter(Generic[T]):
     """Marks that a stage should be run after another stage."""
+
+
+def is_run_restriction(
+    parameter_type: Any,  # noqa: ANN401
+    *restrictions: type,
+) -> bool:
+    """Check if an argument type is a RunBefore[...] or RunAfter[...] marker.
+
+    Args
+    ----
+        parameter_type Any: The type of an argument.
+        *restrictions type: The markers to look for, both if none are given.
+
+    Returns
+    -------
+        bool: If the type is one of the markers.
+    """
+    marker = get_origin(parameter_type) or parameter_type
+    return isinstance(marker, type) and issubclass(
+        marker,
+        restrictions or (RunBefore, RunAfter),
+    )
-- 
2.43.0


From 1f32ff4818e89313c3195771e9a6f109f19d17e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 02/56] fix: resolve stages that have no outputs

A stage was only marked as resolved while its outputs were added, so a stage
without outputs was scheduled but never counted and resolution failed.
---
 instancespace/stage_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index c63c1ed..3a0cb3a 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -219,9 +219,10 @@ class StageBuilder:
 
             # Add outputs of stages that can run to the list of available inputs
             for stage in stages_can_run_post_mutating_check:
+                resolved_stages.add(stage)
+
                 for argument in self._stage_outputs[stage]:
                     available_inputs.add(argument)
-                    resolved_stages.add(stage)
 
             stage_order.append(list(stages_can_run_post_mutating_check))
 
-- 
2.43.0


From a65072d5ebe0e99595d19e14d41a9fef83f20255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 03/56] fix: do not add stage outputs to the caller's initial
 arguments

Resolution added every stage output to the set of initial arguments it was
given, so building twice from the same set accepted stages whose inputs are
not available, and the runner's check of the order was always satisfied.
---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 3a0cb3a..3895810 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -161,7 +161,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From bf90a2e9a8dc3a01c202db0448d0f1ee2eca764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 04/56] fix: roll back the runner's arguments when a stage is
 ran again

Every entry of the saved schedule data was the same dictionary as the live
arguments, so running an earlier stage again kept the outputs of all later
stages, handed a mutating stage its own outputs, and a second run_all did not
forget which stages of the first schedule had already been ran. Save a copy at
the start of each schedule, and take a stage's inputs from it.
---
 instancespace/stage_runner.py | 39 ++++++++++++++---------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index a01e922..d40f933 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -34,7 +34,7 @@ class StageRunner:
     """A runner to run a list of stages."""
 
     # Data output from stages that can be used as input for future stages. Saved
-    # at every stage schedule so you can rerun stages.
+    # at the start of every stage schedule so you can rerun stages.
     _schedule_output_data: list[dict[str, Any]]
 
     _available_arguments: dict[str, Any]
@@ -97,9 +97,7 @@ class StageRunner:
         ------
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
@@ -137,7 +135,9 @@ class StageRunner:
         if stage_schedule_index != self._current_schedule_item:
             self._rollback_to_schedule_index(stage_schedule_index)
 
-        available_arguments = self._available_arguments.copy()
+        # Use the arguments available before this schedule, so a stage that is ran
+        # again isn't given its own outputs
+        available_arguments = self._schedule_output_data[stage_schedule_index].copy()
         for k, v in additional_arguments.items():
             available_arguments[k] = v
 
@@ -162,10 +162,6 @@ class StageRunner:
         for output_name, output_value in outputs._asdict().items():
             self._available_arguments[output_name] = output_value
 
-        self._schedule_output_data[self._current_schedule_item] = (
-            self._available_arguments
-        )
-
         self._stages_ran[stage] = True
 
         self._progress_schedule()
@@ -201,9 +197,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
@@ -222,9 +216,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
@@ -264,12 +256,19 @@ class StageRunner:
             for stage in schedule_element:
                 available_arguments |= output_arguments[stage]
 
+    def _start_run(self, initial_arguments: NamedTuple) -> None:
+        self._current_schedule_item = 0
+        self._available_arguments = initial_arguments._asdict()
+        self._schedule_output_data = [self._available_arguments.copy()]
+        self._stages_ran.clear()
+
     def _rollback_to_schedule_index(
         self,
         index: int,
     ) -> None:
+        # Arguments available after the schedule being rolled back to
+        self._available_arguments = self._schedule_output_data[index + 1].copy()
         self._current_schedule_item = index
-        self._available_arguments = self._schedule_output_data[index]
 
         self._schedule_output_data = self._schedule_output_data[: index + 1]
 
@@ -285,11 +284,5 @@ class StageRunner:
                 break
 
         if current_schedule_finished:
-            self._schedule_output_data[self._current_schedule_item] = (
-                self._available_arguments
-            )
-
             self._current_schedule_item += 1
-
-            if len(self._schedule_output_data) <= self._current_schedule_item:
-                self._schedule_output_data.append({})
+            self._schedule_output_data.append(self._available_arguments.copy())
-- 
2.43.0


From 9d8b8dfe11bb69523099bf129fc24ae992d37599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 05/56] fix: run the specified stage in run_until_stage

It is documented to run all stages until the specified stage, as well as the
specified stage, but stopped before it.
---
 instancespace/stage_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index d40f933..0b938a2 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -220,6 +220,7 @@ class StageRunner:
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
+                self.run_stage(stop_at_stage)
                 break
 
             for stage in schedule:
-- 
2.43.0


From 8efbe792e394d841f877f1d8ea72480d91148595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 06/56] fix: give the model of the latest complete run

A second build returned the model cached by an earlier access, and after a
complete run_iter the model property still reported that the InstanceSpace
had not been completely ran.
---
 instancespace/instance_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3ec6a7d 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
@@ -254,7 +255,8 @@ class InstanceSpace:
             self.metadata,
             self.options,
         )
-        yield from self._runner.run_iter(inputs)
+        self._final_output = yield from self._runner.run_iter(inputs)
+        self._model = None
 
     def run_stage(
         self,
-- 
2.43.0


From a07b7cc9e8f96a042f3316f2240f0b8597f0a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 07/56] fix: allow InstanceSpaceOptions.default() without
 arguments

The documented example calls it so, and it raised a TypeError because its
optional arguments had no defaults.
---
 instancespace/data/options.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..c68d3bf 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -535,18 +535,18 @@ class InstanceSpaceOptions:
 
     @staticmethod
     def default(
-        parallel: ParallelOptions | None,
-        perf: PerformanceOptions | None,
-        auto: AutoOptions | None,
-        bound: BoundOptions | None,
-        norm: NormOptions | None,
-        selvars: SelvarsOptions | None,
-        sifted: SiftedOptions | None,
-        pilot: PilotOptions | None,
-        cloister: CloisterOptions | None,
-        pythia: PythiaOptions | None,
-        trace: TraceOptions | None,
-        outputs: OutputOptions | None,
+        parallel: ParallelOptions | None = None,
+        perf: PerformanceOptions | None = None,
+        auto: AutoOptions | None = None,
+        bound: BoundOptions | None = None,
+        norm: NormOptions | None = None,
+        selvars: SelvarsOptions | None = None,
+        sifted: SiftedOptions | None = None,
+        pilot: PilotOptions | None = None,
+        cloister: CloisterOptions | None = None,
+        pythia: PythiaOptions | None = None,
+        trace: TraceOptions | None = None,
+        outputs: OutputOptions | None = None,
     ) -> InstanceSpaceOptions:
         """Instantiate with default values."""
         return InstanceSpaceOptions(
-- 
2.43.0


From dc1435ee7da4ab6503977822acc702e1a6cf8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 08/56] fix: ignore missing values when bounding and
 normalising in PRELIM

Missing values are allowed in the metadata and reach PRELIM, which skips them
when transforming a column, but took the median, interquartile range and
minimum over them: one missing value turned the whole column into NaN and
normalising it then failed.
---
 instancespace/stages/prelim.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..5d5ff10 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -445,9 +445,14 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             lo_bound: The lower bound for the feature values.
         """
         print("-> Removing extreme outliers from the feature values.")
-        med_val = np.median(self.x, axis=0)
+        med_val = np.nanmedian(self.x, axis=0)
 
-        iq_range = stats.iqr(self.x, axis=0, interpolation="midpoint")
+        iq_range = stats.iqr(
+            self.x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
 
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
@@ -535,7 +540,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         nfeats = self.x.shape[1]
         nalgos = self.y.shape[1]
 
-        min_x = np.min(self.x, axis=0)
+        min_x = np.nanmin(self.x, axis=0)
         self.x = self.x - min_x + 1
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
@@ -550,7 +555,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux = stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
-        min_y = float(np.min(self.y))
+        min_y = float(np.nanmin(self.y))
 
         self.y = (self.y - min_y) + np.finfo(float).eps
 
@@ -674,8 +679,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             p,
         )
 
-        med_val = np.median(x, axis=0)
-        iq_range = stats.iqr(x, axis=0, interpolation="midpoint")
+        med_val = np.nanmedian(x, axis=0)
+        iq_range = stats.iqr(
+            x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
@@ -689,11 +699,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         nfeats = x.shape[1]
         nalgos = y.shape[1]
-        min_x = np.min(x, axis=0)
+        min_x = np.nanmin(x, axis=0)
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
         sigma_x = np.zeros(nfeats)
-        min_y = float(np.min(y))
+        min_y = float(np.nanmin(y))
         lambda_y = np.zeros(nalgos)
         mu_y = np.zeros(nalgos)
         sigma_y = np.zeros(nalgos)
-- 
2.43.0


From 5454e6f57ef9aa55998750fb75d03f9e7ad63e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 09/56] fix: keep raw performance intact and normalise relative
 performance in PRELIM

With relative performance, zeros were replaced in the caller's performance
matrix (and so in the raw data sharing it), and the relative performance was
discarded by normalisation, which worked on the unprocessed values.
---
 instancespace/stages/prelim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 5d5ff10..c14a8c3 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -613,6 +613,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         NDArray[np.double],  # PrelimOut.mu_y
     ]:
         y_raw = y.copy()
+        y = y.copy()
         nalgos = y.shape[1]
 
         print(
@@ -709,6 +710,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         sigma_y = np.zeros(nalgos)
 
         if prelim_opts.norm:
+            self.y = y
             normalise_out = self._normalise()
             x = normalise_out.x
             min_x = normalise_out.min_x
-- 
2.43.0


From 8972c2e17b8de45f14c6b42aaa4bd62e4408f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 10/56] fix: select exactly the listed instances in file
 indexed experiments

The indices start from 1, so the comparison with the number of instances
dropped the last instance, an index of 0 selected the last instance, and a
file with a single index failed.
---
 instancespace/stages/prelim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index c14a8c3..2d6ec8d 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -813,13 +813,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         elif fileindexed:
             print("-> Using a subset of instances.")
             subset_index = np.zeros(ninst, dtype=bool)
-            aux = np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int)
+            # Indices in the file start from 1
+            aux = np.atleast_1d(
+                np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int),
+            )
             print("aux:", aux)
-            aux = aux[aux < ninst]
-
-            for i in range(len(aux)):
-                aux[i] = aux[i] - 1
-            subset_index[aux] = True
+            aux = aux[(aux >= 1) & (aux <= ninst)]
+            subset_index[aux - 1] = True
 
         elif bydensity:
             print(
-- 
2.43.0


From d60c445e492d6f00e1bcc0ef52f8c81d43e0d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 11/56] fix: pass the labels of the selected instances on from
 PRELIM

---
 instancespace/stages/prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 2d6ec8d..aa8e187 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,7 +118,7 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
+    inst_labels : pd.Series
         Labels for each instance in the dataset, if provided.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From e45b741ef84c0c3ce333a8f4b593f9fcd3320e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 12/56] fix: refuse options that are not JSON objects with a
 ValueError

---
 instancespace/data/options.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index c68d3bf..6ad217b 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -416,9 +416,13 @@ class InstanceSpaceOptions:
         Raises:
         ------
         ValueError
-            If the JSON file contains undefined sub options.
+            If the JSON file contains undefined sub options, or if it or one of its
+            sections isn't an object.
 
         """
+        if not isinstance(file_contents, dict):
+            raise ValueError("The options aren't a JSON object")
+
         # Validate if the top-level fields match those in the InstanceSpaceOptions class
         options_fields = {f.name for f in fields(InstanceSpaceOptions)}
         extra_fields = set(file_contents.keys()) - options_fields
@@ -429,6 +433,10 @@ class InstanceSpaceOptions:
                 f" {extra_fields}",
             )
 
+        for section, section_contents in file_contents.items():
+            if not isinstance(section_contents, dict):
+                raise ValueError(f"The options in '{section}' aren't a JSON object")
+
         # Initialize each part of InstanceSpaceOptions, using default values for missing
         # fields
         return InstanceSpaceOptions(
-- 
2.43.0


From 387fcd0d0cf6091631071961ea3da628eab2ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 13/56] fix: keep the labels and sources of single instance
 metadata as series

---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..7052cb3 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -46,14 +46,14 @@ class Metadata:
         is_algo = var_labels.str.lower().str.startswith("algo_")
         is_source = var_labels.str.lower() == "source"
 
-        instance_labels = data.loc[:, is_name].squeeze()
+        instance_labels = data.loc[:, is_name].squeeze("columns")
 
         if pd.api.types.is_numeric_dtype(instance_labels):
             instance_labels = instance_labels.astype(str)
 
         source_column = None
         if is_source.any():
-            source_column = data.loc[:, is_source].squeeze()
+            source_column = data.loc[:, is_source].squeeze("columns")
 
         features_raw = data.loc[:, is_feat]
         algo_raw = data.loc[:, is_algo]
-- 
2.43.0


From 345328712ca9adf2e2ce623b304948136c278d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 14/56] fix: treat undecodable metadata files as unparsable

---
 instancespace/data/metadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index 7052cb3..750a2d5 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,7 +108,12 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         csv_df = pd.read_csv(file_path)
-    except (FileNotFoundError, OSError, pd.errors.ParserError) as e:
+    except (
+        FileNotFoundError,
+        OSError,
+        UnicodeDecodeError,
+        pd.errors.ParserError,
+    ) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From 013231bb875340fdf25b9d168fb73e31a0906595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 15/56] fix: count the best algorithms as good when the best
 performance is zero

---
 instancespace/stages/prelim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index aa8e187..27a4558 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -637,7 +637,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 y_best[y_best == 0] = np.finfo(float).eps
                 y[y == 0] = np.finfo(float).eps
                 y = 1 - y / y_best[:, np.newaxis]
-                y_bin = (1 - y_aux / y_best[:, np.newaxis]) <= prelim_opts.epsilon
+                y_bin = y <= prelim_opts.epsilon
                 msg = (
                     msg
                     + "within "
-- 
2.43.0


From 11d18a0619bbab1a3cf905f3cbeb7254656c969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 16/56] fix: do not turn constant columns into missing values
 when normalising

---
 instancespace/stages/prelim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 27a4558..1505c92 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -552,7 +552,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux, lambda_x[i] = boxcox_fmin(aux[~idx])
             mu_x[i] = np.mean(aux)
             sigma_x[i] = np.std(aux, ddof=1)
-            aux = stats.zscore(aux, ddof=1)
+            # A constant has no spread to scale by
+            is_constant = bool(np.all(aux == aux[0]))
+            aux = np.zeros_like(aux) if is_constant else stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
         min_y = float(np.nanmin(self.y))
@@ -569,7 +571,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux, lambda_y[i] = boxcox_fmin(aux[~idx])
             mu_y[i] = np.mean(aux)
             sigma_y[i] = np.std(aux, ddof=1)
-            aux = stats.zscore(aux, ddof=1)
+            # A constant has no spread to scale by
+            is_constant = bool(np.all(aux == aux[0]))
+            aux = np.zeros_like(aux) if is_constant else stats.zscore(aux, ddof=1)
             self.y[~idx, i] = aux
 
         return _NormaliseOut(
-- 
2.43.0


From d36b8f144b50b8ae4f9adef62ab273b464c1d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 17/56] fix: keep every feature that correlates at least rho
 with an algorithm in SIFTED

---
 instancespace/stages/sifted.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..093590b 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -741,13 +741,13 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         insignificant_pval = pval > self.PVAL_THRESHOLD
 
         # Filter out insignificant correlations and take absolute values of correlations
-        filtered_rho = rho
+        filtered_rho = rho.copy()
         filtered_rho[np.isnan(rho) | insignificant_pval] = 0
         filtered_rho = np.abs(filtered_rho)
 
         # Sort the correlations in descending order
         row = np.argsort(-filtered_rho, axis=0)
-        # sorted_rho = np.take_along_axis(rho, row, axis=0)
+        sorted_rho = np.take_along_axis(filtered_rho, row, axis=0)
 
         nfeats = self.x.shape[1]
         selvars = np.zeros(nfeats, dtype=bool)
@@ -757,7 +757,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Take any feature that has correlation at least equal to opts.rho
         for i in range(nfeats):
-            selvars[np.unique(row[i, rho[i, :] >= self.opts.rho])] = True
+            selvars[np.unique(row[i, sorted_rho[i, :] >= self.opts.rho])] = True
 
         # Get indices of selected features
         selvars = np.where(selvars)[0]
-- 
2.43.0


From 2e412a44949b3c45106acc3751b40969e71c5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 18/56] fix: evaluate the clustered features in the genetic
 search of SIFTED

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 093590b..b524cc1 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -919,12 +919,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             ),
         )
 
-        ga_instance.selfx = self.x
+        ga_instance.selfx = x_aux
         ga_instance.selfy = self.y
         ga_instance.selfy_bin = self.y_bin
         ga_instance.cv_partition = cv_partition
         ga_instance.clust = clust
-        ga_instance.selffeat_labels = self.feat_labels
+        ga_instance.selffeat_labels = np.array(self.feat_labels)[selvars]
 
         ga_instance.run()
 
-- 
2.43.0


From cdb0178e149cb8a129d9ab7b35d0e7ca69ff07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 19/56] fix: search for the feature combination with the lowest
 error in SIFTED

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index b524cc1..a1ae2a4 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -854,7 +854,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             )
             y = max(y, -scores.mean())
 
-        return y
+        return -y
 
     def _find_best_combination(
         self,
-- 
2.43.0


From be8ffbe5e89a17268946e34ff8724c4d255a8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 20/56] fix: select the features of dense data by column in
 SIFTED

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index a1ae2a4..cb44294 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -670,7 +670,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             if data_dense.s is not None:
                 s = data_dense.s[subset_index]
             return SiftedOutput(
-                data_dense.x[subset_index][:selvars],
+                data_dense.x[subset_index][:, selvars],
                 data_dense.y[subset_index][:],
                 data_dense.y_bin[subset_index][:],
                 data_dense.x_raw[subset_index][:],
-- 
2.43.0


From 3933f5ed94170ca037f8bb2957224a51853867a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 21/56] fix: report the silhouette score of the suggested
 number of clusters

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index cb44294..13d2cea 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1000,7 +1000,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         if max_k_silhoulette not in (self.opts.k, max_clusters):
             print(
                 f"    Suggested k value {max_k_silhoulette} with silhoulette score of",
-                f"{silhouette_scores[max_k_silhoulette]:.4f}",
+                f"{silhouette_scores[max_k_silhoulette_index]:.4f}",
             )
 
         # matlab returning numOfObservation, inspected K value, criterion values,
-- 
2.43.0


From 8ed85a37705b5c537a3c51c16f9500a8bca8681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 22/56] fix: report the indices of the features SIFTED selected

---
 instancespace/stages/sifted.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 13d2cea..1f069b0 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -167,7 +167,7 @@ class SiftedOutput(NamedTuple):
     selvars : NDArray[np.intc]
         Array of indices for selected features after the sifted stage.
     idx : NDArray[np.intc]
-        Array of indices for selected algorithms after the sifted stage.
+        Array of indices for selected features after the sifted stage.
     rho : NDArray[np.double], optional
         Array of coefficients or weights for features after the sifted stage.
     pval : NDArray[np.double], optional
@@ -615,7 +615,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -641,7 +641,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -683,7 +683,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 silhouette_scores,
@@ -703,7 +703,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            selvars,
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From 6b1a8a7d85c29edf591c5cc60ef7ccae9990fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 23/56] fix: keep all features when SIFTED is turned off

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 1f069b0..f40c396 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -558,9 +558,9 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 "-> There is only 1 feature. Stopping space construction.",
             )
 
-        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
+        if not opts.flag or nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
             print(
-                "-> There are 3 or less features to do selection.",
+                "-> Feature selection is off, or there are 3 or less features.",
                 "Skipping feature selection.",
             )
             selvars = np.arange(nfeats)
-- 
2.43.0


From ef1881fd0d87d2c5ee80864dec8fd7e05a6fc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 24/56] fix: include the first algorithm in matrix C of PILOT

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 73503af..1327244 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -265,7 +265,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_z = x @ out_a.T
             b = alpha[2 * n :, idx].reshape(m, 2)
             x_hat = out_z @ b.T
-            out_c = b[n + 1 : m, :].T
+            out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
             r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
-- 
2.43.0


From 12d6d1193f975667c7520b2aa3d87073596473ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 25/56] fix: compute the r2 of each feature and algorithm in
 PILOT

---
 instancespace/stages/pilot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 1327244..75634c3 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -268,7 +268,8 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
-            r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
+            correlation = np.corrcoef(x_bar, x_hat, rowvar=False)[:m, m:]
+            r2 = (np.diag(correlation) ** 2).astype(np.double)
 
         if options.analytic:
             summary = pd.DataFrame(out_a)
-- 
2.43.0


From c0a88925664c21543547f81e2245ad35c9b11a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 26/56] fix: use the pre-calculated solution given to PILOT

---
 instancespace/stages/pilot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 75634c3..102a459 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -221,12 +221,16 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
 
         # Numerical solution
         else:
-            if options.alpha is not None and options.alpha.shape == (2 * m + 2 * n, 1):
+            if options.alpha is not None and np.shape(options.alpha) == (
+                2 * m + 2 * n,
+                1,
+            ):
                 PilotStage._pilot_print(
                     " -> PILOT is using a pre-calculated solution.",
                     _do_output,
                 )
-                alpha = options.alpha
+                alpha = np.asarray(options.alpha)
+                idx = 0
             else:
                 if options.x0 is not None:
                     PilotStage._pilot_print(
-- 
2.43.0


From 2b93f20a784c365a7c8ff7c2f478f18061c48c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 27/56] fix: accept PILOT starting points loaded from JSON

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 102a459..b225711 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -238,7 +238,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                         " for BFGS.",
                         _do_output,
                     )
-                    x0 = options.x0
+                    x0 = np.asarray(options.x0)
                 else:
                     PilotStage._pilot_print(
                         "  -> PILOT is using random starting points for BFGS.",
-- 
2.43.0


From d5604df4ac74784107729d4c7aab4b5145baf4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 28/56] fix: keep the analytic PILOT solution real

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index b225711..f455bb6 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -397,7 +397,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
 
         covariance_matrix = np.dot(x_bar, x_bar.T)
 
-        d, v = la.eig(covariance_matrix)
+        d, v = la.eigh(covariance_matrix)
 
         indices = np.argsort(np.abs(d))
         indices = indices[::-1]
-- 
2.43.0


From dbc27968d55e878508771d692f32d2a31c27d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 29/56] fix: report the mean and deviation PYTHIA normalised
 the space with

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..7eae38a 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -646,9 +646,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         tuple[list[float], list[float], NDArray[np.double]]
         The mean, standard deviation and normalized feature coordinates.
         """
-        z = stats.zscore(z, ddof=1)
         mu = np.mean(z, axis=0)
         sigma = np.std(z, ddof=1, axis=0)
+        z = stats.zscore(z, ddof=1)
         return (mu, sigma, z)
 
     @staticmethod
-- 
2.43.0


From 8f24b828a1c7d3b7478b93b120b9c7d2637b5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 30/56] fix: tell no selection from the first algorithm in
 PYTHIA

---
 instancespace/data/model.py    |  5 +++--
 instancespace/stages/pythia.py | 31 +++++++++++++++----------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/instancespace/data/model.py b/instancespace/data/model.py
index e2c890d..ad8030c 100644
--- a/instancespace/data/model.py
+++ b/instancespace/data/model.py
@@ -341,8 +341,9 @@ class PythiaOut:
             precision=stage_runner_output["precision"],
             recall=stage_runner_output["recall"],
             accuracy=stage_runner_output["accuracy"],
-            selection0=stage_runner_output["selection0"],
-            selection1=stage_runner_output["selection1"],
+            # Count algorithms from 1 (0 being none), as in the portfolio of the data
+            selection0=stage_runner_output["selection0"] + 1,
+            selection1=stage_runner_output["selection1"] + 1,
             summary=stage_runner_output["pythia_summary"],
         )
 
diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 7eae38a..8f76b8e 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -144,9 +144,11 @@ class PythiaOutput(NamedTuple):
     recall : list[float]
         Recall scores for each algorithm
     selection0 : NDArray[np.int_]
-        The selected algorithm indices for each instance.
+        The selected algorithm indices (from 0) for each instance, or -1 where no
+        algorithm is predicted to be good.
     selection1 : NDArray[np.int_]
-        The backup selected algorithm indices for each instance.
+        The selected algorithm indices (from 0) for each instance, falling back to
+        the algorithm that is good most often where none is predicted to be good.
     summary : pd.DataFrame
         A summary table for performance statistics of all algorithms.
     """
@@ -710,20 +712,17 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         scores are non-positive), it defaults to the algorithm with the best
         average performance
         """
-        if nalgos > 1:
-            # Boardcast corresponding col of y_hat with precision
-            precision_array = np.array(precision)
-            weighted_yhat = y_hat * precision_array[np.newaxis, :]
-            # Find the maximum value for each row in weighted_yhat
-            best = np.max(weighted_yhat, axis=1)
-            # Get the index of the maximum value in each row
-            selection0 = np.argmax(weighted_yhat, axis=1)
-        else:
-            best = y_hat
-            selection0 = y_hat.astype(np.int_)
+        # Boardcast corresponding col of y_hat with precision
+        precision_array = np.array(precision)
+        weighted_yhat = y_hat * precision_array[np.newaxis, :]
+        # Find the maximum value for each row in weighted_yhat
+        best = np.max(weighted_yhat, axis=1)
+        # Get the index of the maximum value in each row
+        selection0 = np.argmax(weighted_yhat, axis=1)
 
         selection1 = np.copy(selection0)
-        selection0[best <= 0] = 0
+        # Index -1 marks the instances where no algorithm is selected
+        selection0[best <= 0] = -1
         selection1[best <= 0] = default
         return (selection0, selection1)
 
@@ -802,8 +801,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         print("  -> PYTHIA is preparing the summary table.")
 
         # Obtain the corresponding selection matrix for the two selections.
-        sel0 = selection0[:, np.newaxis] == np.arange(1, nalgos + 1)
-        sel1 = selection1[:, np.newaxis] == np.arange(1, nalgos + 1)
+        sel0 = selection0[:, np.newaxis] == np.arange(nalgos)
+        sel1 = selection1[:, np.newaxis] == np.arange(nalgos)
 
         # Compute the average performance of the selected algorithms
         avgperf = np.round(np.nanmean(y, axis=0), 3)
-- 
2.43.0


From 00619d9abe746bfd42cfe564c7ebfcc7f8803bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 31/56] fix: summarise the selected instances without
 overwriting the performance

---
 instancespace/stages/pythia.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 8f76b8e..c88173a 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -813,10 +813,13 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         """
         y_full = y.copy()
 
+        # The same, but without falling back where no algorithm is selected
+        y_sel = y.copy()
+
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
+        y_sel[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
@@ -850,14 +853,14 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             "Avg_Perf_selected_instances": np.round(
                 np.append(
                     np.nanmean(y_svms, axis=0),
-                    np.array([np.nan, np.nanmean(y_full)]),
+                    np.array([np.nan, np.nanmean(y_sel)]),
                 ),
                 3,
             ),
             "Std_Perf_selected_instances": np.round(
                 np.append(
                     np.nanstd(y_svms, axis=0),
-                    np.array([np.nan, np.nanstd(y_full)]),
+                    np.array([np.nan, np.nanstd(y_sel)]),
                 ),
                 3,
             ),
-- 
2.43.0


From 38a5cea073f97f3a2e194b36a08e33da1d23e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 32/56] fix: train PYTHIA with the pre-calculated
 hyper-parameters

---
 instancespace/stages/pythia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index c88173a..fcc81a3 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -409,7 +409,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             param_space = (
                 PythiaStage._generate_params(rng)
                 if precalcparams is None
-                else {"C": precalcparams[i][0], "gamma": precalcparams[i][1]}
+                else {"C": [precalcparams[i][0]], "gamma": [precalcparams[i][1]]}
             )
             res = PythiaStage._fitmatsvm(
                 z=z,
@@ -676,6 +676,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         """
         if params is None:
             return None
+        # Options loaded from JSON give nested lists
+        params = np.asarray(params, dtype=np.double)
         # Check if the shape of hyper-parameters is correct
         if params.shape != (nalgos, 2):
             print("-> Error: Incorrect number of hyper-parameters.")
-- 
2.43.0


From dfa2534805151ab25c2060d92a48fc436774793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 33/56] fix: ignore missing values when finding the smallest
 weight in PYTHIA

---
 instancespace/stages/pythia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index fcc81a3..c98d772 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -382,8 +382,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         if opts.use_weights:
             print(" -> PYTHIA is using cost-sensitive classification.")
             w = np.abs(y - np.nanmean(y))
-            w[w == 0] = np.min(w[w != 0])
-            w[np.isnan(w)] = np.max(w[~np.isnan(w)])
+            w[w == 0] = np.nanmin(w[w != 0])
+            w[np.isnan(w)] = np.nanmax(w)
         else:
             print(" -> PYTHIA is not using cost-sensitive classification.")
             w = np.ones((ninst, nalgos), dtype=int)
-- 
2.43.0


From 87381ed7f07ed1a1b779a47b5bdece81b31388d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 34/56] fix: weight the instances when cross validating
 PYTHIA's models

---
 instancespace/stages/pythia.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index c98d772..edd32b1 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -586,11 +586,22 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         g = optimization.best_params_["gamma"]
 
         # Perform cross-validated predictions using the best SVM model
-        y_sub = cross_val_predict(best_svm, z, y_bin, cv=skf, method="predict")
-        p_sub = cross_val_predict(best_svm, z, y_bin, cv=skf, method="predict_proba")[
-            :,
-            1,
-        ]
+        y_sub = cross_val_predict(
+            best_svm,
+            z,
+            y_bin,
+            cv=skf,
+            method="predict",
+            params={"sample_weight": w},
+        )
+        p_sub = cross_val_predict(
+            best_svm,
+            z,
+            y_bin,
+            cv=skf,
+            method="predict_proba",
+            params={"sample_weight": w},
+        )[:, 1]
         # Predict the labels and probabilities for the entire dataset
         y_hat = best_svm.predict(z)
         p_hat = best_svm.predict_proba(z)[:, 1]
-- 
2.43.0


From 78e9a7f79c1aafdd194a77db8a9f2697bd3e7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 35/56] fix: do not swap accuracy and precision in PYTHIA's
 summary

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index edd32b1..5d772d1 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -484,8 +484,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             y_best,
             selection0,
             selection1,
-            accuracy_record,
             precision_record,
+            accuracy_record,
             recall_record,
             box_consnt,
             k_scale,
-- 
2.43.0


From f3376cb860261d16d686fcaeec0da64c309cb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 36/56] fix: tighten footprints around their own instances in
 TRACE

---
 instancespace/stages/trace.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4e0ae99..4dc63ae 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -642,6 +642,9 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 print("        -> Ignoring the contradicting area.")
                 break
 
+            if base_polygon is None or test_polygon is None:
+                break
+
             if base_polygon.is_empty or test_polygon.is_empty:
                 break
 
@@ -685,17 +688,14 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         refined_polygons = []
 
         for i in range(n_polygons):
-            criteria = np.logical_and(splits[i].contains(MultiPoint(self.z)), y_bin)
+            inside = [splits[i].contains(point) for point in MultiPoint(self.z).geoms]
+            criteria = np.logical_and(inside, y_bin)
             polydata = self.z[criteria]
 
             if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
                 continue
 
-            temp_polygon = Polygon(polydata)
-
-            boundary = temp_polygon.boundary
-            filtered_polydata = polydata[boundary]
-            aux = self.fit_poly(filtered_polydata, y_bin)
+            aux = self.fit_poly(polydata, y_bin)
 
             if aux:
                 refined_polygons.append(aux)
-- 
2.43.0


From 98c5f9bf256b207bd749f714a0eeed4930c976e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 37/56] fix: do not rename the columns of the model when saving
 it

---
 instancespace/_serialisers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..ab31455 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -177,23 +177,20 @@ def save_instance_space_to_csv(
     )
 
     trace_summary = trace_out.summary.iloc[:, [0, 2, 4, 5, 7, 9, 10]]
-    trace_summary.rename(columns={"Algorithm": "Row"}, inplace=True)
-    trace_summary.to_csv(
+    trace_summary.rename(columns={"Algorithm": "Row"}).to_csv(
         output_directory / "footprint_performance.csv",
         index=False,
     )
 
     if pilot_out.summary is not None:
         pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_summary.rename(columns={0: "Row"}).to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
     pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_summary.rename(columns={"Algorithms": "Row"}).to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From 06a86fcc47febda9a372baee4fc431bd793f3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 38/56] fix: give data that does not vary a valid colour

---
 instancespace/_serialisers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index ab31455..0e05115 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -425,6 +425,8 @@ def _colour_scale(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
     data_range = np.max(data, axis=0) - np.min(data, axis=0)
+    # Columns that do not vary have the lowest colour
+    data_range = np.where(data_range == 0, 1, data_range)
     out: NDArray[np.int_] = np.floor(
         255.0 * ((data - np.min(data, axis=0)) / data_range),
     ).astype(np.int_)
@@ -436,6 +438,8 @@ def _colour_scale_g(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
     data_range = np.max(data) - np.min(data)
+    # Data that does not vary has the lowest colour
+    data_range = np.where(data_range == 0, 1, data_range)
     out: NDArray[np.int_] = np.round(
         255.0 * ((data - np.min(data)) / data_range),
     ).astype(np.int_)
-- 
2.43.0


From 70163072658e08e717a04757234bd7452dcef003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 39/56] fix: normalise the performance that is plotted

---
 instancespace/_serialisers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 0e05115..9cb3a13 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -278,10 +278,10 @@ def save_instance_space_graphs(
     x_aux = (data.x - np.min(data.x, axis=0)) / x_range
 
     y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = data.y_raw - np.min(data.y_raw, axis=0) / y_raw_range
+    y_ind = (data.y_raw - np.min(data.y_raw, axis=0)) / y_raw_range
 
     y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
+    y_glb_range = np.max(y_glb) - np.min(y_glb)
     y_glb = (y_glb - np.min(y_glb)) / y_glb_range
 
     if options.trace.use_sim:
-- 
2.43.0


From b61d48e76c96e182d312bbdf7a3bc245be42053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 40/56] fix: plot the last algorithm and the footprint of each
 algorithm in portfolios

---
 instancespace/_serialisers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 9cb3a13..b1a300b 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -548,7 +548,7 @@ def _draw_portfolio_selections(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -598,7 +598,7 @@ def _draw_portfolio_footprint(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -612,7 +612,8 @@ def _draw_portfolio_footprint(
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-        _draw_footprint(ax, best[i], cmap(norm(i)), 0.3)
+        if i > 0:
+            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From 2a3e91630d67bd6683395ade556a6813b96106b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:45 +0000
Subject: [PATCH 41/56] fix: close the figure of the sources

---
 instancespace/_serialisers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index b1a300b..75c1d05 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -483,6 +483,8 @@ def _draw_sources(
 
     fig.savefig(output)
 
+    plt.close(fig)
+
 
 def _draw_scatter(
     z: NDArray[Any],
-- 
2.43.0


From 555c68a6cb6ef995dbc8b5184faf62d3417fb0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 42/56] fix: bound and normalise only if automatic
 pre-processing is on

---
 instancespace/data/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 6ad217b..12f0e11 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -744,8 +744,8 @@ class PrelimOptions:
             abs_perf=options.perf.abs_perf,
             epsilon=options.perf.epsilon,
             beta_threshold=options.perf.beta_threshold,
-            bound=options.bound.flag,
-            norm=options.norm.flag,
+            bound=options.auto.preproc and options.bound.flag,
+            norm=options.auto.preproc and options.norm.flag,
         )
 
 
-- 
2.43.0


From 0a81fbddd40711501e80a05ff8ea69e613252dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:14 +0000
Subject: [PATCH 43/56] fix: normalise performances far from the smallest one
 without overflow

---
 instancespace/stages/prelim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1505c92..1de3f11 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -523,6 +523,10 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 -------
                     Any: The negative log-likelihood value.
                 """
+                # A transform that overflows can't be standardised
+                with np.errstate(over="ignore"):
+                    if not np.isfinite(np.var(stats.boxcox(data, lmbda))):
+                        return np.inf
                 result = stats.boxcox_llf(lmbda, data)
                 if isinstance(result, list | np.ndarray):
                     return -float(result[0])
-- 
2.43.0


From f348795fe47bfeff31a17df56d51706736329329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 44/56] fix: plot instances whose coordinates are beyond 5

---
 instancespace/_serialisers.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 75c1d05..5a50b3b 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -447,6 +447,13 @@ def _colour_scale_g(
     return out
 
 
+def _set_axis_limits(ax: Axes, z: NDArray[Any]) -> None:
+    """Show the usual range of coordinates, or more if instances lie outside of it."""
+    limit = max(5.0, float(np.floor(np.max(np.abs(z)))) + 1)
+    ax.set_xlim((-limit, limit))
+    ax.set_ylim((-limit, limit))
+
+
 def _draw_sources(
     z: NDArray[Any],
     s: NDArray[np.str_],
@@ -460,8 +467,7 @@ def _draw_sources(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_axis_limits(ax, z)
     fig.suptitle("Sources")
 
     norm = Normalize(lower_bound, upper_bound)
@@ -505,8 +511,7 @@ def _draw_scatter(
     norm = Normalize(lower_bound, upper_bound)
 
     ax.scatter(z[:, 0], z[:, 1], s=8, c=x, norm=norm, cmap=cmap)
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_axis_limits(ax, z)
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
     fig.colorbar(
@@ -544,8 +549,7 @@ def _draw_portfolio_selections(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_axis_limits(ax, z)
     fig.suptitle(title_label)
 
     norm = Normalize(lower_bound, upper_bound)
@@ -594,8 +598,7 @@ def _draw_portfolio_footprint(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_axis_limits(ax, z)
     fig.suptitle("Portfolio footprints")
 
     norm = Normalize(lower_bound, upper_bound)
@@ -642,8 +645,7 @@ def _draw_good_bad_footprint(
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
     fig.suptitle(title_label)
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_axis_limits(ax, z)
     not_y_bin = y_bin == 0
     good_y_bin = y_bin == 1
 
@@ -698,8 +700,7 @@ def _draw_binary_performance(
         fig, ax2 = plt.subplots()
         ax: Axes = ax2
         fig.suptitle(title_label)
-        ax.set_xlim((-5, 5))
-        ax.set_ylim((-5, 5))
+        _set_axis_limits(ax, z)
         not_y_bin = y_bin == 0
         good_y_bin = y_bin == 1
 
-- 
2.43.0


From 22f89ceacc9ad481eee9ae67a396af4755014c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:06 +0000
Subject: [PATCH 45/56] fix: refit footprints independently of the order of the
 instances

The outline left to a footprint after a contradiction was simplified starting
from whichever instance came first; build() sorts its instances, tight() did not.
---
 instancespace/stages/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4dc63ae..52ddd9d 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -690,7 +690,7 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         for i in range(n_polygons):
             inside = [splits[i].contains(point) for point in MultiPoint(self.z).geoms]
             criteria = np.logical_and(inside, y_bin)
-            polydata = self.z[criteria]
+            polydata = np.unique(self.z[criteria], axis=0)
 
             if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
                 continue
-- 
2.43.0


From 93cf5a37b44d4e6c654c7634d3adf2920c34c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:10 +0000
Subject: [PATCH 46/56] fix: draw footprints in the colour of the instances of
 their algorithm

In the plot of the portfolio every footprint had a colour of its own scale, so
that it could not be told whose it is.
---
 instancespace/_serialisers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 5a50b3b..b345bb6 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -607,7 +607,7 @@ def _draw_portfolio_footprint(
         if not is_worthy[i]:
             continue
 
-        ax.scatter(
+        points = ax.scatter(
             z[p == i, 0],
             z[p == i, 1],
             s=8,
@@ -618,7 +618,8 @@ def _draw_portfolio_footprint(
         )
 
         if i > 0:
-            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
+            # A footprint has the colour of the instances of its algorithm
+            _draw_footprint(ax, best[i - 1], tuple(points.get_facecolor()[0]), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From 88b5eb31b406e4e8dbfc4454da4e04651a457d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:13 +0000
Subject: [PATCH 47/56] fix: do not take the labels of metadata with surplus
 delimiters for an index

---
 instancespace/data/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index 750a2d5..d39906c 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -107,7 +107,8 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
         file_path = Path(file_path)
 
     try:
-        csv_df = pd.read_csv(file_path)
+        # Lines that end with a delimiter don't turn the labels into an index
+        csv_df = pd.read_csv(file_path, index_col=False)
     except (
         FileNotFoundError,
         OSError,
-- 
2.43.0


From b89ad65aa62808b63244ea7246ca8ceed28b62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 48/56] fix: keep labels and sources of metadata files that
 look like numbers as they are

---
 instancespace/data/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index d39906c..c2031f4 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -107,8 +107,14 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
         file_path = Path(file_path)
 
     try:
+        # Labels and sources are text, even if they look like numbers (007, 1.10)
+        text_columns = {
+            column: str
+            for column in pd.read_csv(file_path, index_col=False, nrows=0).columns
+            if column.lower() in ("instances", "source")
+        }
         # Lines that end with a delimiter don't turn the labels into an index
-        csv_df = pd.read_csv(file_path, index_col=False)
+        csv_df = pd.read_csv(file_path, index_col=False, dtype=text_columns)
     except (
         FileNotFoundError,
         OSError,
-- 
2.43.0


From 7d16decce39ab3b92d82f0ef6a988371a0e4a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 49/56] fix: run density based experiments whose minimum
 distance is a whole number

---
 instancespace/stages/prelim.py | 2 +-
 instancespace/stages/sifted.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1de3f11..7d949f3 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -800,7 +800,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         bydensity = (
             selvars_opts.density_flag
-            and isinstance(selvars_opts.min_distance, float)
+            and isinstance(selvars_opts.min_distance, int | float)
             and isinstance(selvars_opts.selvars_type, str)
         )
 
diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f40c396..e922a09 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -548,7 +548,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             and "density_flag" in opts_selvars.__dict__
             and opts_selvars.density_flag
             and "min_distance" in opts_selvars.__dict__
-            and isinstance(opts_selvars.min_distance, float)
+            and isinstance(opts_selvars.min_distance, int | float)
             and "selvars_type" in opts_selvars.__dict__
             and isinstance(opts_selvars.selvars_type, str)
         )
-- 
2.43.0


From c8eb9e3a9b431b1112c040988b8730dfe45d487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:15 +0000
Subject: [PATCH 50/56] fix: keep the arguments returned by run_until_stage as
 they were returned

---
 instancespace/stage_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 0b938a2..e8307aa 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -226,7 +226,7 @@ class StageRunner:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._available_arguments.copy()
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
 
-- 
2.43.0


From b0725cc3dc22609c88287b271c7fa13858d25fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:25 +0000
Subject: [PATCH 51/56] fix: bound infinite feature values to the limits
 instead of making them missing

---
 instancespace/stages/prelim.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 7d949f3..2611751 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -457,12 +457,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
-        hi_mask = self.x > hi_bound
-        lo_mask = self.x < lo_bound
-
-        self.x = self.x * ~(hi_mask | lo_mask)
-        self.x += np.multiply(hi_mask, np.broadcast_to(hi_bound, self.x.shape))
-        self.x += np.multiply(lo_mask, np.broadcast_to(lo_bound, self.x.shape))
+        self.x = np.clip(self.x, lo_bound, hi_bound)
 
         return _BoundOut(
             x=self.x,
-- 
2.43.0


From 3b05eb16842b55d972b3daf42f213c329b29eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:04 +0000
Subject: [PATCH 52/56] fix: scale colours for the web by the measured values
 when performance is missing

---
 instancespace/_serialisers.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index b345bb6..1f83b8c 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -424,27 +424,37 @@ def _make_bind_labels(
 def _colour_scale(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
-    data_range = np.max(data, axis=0) - np.min(data, axis=0)
+    data_range = np.nanmax(data, axis=0) - np.nanmin(data, axis=0)
     # Columns that do not vary have the lowest colour
     data_range = np.where(data_range == 0, 1, data_range)
-    out: NDArray[np.int_] = np.floor(
-        255.0 * ((data - np.min(data, axis=0)) / data_range),
-    ).astype(np.int_)
 
-    return out
+    return _as_colours(
+        np.floor(255.0 * ((data - np.nanmin(data, axis=0)) / data_range)),
+    )
 
 
 def _colour_scale_g(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
-    data_range = np.max(data) - np.min(data)
+    data_range = np.nanmax(data) - np.nanmin(data)
     # Data that does not vary has the lowest colour
     data_range = np.where(data_range == 0, 1, data_range)
-    out: NDArray[np.int_] = np.round(
-        255.0 * ((data - np.min(data)) / data_range),
-    ).astype(np.int_)
 
-    return out
+    return _as_colours(
+        np.round(255.0 * ((data - np.nanmin(data)) / data_range)),
+    )
+
+
+def _as_colours(scaled: NDArray[np.double]) -> NDArray[Any]:
+    """Convert colours to whole numbers, leaving out those of missing values."""
+    missing = np.isnan(scaled)
+    colours: NDArray[Any] = np.where(missing, 0, scaled).astype(np.int_)
+
+    if np.any(missing):
+        colours = colours.astype(object)
+        colours[missing] = None
+
+    return colours
 
 
 def _set_axis_limits(ax: Axes, z: NDArray[Any]) -> None:
-- 
2.43.0


From 2279b42aa5ca5df192d43d53d257917e17f6a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:53 +0000
Subject: [PATCH 53/56] fix: draw every instance in the plots of values that do
 not vary, are negative or missing

---
 instancespace/_serialisers.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 1f83b8c..96b03b6 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -274,15 +274,13 @@ def save_instance_space_graphs(
     num_feats = data.x.shape[1]
     num_algorithms = data.y.shape[1]
 
-    x_range = np.max(data.x, axis=0) - np.min(data.x, axis=0)
-    x_aux = (data.x - np.min(data.x, axis=0)) / x_range
+    x_aux = _unit_scale(data.x, axis=0)
 
-    y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = (data.y_raw - np.min(data.y_raw, axis=0)) / y_raw_range
+    y_ind = _unit_scale(data.y_raw, axis=0)
 
-    y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb) - np.min(y_glb)
-    y_glb = (y_glb - np.min(y_glb)) / y_glb_range
+    # The logarithm needs values that aren't negative
+    y_lowest = min(0.0, float(np.nanmin(data.y_raw)))
+    y_glb = _unit_scale(np.log10(data.y_raw - y_lowest + 1))
 
     if options.trace.use_sim:
         y_foot = pythia.y_hat
@@ -464,6 +462,23 @@ def _set_axis_limits(ax: Axes, z: NDArray[Any]) -> None:
     ax.set_ylim((-limit, limit))
 
 
+def _unit_scale(
+    data: NDArray[np.double],
+    axis: int | None = None,
+) -> NDArray[np.double]:
+    """Scale the values that aren't missing to between 0 and 1."""
+    lowest = np.nanmin(data, axis=axis)
+    data_range = np.nanmax(data, axis=axis) - lowest
+    # Data that does not vary has the lowest value
+    out: NDArray[np.double] = (data - lowest) / np.where(
+        data_range == 0,
+        1,
+        data_range,
+    )
+
+    return out
+
+
 def _draw_sources(
     z: NDArray[Any],
     s: NDArray[np.str_],
@@ -510,8 +525,8 @@ def _draw_scatter(
 ) -> None:
     plt.clf()
 
-    upper_bound = np.max(x)
-    lower_bound = np.min(x)
+    upper_bound = np.nanmax(x)
+    lower_bound = np.nanmin(x)
 
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
-- 
2.43.0


From 56c89479b0fc104fe339576a502dbeccde24e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:52 +0000
Subject: [PATCH 54/56] fix: plot the sources when some instances have none

---
 instancespace/_serialisers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 96b03b6..8bbe935 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -486,6 +486,8 @@ def _draw_sources(
 ) -> None:
     upper_bound = np.ceil(np.max(z))
     lower_bound = np.floor(np.min(z))
+    # Instances without a source are a group of their own
+    s = np.where(pd.isna(s), "None", s)
     source_labels = np.unique(s)
     num_sources = len(source_labels)
 
-- 
2.43.0


From 5674c685fcc2615053f31cce3d03c74786462d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:00 +0000
Subject: [PATCH 55/56] fix: give every group its own colour in plots of more
 than ten groups

---
 instancespace/_serialisers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 8bbe935..062f2c0 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -462,6 +462,13 @@ def _set_axis_limits(ax: Axes, z: NDArray[Any]) -> None:
     ax.set_ylim((-limit, limit))
 
 
+def _set_group_colours(ax: Axes, num_groups: int) -> None:
+    """Avoid repeating colours if there are more groups than the usual colours."""
+    if num_groups > len(mpl.rcParams["axes.prop_cycle"]):
+        cmap = plt.colormaps["viridis"]
+        ax.set_prop_cycle(color=cmap(np.linspace(0, 1, num_groups)))
+
+
 def _unit_scale(
     data: NDArray[np.double],
     axis: int | None = None,
@@ -495,6 +502,7 @@ def _draw_sources(
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
     _set_axis_limits(ax, z)
+    _set_group_colours(ax, num_sources)
     fig.suptitle("Sources")
 
     norm = Normalize(lower_bound, upper_bound)
@@ -577,6 +585,7 @@ def _draw_portfolio_selections(
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
     _set_axis_limits(ax, z)
+    _set_group_colours(ax, num_algorithms + 1)
     fig.suptitle(title_label)
 
     norm = Normalize(lower_bound, upper_bound)
@@ -626,6 +635,7 @@ def _draw_portfolio_footprint(
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
     _set_axis_limits(ax, z)
+    _set_group_colours(ax, num_algorithms + 1)
     fig.suptitle("Portfolio footprints")
 
     norm = Normalize(lower_bound, upper_bound)
-- 
2.43.0


From b6397a9a1b1228f06bfffad3c0787c60d11a3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:37 +0000
Subject: [PATCH 56/56] fix: keep labels and sources such as NA or null when
 reading metadata

---
 instancespace/data/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index c2031f4..c86e2c0 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,13 +108,14 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         # Labels and sources are text, even if they look like numbers (007, 1.10)
+        # or missing values (NA, null); only an empty cell is a missing value
         text_columns = {
-            column: str
+            column: lambda text: text or np.nan
             for column in pd.read_csv(file_path, index_col=False, nrows=0).columns
             if column.lower() in ("instances", "source")
         }
         # Lines that end with a delimiter don't turn the labels into an index
-        csv_df = pd.read_csv(file_path, index_col=False, dtype=text_columns)
+        csv_df = pd.read_csv(file_path, index_col=False, converters=text_columns)
     except (
         FileNotFoundError,
         OSError,
-- 
2.43.0

