From e2883f0878f324f596995cfb1e2dfc96b82aa737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 01/27] fix: report failure status whenever graph execution
 raises

The overall report status stayed SUCCESS when execution raised without a
quantum failure having been recorded (a task that does not support
multiprocessing, a bad pdb module, an unexpected executor error).
---
 python/lsst/pipe/base/mp_graph_executor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index ca90f3d..276dfe6 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -558,12 +558,16 @@ class MPGraphExecutor(QuantumGraphExecutor):
                     self._execute_quanta_in_process(xgraph, self._report, provenance_writer)
             except MPGraphExecutorError as exc:
                 self._report.set_exception(exc)
+                if self._report.status is ExecutionStatus.SUCCESS:
+                    self._report.status = ExecutionStatus.FAILURE
                 err = exc
                 # Defer re-raising this exception only to let provenance writes
                 # finish as the ExitStack closes. The original traceback for
                 # this exception isn't useful anyway.
             except Exception as exc:
                 self._report.set_exception(exc)
+                if self._report.status is ExecutionStatus.SUCCESS:
+                    self._report.status = ExecutionStatus.FAILURE
                 raise
             if provenance_writer is not None:
                 provenance_writer.write_overall_inputs()
-- 
2.43.0


From ae7fc14b583669dc277fd4b6d942738a55f18ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 02/27] fix: include the quantum ID in in-process failure and
 skip reports

---
 python/lsst/pipe/base/mp_graph_executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 276dfe6..2a830e0 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -688,6 +688,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                         raise
                 except Exception as exc:
                     quantum_report = QuantumReport.from_exception(
+                        quantumId=quantum_id,
                         exception=exc,
                         dataId=data_id,
                         taskLabel=task_node.label,
@@ -738,6 +739,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                     for downstream_quantum_id in walker.fail(quantum_id):
                         downstream_node_state = xgraph.nodes[downstream_quantum_id]
                         failed_quantum_report = QuantumReport(
+                            quantumId=downstream_quantum_id,
                             status=ExecutionStatus.SKIPPED,
                             dataId=downstream_node_state["data_id"],
                             taskLabel=downstream_node_state["task_label"],
-- 
2.43.0


From 6cbb18ba25c726205655723c0f069a7a5ec90730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:53 +0000
Subject: [PATCH 03/27] fix: pass fail_fast on to multiprocessing jobs

Without it a repeatable quantum error under fail-fast never used its
documented exit code.
---
 python/lsst/pipe/base/mp_graph_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 2a830e0..14b437e 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -871,7 +871,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
 
             # see if we can start more jobs
             while len(jobs.running) < self._num_proc and jobs.pending:
-                job = jobs.submit(self._quantum_executor, self._start_method)
+                job = jobs.submit(self._quantum_executor, self._start_method, fail_fast=self._fail_fast)
                 _LOG.debug("Submitted %s", job)
 
             # Do cleanup for timed out jobs if necessary.
-- 
2.43.0


From 43fefc02a0733f5817cd40b8f8b895629695a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:46 +0000
Subject: [PATCH 04/27] fix: report failure when a process dies after sending
 its report

---
 python/lsst/pipe/base/mp_graph_executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 14b437e..2ad3641 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -303,6 +303,9 @@ class _Job:
         try:
             report = self._rcv_conn.recv()
             report.exitCode = self.process.exitcode
+            if report.exitCode != 0 and report.status is ExecutionStatus.SUCCESS:
+                # The process died after sending its report.
+                report.status = ExecutionStatus.FAILURE
         except Exception:
             # Likely due to the process killed, but there may be other reasons.
             # Exit code should not be None, this is to keep mypy happy.
-- 
2.43.0


From 4458f8db204124c3b86dcaddc5a8520a9aab561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:11 +0000
Subject: [PATCH 05/27] fix: do not mask task construction errors in
 SingleQuantumExecutor

---
 python/lsst/pipe/base/single_quantum_executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index cdec3e9..4b6d4b0 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -304,10 +304,11 @@ class SingleQuantumExecutor(QuantumExecutor):
                 task_node.label,
                 quantum.dataId,
             )
+            task: PipelineTask | None = None
+            outputs_put: list[uuid.UUID] = []
             try:
                 task = self._task_factory.makeTask(task_node, limited_butler, init_input_refs)
                 logInfo(None, "start", metadata=quantumMetadata)  # type: ignore[arg-type]
-                outputs_put: list[uuid.UUID] = []
                 with limited_butler.record_metrics() as butler_metrics, GcMetrics() as gc_metrics:
                     caveats = self._run_quantum(
                         task, quantum, task_node, limited_butler, quantum_id=quantum_id, ids_put=outputs_put
@@ -334,7 +335,8 @@ class SingleQuantumExecutor(QuantumExecutor):
                 # PropertyList.
             finally:
                 logInfo(None, "end", metadata=quantumMetadata)  # type: ignore[arg-type]
-                fullMetadata = task.getFullMetadata()
+                # Task construction may have failed.
+                fullMetadata = task.getFullMetadata() if task is not None else _TASK_FULL_METADATA_TYPE()
                 quantumMetadata["outputs"] = [str(output) for output in outputs_put]
                 fullMetadata["quantum"] = quantumMetadata
                 if self._job_metadata is not None:
-- 
2.43.0


From 437d6d5a0df7d2f004db030c0167a7d41ffafed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 06/27] fix: drop metadata from streamed logs of successful
 quanta

---
 python/lsst/pipe/base/log_capture.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index 356e1c7..e3d5337 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -227,6 +227,13 @@ class LogCapture:
                     try:
                         with ButlerMDC.set_mdc(mdc):
                             yield ctx
+                    except:
+                        raise
+                    else:
+                        # If the quantum succeeded, we don't need to save the
+                        # metadata in the logs, because we'll have saved them
+                        # in the metadata.
+                        ctx.extra.metadata = None
                     finally:
                         # Ensure that the logs are stored in butler.
                         logging.getLogger().removeHandler(log_handler_file)
-- 
2.43.0


From 45159844ed5dd860058e92b4d91e6b52c43dd4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:19 +0000
Subject: [PATCH 07/27] fix: match log message arguments to their placeholders

Inside a quantum, the butler log handler formats records eagerly and raises
on a mismatch, so AnnotatedPartialOutputsError without a cause made the quantum
fail with a TypeError instead of being handled.
---
 python/lsst/pipe/base/mp_graph_executor.py                    | 2 +-
 python/lsst/pipe/base/quantum_graph/aggregator/_supervisor.py | 4 +++-
 python/lsst/pipe/base/single_quantum_executor.py              | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 2ad3641..6db2935 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -242,7 +242,7 @@ class _Job:
             else:
                 raise
         except InvalidQuantumError as exc:
-            _LOG.fatal("Invalid quantum error for %s (%s): %s", task_node.label, quantum.dataId)
+            _LOG.fatal("Invalid quantum error for %s (%s):", task_node.label, quantum.dataId)
             _LOG.fatal(exc, exc_info=True)
             report = QuantumReport.from_exception(
                 quantumId=quantum_id,
diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_supervisor.py b/python/lsst/pipe/base/quantum_graph/aggregator/_supervisor.py
index e530c9a..94ab4f9 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_supervisor.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_supervisor.py
@@ -152,7 +152,9 @@ class Supervisor:
                     self.comms.progress.scans.update(1)
                 self.comms.progress.quantum_ingests.update(len(blocked_quanta))
             case ProvenanceQuantumScanStatus.ABANDONED:
-                self.comms.log.debug("Abandoning scan for %s: quantum has not succeeded (yet).")
+                self.comms.log.debug(
+                    "Abandoning scan for %s: quantum has not succeeded (yet).", scan_report.quantum_id
+                )
                 self.walker.fail(scan_report.quantum_id)
                 self.n_abandoned += 1
             case unexpected:
diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index 4b6d4b0..879d847 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -609,7 +609,8 @@ class SingleQuantumExecutor(QuantumExecutor):
             error: BaseException
             if caught.__cause__ is None:
                 _LOG.error(
-                    "Incorrect use of AnnotatedPartialOutputsError: no chained exception found.",
+                    "Incorrect use of AnnotatedPartialOutputsError by task '%s' on quantum %s: "
+                    "no chained exception found.",
                     task_node.label,
                     quantum.dataId,
                 )
-- 
2.43.0


From a4617c6fb628ff5fd6a6be2607950ab4e5696217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:58 +0000
Subject: [PATCH 08/27] fix: cache datasets only after they have been stored

---
 python/lsst/pipe/base/caching_limited_butler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index c1e0e70..f4bd7c8 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -168,6 +168,9 @@ class CachingLimitedButler(LimitedButler):
         return self._wrapped.isWriteable()
 
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
+        # Only cache the dataset once it has actually been stored, to avoid
+        # reporting a dataset as existing when the write failed.
+        result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
             self._cache[ref.datasetType.name] = (
                 ref.id,
@@ -179,7 +182,7 @@ class CachingLimitedButler(LimitedButler):
                 ),
             )
             _LOG.debug("Cached dataset %s on put", ref)
-        return self._wrapped.put(obj, ref, provenance=provenance)
+        return result
 
     def pruneDatasets(
         self,
-- 
2.43.0


From 8a1f84483c32f65f8587b80775639959e3134f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:58 +0000
Subject: [PATCH 09/27] fix: drop cached components of pruned datasets

---
 python/lsst/pipe/base/caching_limited_butler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index f4bd7c8..3ad0155 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -194,11 +194,12 @@ class CachingLimitedButler(LimitedButler):
         purge: bool = False,
     ) -> None:
         refs = list(refs)
-        for ref in refs:
-            if cached := self._cache.get(ref.datasetType.name):
-                dataset_id, _ = cached
-                if dataset_id == ref.id:
-                    del self._cache[ref.datasetType.name]
+        # Components share their dataset ID with their parent, so a pruned
+        # dataset may be cached under the names of other dataset types, too.
+        pruned_ids = {ref.id for ref in refs}
+        for name, (dataset_id, _) in list(self._cache.items()):
+            if dataset_id in pruned_ids:
+                del self._cache[name]
 
         return self._wrapped.pruneDatasets(
             refs, disassociate=disassociate, unstore=unstore, tags=tags, purge=purge
-- 
2.43.0


From a22132faf01cb2a45b62c087a1fc343dbab4113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:37 +0000
Subject: [PATCH 10/27] fix: find address rows whose key directly follows the
 last key of a page

---
 python/lsst/pipe/base/quantum_graph/_multiblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index c66501f..acd8dab 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -538,7 +538,7 @@ class AddressReader:
             bounds = self.page_bounds[mid]
             if key.int < bounds.uuid_int_begin:
                 right = mid - 1
-            elif key.int > bounds.uuid_int_end:
+            elif key.int >= bounds.uuid_int_end:
                 left = mid + 1
             else:
                 # Should have been on this page, but it wasn't.
-- 
2.43.0


From e5f3febb61e8283b7c9ce07760e445b8df37fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:16 +0000
Subject: [PATCH 11/27] fix: look for existing packages only in the run being
 initialized

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 1222a8b..704ae7f 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2027,7 +2027,7 @@ class PipelineGraph:
             with the current packages.
         """
         new_packages = Packages.fromSystem()
-        if (ref := butler.find_dataset(self.packages_dataset_type)) is not None:
+        if (ref := butler.find_dataset(self.packages_dataset_type, collections=butler.run)) is not None:
             packages = butler.get(ref)
             if compare_packages(packages, new_packages):
                 # have to remove existing dataset first; butler has no
-- 
2.43.0


From 5682e875db034b14ddfc4dcb0abc29d3e611beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:47 +0000
Subject: [PATCH 12/27] fix: refuse to write a predicted graph whose quanta
 were only partially read

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index f2b3f36..4999f3d 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1878,6 +1878,10 @@ class PredictedQuantumGraphComponents:
             raise RuntimeError(
                 "Cannot save graph after partial read of quanta: thin graph is inconsistent with header."
             )
+        if self.header.n_quanta != len(self.quantum_datasets):
+            raise RuntimeError(
+                "Cannot save graph after partial read of quanta: quantum datasets are inconsistent with header."
+            )
         # Ensure we record the actual version we're about to write, in case
         # we're rewriting an old graph in a new format.
         self.header.version = FORMAT_VERSION
-- 
2.43.0


From e6a04947ff1034a5357789c56378234e8b1e5cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 13/27] fix: defer temporal prerequisites of tasks that name
 temporal-bounds connections

---
 python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
index 4ab15bd..aba19ca 100644
--- a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
+++ b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
@@ -395,7 +395,7 @@ class AllDimensionsQuantumGraphBuilder(QuantumGraphBuilder):
                                 )
                                 continue
                         if finder.dataset_has_timespan:
-                            if task_prerequisite_info.bounds.spatial_connections:
+                            if task_prerequisite_info.bounds.temporal_connections:
                                 self.log.verbose(
                                     "Deferring prerequisite input %r of task %r to per-quantum processing "
                                     "(for temporal-bounds-connections handling).",
-- 
2.43.0


From 2c6cf031ad0c2e7e4b888b56f50a5a6b5bc1a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:07 +0000
Subject: [PATCH 14/27] fix: detect duplicate producers in
 PipelineGraph.producing_edge_of

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 704ae7f..088f009 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -400,6 +400,7 @@ class PipelineGraph:
                     f"Dataset type {dataset_type_name!r} is produced by both {producing_edge.task_label!r} "
                     f"and {producer!r}."
                 )
+            producer = producing_edge.task_label
         return producing_edge
 
     def consuming_edges_of(self, dataset_type_name: str) -> list[ReadEdge]:
-- 
2.43.0


From 88e4217f26141f335567bd31c06dc55177e8b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:07 +0000
Subject: [PATCH 15/27] fix: export the actual is_init flag of pipeline graph
 edges

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index e893982..1a569a6 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -259,7 +259,7 @@ class Edge(ABC):
             "connection_name": self.connection_name,
             "parent_dataset_type_name": self.parent_dataset_type_name,
             "storage_class_name": self.storage_class_name,
-            "is_init": bool,
+            "is_init": self.is_init,
         }
 
     @classmethod
-- 
2.43.0


From 13ef1f16de975e5b358dd6530b7a7f02d3a708e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:07 +0000
Subject: [PATCH 16/27] fix: compare init-inputs with those of the other task
 in TaskInitNode.diff_edges

---
 python/lsst/pipe/base/pipeline_graph/_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_tasks.py b/python/lsst/pipe/base/pipeline_graph/_tasks.py
index 0428300..4175ecb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_tasks.py
+++ b/python/lsst/pipe/base/pipeline_graph/_tasks.py
@@ -430,7 +430,7 @@ class TaskInitNode:
             ``other``.
         """
         result = []
-        result += _diff_edge_mapping(self.inputs, self.inputs, self.label, "init input")
+        result += _diff_edge_mapping(self.inputs, other.inputs, self.label, "init input")
         result += _diff_edge_mapping(self.outputs, other.outputs, self.label, "init output")
         result += self.config_output.diff(other.config_output, "config init output")
         return result
-- 
2.43.0


From 50bd3494ea2e428780d9f2e51c7c021eeae7a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:15 +0000
Subject: [PATCH 17/27] fix: restore the consuming edges of deserialized
 dataset type nodes

---
 python/lsst/pipe/base/pipeline_graph/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 06b87db..6cb1145 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -570,7 +570,7 @@ class SerializedDatasetTypeNode(pydantic.BaseModel):
                     )
                 producer = producing_edge.task_label
             consuming_edges = tuple(
-                consuming_edge for _, _, consuming_edge in xgraph.in_edges(key, data="instance")
+                consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
             )
             return DatasetTypeNode(
                 dataset_type=dataset_type,
-- 
2.43.0


From ce52932e05526f2f884b1ea721ea727a58b86cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:15 +0000
Subject: [PATCH 18/27] fix: name the right side when a connection exists only
 in B

---
 python/lsst/pipe/base/pipeline_graph/_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_tasks.py b/python/lsst/pipe/base/pipeline_graph/_tasks.py
index 4175ecb..57849d5 100644
--- a/python/lsst/pipe/base/pipeline_graph/_tasks.py
+++ b/python/lsst/pipe/base/pipeline_graph/_tasks.py
@@ -1171,6 +1171,6 @@ def _diff_edge_mapping(
     for connection_name in b_to_do:
         results.append(
             f"{connection_type.capitalize()} {connection_name!r} of task "
-            f"{task_label!r} exists in A, but not in B (or it may have a different connection type)."
+            f"{task_label!r} exists in B, but not in A (or it may have a different connection type)."
         )
     return results
-- 
2.43.0


From b9a52ade99d0da97aeb7bcb5b36ddd6dbe5fddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:23 +0000
Subject: [PATCH 19/27] fix: keep other included labels when an included task
 of an import is renamed

---
 python/lsst/pipe/base/pipelineIR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 76cc9ce..87438b4 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -519,7 +519,7 @@ class ImportIR:
                     renamed_tasks[label] = label_new
                     if is_included:
                         self.include = [
-                            label_new if (x == label) else label for x in cast(list[str], self.include)
+                            label_new if (x == label) else x for x in cast(list[str], self.include)
                         ]
                 else:
                     label_new = label
-- 
2.43.0


From aa91eb380d08fa1aa7fe9a36490c8339298a266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:23 +0000
Subject: [PATCH 20/27] fix: an empty exclude list of an import excludes
 nothing

---
 python/lsst/pipe/base/pipelineIR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 87438b4..d52b88f 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -512,7 +512,7 @@ class ImportIR:
             is_included = self.include and label in self.include
             if (
                 is_included
-                or (self.exclude and label not in self.exclude)
+                or (not self.include and self.exclude is not None and label not in self.exclude)
                 or (self.include is None and self.exclude is None)
             ):
                 if (label_new := self.rename.get(label)) is not None:
-- 
2.43.0


From 052bcab9293254937de31d392d6c956b32349bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:23 +0000
Subject: [PATCH 21/27] fix: include steps when a pipeline is written out

---
 python/lsst/pipe/base/pipelineIR.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index d52b88f..f2b6ab1 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -1098,6 +1098,10 @@ class PipelineIR:
             accumulate["contracts"] = contracts_list
         if self.labeled_subsets:
             accumulate["subsets"] = {k: v.to_primitives() for k, v in self.labeled_subsets.items()}
+        if self.steps:
+            accumulate["steps"] = [
+                {"label": step.label, "dimensions": list(step.dimensions)} for step in self.steps
+            ]
         return accumulate
 
     def __str__(self) -> str:
-- 
2.43.0


From 5e25c7e272bec2ba633b7d3d79f97ff5d5bc2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:23 +0000
Subject: [PATCH 22/27] fix: find removed labels on every line of a contract

---
 python/lsst/pipe/base/pipelineIR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index f2b6ab1..c7df3ad 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -932,7 +932,7 @@ class PipelineIR:
         for contract in self.contracts:
             # match a label that is not preceded by an ASCII identifier, or
             # is the start of a line and is followed by a dot
-            if re.match(f".*([^A-Za-z0-9_]|^){label}[.]", contract.contract):
+            if re.search(f"([^A-Za-z0-9_]|^){label}[.]", contract.contract):
                 continue
             new_contracts.append(contract)
         self.contracts = new_contracts
-- 
2.43.0


From 674346f68150d64e54bbeafbb55326e72bd5503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:23 +0000
Subject: [PATCH 23/27] fix: do not modify or share the pipeline that is merged
 into another

---
 python/lsst/pipe/base/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline.py b/python/lsst/pipe/base/pipeline.py
index 6417e6b..2c26bae 100644
--- a/python/lsst/pipe/base/pipeline.py
+++ b/python/lsst/pipe/base/pipeline.py
@@ -514,7 +514,7 @@ class Pipeline:
         pipeline : `Pipeline`
             The `Pipeline` object that is to be merged into this object.
         """
-        self._pipelineIR.merge_pipelines((pipeline._pipelineIR,))
+        self._pipelineIR.merge_pipelines((copy.deepcopy(pipeline._pipelineIR),))
 
     def addLabelToSubset(self, subset: str, label: str) -> None:
         """Add a task label from the specified subset.
-- 
2.43.0


From 941848e844676d9bffb3d97c508e0748232eada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:43 +0000
Subject: [PATCH 24/27] fix: look for a late report before declaring an
 aggregation worker dead

---
 .../lsst/pipe/base/quantum_graph/aggregator/_communicators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index 7b3617f..5cf7e71 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -441,6 +441,10 @@ class SupervisorCommunicator:
                     # Delete this worker from the list of workers so we don't
                     # hit this condition again when we try to handle the
                     # exception we raise.
+                    if (report := self._reports.get(block=False)) is not None:
+                        # The worker (or another one) sent something after the
+                        # timeout; this may be the message that it is done.
+                        return report
                     raise _WorkerCommunicationError(name)
             # If nothing is dead and we didn't hit the hang timeout, keep
             # trying.
-- 
2.43.0


From 42051a8e03c9c208d11bcf9d015d056f26ea7499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:33 +0000
Subject: [PATCH 25/27] fix: read the requested quanta and datasets of a
 provenance graph file

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index e7a23e5..243c4af 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1204,11 +1204,11 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
             with exit_stack:
                 if quanta is None:
                     reader.read_quanta()
-                elif not quanta:
+                elif quanta:
                     reader.read_quanta(quanta)
                 if datasets is None:
                     reader.read_datasets()
-                elif not datasets:
+                elif datasets:
                     reader.read_datasets(datasets)
                 yield reader.graph, None
 
-- 
2.43.0


From dbe16761670baa9236702dc67828fd5f5c1081cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 26/27] fix: leave the status of an attempt without logs and
 metadata unknown

FAILED guarantees that the log dataset was produced.
---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 243c4af..5d4dbd0 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2410,8 +2410,6 @@ class ProvenanceQuantumScanModels:
                 # at a very unlucky time (in between those two writes), or
                 # something even weirder happened.
                 self.attempts[-1].status = QuantumAttemptStatus.ABORTED_SUCCESS
-            else:
-                self.attempts[-1].status = QuantumAttemptStatus.FAILED
         if len(self.metadata.attempts) < len(self.attempts):
             # Metadata missing usually just means a failure.  In any case, the
             # status will already be correct, either because it was set to a
-- 
2.43.0


From e03b8382c60aa6ae2e207dfdc7dbf27da17c74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:31 +0000
Subject: [PATCH 27/27] fix: a configuration string that starts with a minus
 sign is no longer emptied

---
 python/lsst/pipe/base/configOverrides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/configOverrides.py b/python/lsst/pipe/base/configOverrides.py
index 6a81fb4..118a2e6 100644
--- a/python/lsst/pipe/base/configOverrides.py
+++ b/python/lsst/pipe/base/configOverrides.py
@@ -170,7 +170,7 @@ class ConfigExpressionParser(ast.NodeVisitor):
         """
         if isinstance(node.op, ast.USub):
             value = self.visit(node.operand)
-            return -1 * value
+            return -value
         self.generic_visit(node)
 
     def generic_visit(self, node):
-- 
2.43.0

