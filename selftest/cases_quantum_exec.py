S = "single_quantum_executor.py"
Q = "_quantumContext.py"
L = "log_capture.py"
WM = "            self._write_metadata(quantum, fullMetadata, task_node, limited_butler)\n            stopTime"
CASES = [
    # --- success marker
    ("write-in-finally", "bad", [(S, WM, "            stopTime"), (S, "                captureLog.extra.metadata = fullMetadata\n", "                captureLog.extra.metadata = fullMetadata\n                self._write_metadata(quantum, fullMetadata, task_node, limited_butler)\n")]),
    ("write-before-run", "bad", (S, "                logInfo(None, \"start\", metadata=quantumMetadata)", "                self._write_metadata(quantum, quantumMetadata, task_node, limited_butler)\n                logInfo(None, \"start\", metadata=quantumMetadata)")),
    ("no-write", "bad", (S, WM, "            stopTime")),
    ("no-write-missing", "bad", (S, WM, "            if outputs_put:\n                self._write_metadata(quantum, fullMetadata, task_node, limited_butler)\n            stopTime")),
    ("nowork-no-write", "bad", (S, "                self._write_metadata(quantum, fullMetadata, task_node, limited_butler)\n                return", "                return")),
    ("nowork-continues", "bad", (S, "                self._write_metadata(quantum, fullMetadata, task_node, limited_butler)\n                return QuantumExecutionResult(\n                    quantum,\n                    report,\n                    skipped_existing=False,\n                    adjusted_no_work=True,\n                    task_metadata=fullMetadata,\n                )", "                self._write_metadata(quantum, fullMetadata, task_node, limited_butler)")),
    ("swallow", "bad", (S, "                    metadata={},\n                )\n                raise\n", "                    metadata={},\n                )\n                caveats = QuantumSuccessCaveats.NO_CAVEATS\n")),
    ("swallow-in-run", "bad", (S, "        except NoWorkFound as err:\n            # Not an error", "        except RuntimeError as err:\n            _LOG.info('%s', err)\n        except NoWorkFound as err:\n            # Not an error")),
    ("partial-inverted", "bad", (S, "            if self._raise_on_partial_outputs:", "            if not self._raise_on_partial_outputs:")),
    ("partial-no-cause", "bad", (S, "            if self._raise_on_partial_outputs:", "            if self._raise_on_partial_outputs and caught.__cause__ is not None:")),
    ("drop-flags-partial", "bad", (S, "                flags |= caught.FLAGS\n", "")),
    ("drop-flags-nowork", "bad", (S, "            flags |= err.FLAGS\n", "")),
    ("drop-any-missing", "bad", (S, "        if not butlerQC.outputsPut == butlerQC.allOutputs:\n            flags |= QuantumSuccessCaveats.ANY_OUTPUTS_MISSING\n", "")),
    ("elif-any-missing", "bad", (S, "        if not butlerQC.outputsPut == butlerQC.allOutputs:\n", "        elif not butlerQC.outputsPut == butlerQC.allOutputs:\n")),
    ("caveats-none", "bad", (S, '                quantumMetadata["caveats"] = caveats.value\n', '                quantumMetadata["caveats"] = QuantumSuccessCaveats.NO_CAVEATS.value\n')),
    ("no-caveats", "bad", (S, '                quantumMetadata["caveats"] = caveats.value\n', '')),
    ("nowork-caveats", "bad", (S, "QuantumSuccessCaveats.from_adjust_quantum_no_work().value", "QuantumSuccessCaveats.NO_CAVEATS.value")),
    ("outputs-not-in-finally", "bad", (S, "        finally:\n            ids_put.extend(output[2] for output in butlerQC.outputsPut)\n", "        ids_put.extend(output[2] for output in butlerQC.outputsPut)\n")),
    ("no-exc-info", "bad", (S, "                captureLog.extra.exception = ExceptionInfo(", "                info = ExceptionInfo(")),
    ("metadata-else-only", "bad", [(S, "                captureLog.extra.metadata = fullMetadata\n            self._write", "            captureLog.extra.metadata = fullMetadata\n            self._write")]),
    ("task-unbound", "bad", (S, "            task: PipelineTask | None = None\n", "            task: PipelineTask | None\n")),
    ("no-close", "bad", (S, "            if used_butler_factory:\n                limited_butler.close()", "            pass")),
    ("close-on-success", "bad", (S, "        try:\n            return self._execute_with_limited_butler(\n                task_node, limited_butler, quantum=quantum, quantum_id=quantum_id, log_records=log_records\n            )\n        finally:\n            if used_butler_factory:\n                limited_butler.close()", "        result = self._execute_with_limited_butler(\n            task_node, limited_butler, quantum=quantum, quantum_id=quantum_id, log_records=log_records\n        )\n        if used_butler_factory:\n            limited_butler.close()\n        return result")),
    ("close-always", "bad", (S, "            if used_butler_factory:\n                limited_butler.close()", "            limited_butler.close()")),
    ("close-not-none", "ok", (S, "            if used_butler_factory:\n                limited_butler.close()", "            if self._butler is None and self._limited_butler is None:\n                limited_butler.close()")),
    ("write-helper-inline", "ok", (S, WM, "            [mref] = quantum.outputs[task_node.metadata_output.dataset_type_name]\n            limited_butler.put(fullMetadata, mref)\n            stopTime")),
    ("metadata-helper", "ok", [(S, "                quantumMetadata[\"outputs\"] = [str(output) for output in outputs_put]\n                fullMetadata[\"quantum\"] = quantumMetadata\n                if self._job_metadata is not None:\n                    fullMetadata[\"job\"] = self._job_metadata\n                captureLog.extra.metadata = fullMetadata\n", "                fullMetadata = self._finish_md(fullMetadata, quantumMetadata, outputs_put)\n                captureLog.extra.metadata = fullMetadata\n"),
        (S, "    def _check_existing_outputs(", "    def _finish_md(self, full, qm, outs):\n        qm[\"outputs\"] = [str(o) for o in outs]\n        full[\"quantum\"] = qm\n        if self._job_metadata is not None:\n            full[\"job\"] = self._job_metadata\n        return full\n\n    def _check_existing_outputs(")]),
    ("neq-form", "ok", (S, "if not butlerQC.outputsPut == butlerQC.allOutputs:", "if butlerQC.outputsPut != butlerQC.allOutputs:")),
    ("diff-form", "ok", (S, "if not butlerQC.outputsPut == butlerQC.allOutputs:", "if butlerQC.allOutputs - butlerQC.outputsPut:")),
    ("len-form", "ok", (S, "        if not butlerQC.outputsPut:\n", "        if len(butlerQC.outputsPut) == 0:\n")),
    ("flags-or", "ok", (S, "flags |= err.FLAGS", "flags = flags | err.FLAGS")),
    # --- existing outputs
    ("skip-partial", "bad", (S, "                if self._clobber_outputs:\n                    # only prune", "                if self._skip_existing:\n                    return True\n                if self._clobber_outputs:\n                    # only prune")),
    ("prune-no-clobber", "bad", (S, "                if self._clobber_outputs:\n                    # only prune", "                if self._clobber_outputs or self._skip_existing:\n                    # only prune")),
    ("prune-all", "bad", (S, "limited_butler.pruneDatasets(existingRefs, disassociate=True, unstore=True, purge=True)\n                    return False", "limited_butler.pruneDatasets(list(chain.from_iterable(quantum.inputs.values())), disassociate=True, unstore=True, purge=True)\n                    return False")),
    ("no-raise", "bad", (S, '''                    raise RuntimeError(
                        "Registry inconsistency''', '''                    _LOG.warning(
                        "Registry inconsistency''')),
    ("no-metadata-check", "bad", (S, "                if limited_butler.stored(metadata_ref):\n                    return True\n", "                pass\n")),
    ("metadata-check-after", "bad", (S, "                if limited_butler.stored(metadata_ref):\n                    return True\n", "                if limited_butler.stored(metadata_ref) and not self._clobber_outputs:\n                    return True\n")),
    ("skip-without-flag", "bad", (S, "        if self._skip_existing:\n            _LOG.debug(\n                \"Checking", "        if self._skip_existing or self._clobber_outputs:\n            _LOG.debug(\n                \"Checking")),
    ("no-prune-complete", "bad", (S, '                    _LOG.info("Removing complete outputs for quantum %s: %s", quantum, existingRefs)\n                    limited_butler.pruneDatasets(existingRefs, disassociate=True, unstore=True, purge=True)\n', '                    _LOG.info("Removing complete outputs for quantum %s: %s", quantum, existingRefs)\n')),
    ("clobber-first (metadata is an output, so unreachable)", "ok", (S, "                if self._skip_existing:\n                    return True\n                elif self._clobber_outputs:", "                if self._clobber_outputs:\n                    limited_butler.pruneDatasets(existingRefs, disassociate=True, unstore=True, purge=True)\n                elif self._skip_existing:\n                    return True\n                elif self._clobber_outputs:")),
    ("store-not-reset", "bad", (S, "            captureLog.store = True\n", "")),
    ("store-early", "bad", (S, "            captureLog.store = False\n", "            captureLog.store = True\n")),
    ("no-attach", "bad", (S, "                log_extra.attach_previous_attempt(limited_butler.get(log_ref))\n", "")),
    ("attach-after-prune", "bad", (S, "                log_extra.attach_previous_attempt(limited_butler.get(log_ref))\n", "                if not self._clobber_outputs:\n                    log_extra.attach_previous_attempt(limited_butler.get(log_ref))\n")),
    ("nested-if-merge", "ok", (S, "            if metadata_ref is not None:\n                if limited_butler.stored(metadata_ref):\n                    return True\n", "            if metadata_ref is not None and limited_butler.stored(metadata_ref):\n                return True\n")),
    ("loop-partition", "ok", (S, "        existingRefs = [ref for ref, exists in ref_dict.items() if exists]\n        missingRefs = [ref for ref, exists in ref_dict.items() if not exists]\n", "        existingRefs = []\n        missingRefs = []\n        for ref, exists in ref_dict.items():\n            if exists:\n                existingRefs.append(ref)\n            else:\n                missingRefs.append(ref)\n")),
    ("prune-helper", "ok", [(S, "limited_butler.pruneDatasets(existingRefs, disassociate=True, unstore=True, purge=True)\n                    return False", "self._prune(limited_butler, existingRefs)\n                    return False"), (S, "    def _check_existing_outputs(", "    def _prune(self, butler, refs):\n        butler.pruneDatasets(refs, disassociate=True, unstore=True, purge=True)\n\n    def _check_existing_outputs(")]),
    # --- inputs
    ("no-exist-check", "bad", (S, "                if stored[ref]:\n", "                if ref in stored:\n")),
    ("keep-missing", "bad", (S, "                    _LOG.info(\"No dataset artifact found for %s\", ref)\n", "                    newRefsForDatasetType.append(ref)\n")),
    ("no-change-flag", "bad", (S, "                anyChanges = True\n", "                pass\n")),
    ("any-only-empty", "bad", (S, "            if len(newRefsForDatasetType) != len(refsForDatasetType):", "            if not newRefsForDatasetType:")),
    ("old-outputs", "bad", (S, "            outputs=helper.outputs,", "            outputs=quantum.outputs,")),
    ("old-inputs", "bad", (S, "            inputs=helper.inputs,", "            inputs=quantum.inputs,")),
    ("assume", "bad", (S, "                if ref.id in datastore_record_data.records:\n                    return True\n", "                if datastore_record_data.records:\n                    return True\n")),
    ("flag-in-else", "ok", (S, "                    _LOG.info(\"No dataset artifact found for %s\", ref)\n                    continue\n            if len(newRefsForDatasetType) != len(refsForDatasetType):\n                anyChanges = True\n", "                    _LOG.info(\"No dataset artifact found for %s\", ref)\n                    anyChanges = True\n")),
    ("lt", "ok", (S, "if len(newRefsForDatasetType) != len(refsForDatasetType):", "if len(newRefsForDatasetType) < len(refsForDatasetType):")),
    # --- context
    ("get-no-check", "bad", (Q, "            self._checkMembership(ref.datasetRef, self.allInputs)\n", "")),
    ("get-outputs", "bad", (Q, "            self._checkMembership(ref, self.allInputs)\n", "            self._checkMembership(ref, self.allOutputs)\n")),
    ("put-no-check", "bad", (Q, "        self._checkMembership(ref, self.allOutputs)\n", "")),
    ("put-record-first", "bad", (Q, "        self.__butler.put(value, ref, provenance=self.dataset_provenance)\n        self.outputsPut.add((ref.datasetType, ref.dataId, ref.id))\n", "        self.outputsPut.add((ref.datasetType, ref.dataId, ref.id))\n        self.__butler.put(value, ref, provenance=self.dataset_provenance)\n")),
    ("put-no-record", "bad", (Q, "        self.outputsPut.add((ref.datasetType, ref.dataId, ref.id))\n\n", "\n")),
    ("no-prov", "bad", (Q, "put(value, ref, provenance=self.dataset_provenance)", "put(value, ref)")),
    ("no-add-input", "bad", (Q, "            self.dataset_provenance.add_input(ref.datasetRef)\n", "")),
    ("no-len-check", "bad", (Q, "                    if len(refs) != len(valuesAttribute):\n                        raise ValueError(f\"There must be a object to put for every Dataset ref in {name}\")\n", "")),
    ("list-no-len-check", "bad", (Q, "            if len(dataset) != len(values):", "            if len(dataset) > len(values):")),
    ("member-any", "bad", (Q, "        for r in ref:\n            if (r.datasetType, r.dataId, r.id) not in inout:\n                raise ValueError(\"DatasetRef is not part of the Quantum being processed\")", "        if not any((r.datasetType, r.dataId, r.id) in inout for r in ref):\n            raise ValueError(\"DatasetRef is not part of the Quantum being processed\")")),
    ("get-skip-none", "bad", (Q, "                        val.append(self._get(r))\n", "                        if r is not None:\n                            val.append(self._get(r))\n")),
    ("zip-strict", "ok", (Q, "            for i, ref in enumerate(dataset):\n                self._put(values[i], ref)\n", "            for value, ref in zip(values, dataset, strict=True):\n                self._put(value, ref)\n")),
    ("zip", "ok", (Q, "            for i, ref in enumerate(dataset):\n                self._put(values[i], ref)\n", "            for value, ref in zip(values, dataset):\n                self._put(value, ref)\n")),
    ("member-not-all", "ok", (Q, "        for r in ref:\n            if (r.datasetType, r.dataId, r.id) not in inout:\n                raise ValueError(\"DatasetRef is not part of the Quantum being processed\")", "        if not all((r.datasetType, r.dataId, r.id) in inout for r in ref):\n            raise ValueError(\"DatasetRef is not part of the Quantum being processed\")")),
    ("member-key", "ok", (Q, "            if (r.datasetType, r.dataId, r.id) not in inout:\n", "            key = (r.datasetType, r.dataId, r.id)\n            if key not in inout:\n")),
    ("put-inline-check", "ok", (Q, "        self._checkMembership(ref, self.allOutputs)\n", "        if (ref.datasetType, ref.dataId, ref.id) not in self.allOutputs:\n            raise ValueError('no')\n")),
    # --- logs
    ("no-remove", "bad", (L, "                    logging.getLogger().removeHandler(log_handler_memory)\n", "")),
    ("store-success-only", "bad", (L, "                    ctx.extra.metadata = None\n                finally:\n                    log_handler_memory.records.extra = ctx.extra.model_dump()\n                    # Ensure that the logs are stored in butler.\n                    logging.getLogger().removeHandler(log_handler_memory)\n                    if ctx.store:\n                        self._store_log_records(quantum, log_dataset_name, log_handler_memory)", "                    ctx.extra.metadata = None\n                    if ctx.store:\n                        self._store_log_records(quantum, log_dataset_name, log_handler_memory)\n                finally:\n                    log_handler_memory.records.extra = ctx.extra.model_dump()\n                    # Ensure that the logs are stored in butler.\n                    logging.getLogger().removeHandler(log_handler_memory)\n")),
    ("store-ignored", "bad", (L, "                    if ctx.store:\n                        self._store_log", "                    if True:\n                        self._store_log")),
    ("metadata-always-none", "bad", (L, "                except:\n                    raise\n                else:\n", "                except:\n                    ctx.extra.metadata = None\n                    raise\n                else:\n")),
    ("extra-after", "bad", (L, "                    log_handler_memory.records.extra = ctx.extra.model_dump()\n                    # Ensure that the logs are stored in butler.\n                    logging.getLogger().removeHandler(log_handler_memory)\n                    if ctx.store:\n                        self._store_log_records(quantum, log_dataset_name, log_handler_memory)", "                    # Ensure that the logs are stored in butler.\n                    logging.getLogger().removeHandler(log_handler_memory)\n                    if ctx.store:\n                        self._store_log_records(quantum, log_dataset_name, log_handler_memory)\n                    log_handler_memory.records.extra = ctx.extra.model_dump()\n")),
    ("no-extra-stream", "bad", (L, "                        if ctx.extra:\n", "                        if ctx.extra.exception is None:\n")),
    ("prev-attempt-lost", "bad", (L, "        self.previous_attempts.extend(previous.previous_attempts)\n", "")),
    ("prev-order", "bad", (L, "        self.previous_attempts.extend(previous.previous_attempts)\n        self.previous_attempts.append(previous)\n", "        self.previous_attempts.append(previous)\n        self.previous_attempts.extend(previous.previous_attempts)\n")),
    ("clear-first", "bad", (L, "        self.previous_attempts.extend(previous.previous_attempts)\n        self.previous_attempts.append(previous)\n        previous.previous_attempts.clear()\n", "        self.previous_attempts.append(previous)\n        previous.previous_attempts.clear()\n        self.previous_attempts.extend(previous.previous_attempts)\n")),
    ("log-ok-reorder", "ok", (L, "                    log_handler_memory.records.extra = ctx.extra.model_dump()\n                    # Ensure that the logs are stored in butler.\n                    logging.getLogger().removeHandler(log_handler_memory)\n", "                    logging.getLogger().removeHandler(log_handler_memory)\n                    log_handler_memory.records.extra = ctx.extra.model_dump()\n")),
    ("root-var", "ok", (L, "                    logging.getLogger().removeHandler(log_handler_memory)\n", "                    root = logging.getLogger()\n                    root.removeHandler(log_handler_memory)\n")),
]
