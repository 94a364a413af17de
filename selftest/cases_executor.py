F = "mp_graph_executor.py"
CASES = [
    ("finish before execute", "bad", (F, """                        execution_result = self._quantum_executor.execute(
                            task_node""", """                        walker.finish(quantum_id)
                        execution_result = self._quantum_executor.execute(
                            task_node""")),
    ("finish in finally", "bad", [(F, """                        success_count += 1
                        walker.finish(quantum_id)
""", """                        success_count += 1
"""), (F, """                        fail_exit_code = exc.EXIT_CODE
                        raise
                except Exception as exc:""", """                        fail_exit_code = exc.EXIT_CODE
                        raise
                    finally:
                        walker.finish(quantum_id)
                except Exception as exc:""")]),
    ("exit code <= 0 is success", "bad", (F, "if exitcode == 0:\n                        jobs.set", "if exitcode <= 0:\n                        jobs.set")),
    ("terminated counts as success", "bad", (F, "if exitcode == 0:\n                        jobs.set", "if exitcode == 0 or job.terminated:\n                        jobs.set")),
    ("repeatable error not failed", "bad", (F, """                            fail_exit_code = exc.EXIT_CODE
                        raise
                    except InvalidQ""", """                            fail_exit_code = exc.EXIT_CODE
                            raise
                    except InvalidQ""")),
    ("status not set on failure", "bad", (F, "                    report.status = ExecutionStatus.FAILURE\n                    failed_count += 1", "                    failed_count += 1")),
    ("status set after exit", "bad", (F, """                    report.status = ExecutionStatus.FAILURE
                    failed_count += 1

                    # If exception specified an exit code then just exit with
                    # that code, otherwise crash if fail-fast option is
                    # enabled.
                    if fail_exit_code is not None:
                        sys.exit(fail_exit_code)
""", """                    failed_count += 1
                    if fail_exit_code is not None:
                        sys.exit(fail_exit_code)
                    report.status = ExecutionStatus.FAILURE
""")),
    ("failed_count not counted", "bad", (F, "                    report.status = ExecutionStatus.FAILURE\n                    failed_count += 1", "                    report.status = ExecutionStatus.FAILURE")),
    ("cycle check before fixup", "bad", (F, """            if networkx.dag.has_cycle(xgraph):
                raise MPGraphExecutorError("Updated execution graph has dependency cycle.")
""", "")),
    ("downstream report missing in mp", "bad", (F, """                        taskLabel=downstream_job.task_node.label,
                    )
                    report.quantaReports.append(quantum_report)
""", """                        taskLabel=downstream_job.task_node.label,
                    )
""")),
    ("timeouts do not block downstream", "bad", (F, """            case JobState.TIMED_OUT:
                self.failed.add(quantum_id)
                self.timed_out.add(quantum_id)
""", """            case JobState.TIMED_OUT:
                self.failed.add(quantum_id)
                self.timed_out.add(quantum_id)
                return []
""")),
    ("timeouts not in failed", "bad", (F, """            case JobState.TIMED_OUT:
                self.failed.add(quantum_id)
                self.timed_out.add(quantum_id)
""", """            case JobState.TIMED_OUT:
                self.timed_out.add(quantum_id)
""")),
    ("mp bound off", "bad", (F, "while len(jobs.running) < self._num_proc and jobs.pending:", "while jobs.pending:")),
    ("mp bound pending", "bad", (F, "while len(jobs.running) < self._num_proc and jobs.pending:", "while len(jobs.running) <= self._num_proc and jobs.pending:")),
    ("mp bound only once", "bad", (F, "while len(jobs.running) < self._num_proc and jobs.pending:\n                job", "while jobs.pending:\n              if len(jobs.running) < self._num_proc:\n                break\n              for _ in range(3):\n                job")),
    ("child swallows exception", "bad", (F, """                taskLabel=task_node.label,
            )
            raise
        finally:""", """                taskLabel=task_node.label,
            )
        finally:""")),
    ("provenance skipped for failures", "bad", (F, """                        failed_count += 1

                if provenance_writer is not None:
                    provenance_writer.write_quantum_provenance(""", """                        failed_count += 1

                if provenance_writer is not None and task_metadata is not None:
                    provenance_writer.write_quantum_provenance(""")),
    ("blocked provenance missing", "bad", (F, """                        if provenance_writer is not None:
                            provenance_writer.write_blocked_quantum_provenance(downstream_quantum_id)
""", "")),
    ("err not raised", "bad", (F, "        if err is not None:\n            raise err", "        if err is not None and not self._report.quantaReports:\n            raise err")),
    ("fail-fast leaves processes", "bad", (F, "                                if stop_job is not job:\n                                    stop_job.stop()", "                                if stop_job is job:\n                                    stop_job.stop()\n                                break")),
    ("can multiprocess only first", "bad", (F, "            if not job.task_node.task_class.canMultiprocess:", "            if job.quantum_id in jobs.pending and not job.task_node.task_class.canMultiprocess:")),
    ("report without id", "bad", (F, "                        quantumId=downstream_job.quantum_id,\n                        status", "                        status")),
    ("timeout status lost", "bad", (F, "        if self.terminated:\n            # Means", "        if self.terminated and report.exceptionInfo is not None:\n            # Means")),
    ("pending from all", "bad", (F, "self.pending = set(next(self.walker, ()))", "self.pending = set(xgraph)")),
    ("not dequeued", "bad", (F, "quantum_id = self.pending.pop()", "quantum_id = next(iter(self.pending))")),
    ("only FAILURE raises", "bad", (F, "        if jobs.failed:\n            # print", "        if jobs.failed - jobs.timed_out:\n            # print")),
    ("fail_fast not honoured", "bad", (F, "                    if self._fail_fast:\n                        raise MPGraphExecutorError(\n", "                    if self._fail_fast and not isinstance(exc, RepeatableQuantumError):\n                        raise MPGraphExecutorError(\n")),
    ("from_exception success", "bad", ("quantum_reports.py", "            status=ExecutionStatus.FAILURE,\n            dataId=dataId,\n            taskLabel=taskLabel,\n            exitCode=exitCode,\n            exceptionInfo", "            dataId=dataId,\n            taskLabel=taskLabel,\n            exitCode=exitCode,\n            exceptionInfo")),
    ("from_exit_code signals", "bad", ("quantum_reports.py", "ExecutionStatus.SUCCESS if exitCode == 0 else", "ExecutionStatus.SUCCESS if exitCode <= 0 else")),
    # refactorings
    ("ok: helper for failure report", "ok", [(F, """                    quantum_report = QuantumReport.from_exception(
                        quantumId=quantum_id,
                        exception=exc,
                        dataId=data_id,
                        taskLabel=task_node.label,
                    )
                    report.quantaReports.append(quantum_report)

                    if self._pdb""", """                    self._note_failure(report, quantum_id, exc, data_id, task_node)

                    if self._pdb"""), (F, """    def _execute_quanta_mp(""", """    def _note_failure(self, rep, qid, error, data_id, node):
        rep.quantaReports.append(
            QuantumReport.from_exception(
                error, data_id, node.label, quantumId=qid
            )
        )

    def _execute_quanta_mp(""")]),
    ("ok: boolean failure flag", "ok", [(F, "        if failed_count:\n            raise MPG", "        if any_failed:\n            raise MPG"),
        (F, "                    failed_count += 1\n\n                    # If exc", "                    failed_count += 1\n                    any_failed = True\n\n                    # If exc"),
        (F, "        walker = GraphWalker[uuid.UUID](xgraph.copy())\n        for unbl", "        any_failed = False\n        walker = GraphWalker[uuid.UUID](xgraph.copy())\n        for unbl")]),
    ("ok: exit code inverted", "ok", [(F, """                    if exitcode == 0:
                        jobs.setJobState(job, JobState.FINISHED)
                        job.cleanup()
                        _LOG.debug("success: %s took %.3f seconds", job, time.time() - job.started)
                    else:
""", """                    succeeded = exitcode == 0
                    if succeeded:
                        jobs.setJobState(job, JobState.FINISHED)
                        job.cleanup()
                        _LOG.debug("success: %s took %.3f seconds", job, time.time() - job.started)
                    if not succeeded:
""")]),
    ("ok: available slots", "ok", (F, "            while len(jobs.running) < self._num_proc and jobs.pending:", "            while jobs.pending and self._num_proc > len(jobs.running):")),
    ("ok: if/break bound", "ok", (F, "            while len(jobs.running) < self._num_proc and jobs.pending:\n", "            while jobs.pending:\n                if len(jobs.running) >= self._num_proc:\n                    break\n")),
    ("ok: any() for canMultiprocess", "ok", (F, """        for job in jobs.jobs.values():
            if not job.task_node.task_class.canMultiprocess:
                raise MPGraphExecutorError(
                    f"Task {job.task_node.label!r} does not support multiprocessing; use single process"
                )
""", """        if any(not job.task_node.task_class.canMultiprocess for job in jobs.jobs.values()):
            raise MPGraphExecutorError("no multiprocessing; use single process")
""")),
    ("ok: setJobState if-chain", "ok", (F, """        match job.state:
            case JobState.FINISHED:
                self.finished.add(quantum_id)
                self.walker.finish(quantum_id)
                self.pending.update(next(self.walker, ()))
                return []
            case JobState.FAILED:
                self.failed.add(quantum_id)
            case JobState.TIMED_OUT:
                self.failed.add(quantum_id)
                self.timed_out.add(quantum_id)
            case _:
                raise ValueError(f"Unexpected state value: {state}")
""", """        if state is JobState.FINISHED:
            self.finished.add(quantum_id)
            self.walker.finish(quantum_id)
            self.pending.update(next(self.walker, ()))
            return []
        if state not in (JobState.FAILED, JobState.TIMED_OUT):
            raise ValueError(f"Unexpected state value: {state}")
        self.failed.add(quantum_id)
        if state is JobState.TIMED_OUT:
            self.timed_out.add(quantum_id)
""")),
    ("ok: else clause for finish", "ok", [(F, """                        task_metadata = execution_result.task_metadata
                        success_count += 1
                        walker.finish(quantum_id)
""", """                        task_metadata = execution_result.task_metadata
"""), (F, """                        _LOG.fatal(exc, exc_info=True)
                        fail_exit_code = exc.EXIT_CODE
                        raise
                except Exception as exc:""", """                        _LOG.fatal(exc, exc_info=True)
                        fail_exit_code = exc.EXIT_CODE
                        raise
                    else:
                        success_count += 1
                        walker.finish(quantum_id)
                except Exception as exc:""")]),
    ("ok: no err variable", "ok", (F, "        if err is not None:\n            raise err", "        if err is None:\n            return\n        raise err")),
    ("ok: extracted stop helper", "ok", [(F, """                            for stop_quantum_id in jobs.running:
                                stop_job = jobs.jobs[stop_quantum_id]
                                if stop_job is not job:
                                    stop_job.stop()
""", """                            jobs.stop_others(job)
"""), (F, """    def cleanup(self) -> None:
        \"\"\"Do periodic cleanup""", """    def stop_others(self, job):
        for stop_quantum_id in self.running:
            stop_job = self.jobs[stop_quantum_id]
            if stop_job is job:
                continue
            stop_job.stop()

    def cleanup(self) -> None:
        \"\"\"Do periodic cleanup""")]),
    ("ok: elapsed variable", "ok", (F, "                    now = time.time()\n                    if now - job.started > self._timeout:", "                    elapsed = time.time() - job.started\n                    if self._timeout < elapsed:")),
    ("ok: blocked loop inside else", "ok", (F, "                for downstream_job in blocked:\n", "                if not blocked:\n                    continue\n                for downstream_job in blocked:\n")),
    ("ok: child finally split", "ok", (F, """            if report is not None:
                # If sending fails we do not want this new exception to be
                # exposed.
                try:""", """            if report:
                try:""")),
    ("ok: report list comp", "ok", (F, """                for downstream_job in blocked:
                    quantum_report = QuantumReport(
                        quantumId=downstream_job.quantum_id,
                        status=ExecutionStatus.SKIPPED,
                        dataId=cast(DataCoordinate, downstream_job.quantum.dataId),
                        taskLabel=downstream_job.task_node.label,
                    )
                    report.quantaReports.append(quantum_report)
                    _LOG""", """                report.quantaReports.extend(
                    QuantumReport(
                        quantumId=downstream_job.quantum_id,
                        status=ExecutionStatus.SKIPPED,
                        dataId=cast(DataCoordinate, downstream_job.quantum.dataId),
                        taskLabel=downstream_job.task_node.label,
                    )
                    for downstream_job in blocked
                )
                for downstream_job in blocked:
                    _LOG""")),
]
