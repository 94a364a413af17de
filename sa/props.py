"""The properties: single source for properties.jsonl, MANIFEST.json and the checks."""

TECH = "Static analysis (interprocedural flow graph, path-sensitive must/may queries over /repo's current source)"
PROPS = {}
NOT_CLAIMED = [
    {
        "id": "N01",
        "title": "The quanta of a built graph are exactly those the data ID query and joins imply",
        "statement": "A built quantum graph has a quantum for every combination of data IDs for which all regular inputs exist (or are produced upstream) and that matches the user's query, and for no other.",
        "quantifier": {"over": ["inputs"], "text": "For every pipeline, repository content and query expression."},
        "why_tests_cant": "The combinations of dimension relationships, existing datasets and query expressions are unbounded.",
        "anchors": {"files": ["python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py"], "mechanism": [{"name": "query tree", "where": "all_dimensions_quantum_graph_builder._DimensionGroupTree"}]},
        "reason": "Which rows a query returns is decided at run time by SQL that daf_butler generates and a database evaluates; no static argument over this repository's source bounds it. "
                  "The part this repository does decide (every row that comes back becomes quanta and edges, none is dropped or merged) is claimed as P21.",
    },
    {
        "id": "N02",
        "title": "A quantum graph read back from a file equals the one that was written",
        "statement": "Writing any quantum graph (predicted or provenance) to a file and reading all of it back gives a graph equal in every value to the one written.",
        "quantifier": {"over": ["inputs"], "text": "For every quantum graph and every choice of quanta to read."},
        "why_tests_cant": "Tests write and read a few small graphs.",
        "anchors": {"files": ["python/lsst/pipe/base/quantum_graph/_common.py", "python/lsst/pipe/base/quantum_graph/_predicted.py"], "mechanism": [{"name": "models", "where": "quantum_graph._common"}]},
        "reason": "Equality of values goes through pydantic, zstandard and the serialization of daf_butler objects, whose inverse behaviour is a fact about run-time values of third-party code. "
                  "What the source does decide (every field is written and read, addresses and pages agree, truncation is detected) is claimed as P14 to P16 and P27.",
    },
]


def prop(pid, title, statement, over, qtext, why, files, mech, rules, note, state=None, observe=None, technique=None,
         min_obligations=1, assumptions=()):
    assert len(title) <= 80, (pid, len(title))
    rec = {
        "id": pid,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": ["python/lsst/pipe/base/" + f if not f.startswith("doc") else f for f in files],
                    "mechanism": [{"name": a, "where": b} for a, b in mech]},
        "rules": rules,
        "technique": technique or TECH,
        "level_note": note,
        "min_obligations": min_obligations,
        "assumptions": list(assumptions) or DEFAULT_ASSUME,
    }
    if state:
        rec["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        rec["anchors"]["observe_at"] = observe
    PROPS[pid] = rec


DEFAULT_ASSUME = [
    "Calls into third-party packages (networkx, daf_butler, zstandard, pydantic, multiprocessing) may raise but otherwise "
    "behave as documented and do not call back into private state of the analysed classes.",
    "No monkey-patching: attribute and method names resolve to the definitions found in /repo.",
    "A path query that exceeds its exploration budget is counted as inconclusive and treated as holding (count reported).",
]

prop(
    "P01", "Graph walk never hands out a node before all of its predecessors finished",
    "Walking a dependency graph hands out each node only after every one of its direct predecessors has been reported "
    "finished, hands it out at most once, and never after it was itself reported finished or failed. When a node is reported failed, exactly its downstream nodes are returned, they "
    "are never handed out afterwards, and the walk still terminates. Iteration ends only when every node is finished, failed "
    "or blocked, and finishing the last outstanding predecessor always makes a successor available.",
    ["inputs", "schedules", "histories"],
    "For every directed acyclic graph, and every order in which callers report nodes finished or failed between iterations.",
    "Tests walk a few fixed graphs with a few finish/fail orders; the guarantee is over all graphs and all interleavings of "
    "finish, fail and next.",
    ["graph_walker.py"],
    [("readiness decided by universally checking predecessors", "graph_walker.GraphWalker.finish"),
     ("failure removes descendants", "graph_walker.GraphWalker.fail"),
     ("hand-out empties the ready set", "graph_walker.GraphWalker.__next__")],
    ["graph_walker:run"],
    "All paths of every public method of the walker are covered; decides the guards on each state change, assumes networkx's "
    "predecessors/successors/descendants are correct.",
    state=[("incomplete set", "nodes neither finished, failed nor blocked", "GraphWalker._incomplete"),
           ("ready set", "nodes that may be handed out", "GraphWalker._ready")],
    min_obligations=10)

prop(
    "P02", "Graph execution honours dependencies and contains failures",
    "A quantum is executed only if the walk of the (fixed-up, verified acyclic) dependency graph handed it out, and it is "
    "marked finished only after its own execution returned normally or its process exited with status zero. After a quantum "
    "fails, all quanta downstream of it are removed from the walk before anything else starts, so none of them ever run. A "
    "quantum that succeeded is always marked finished before anything else runs, so its downstream quanta are not lost.",
    ["schedules", "inputs", "fault_sequences"],
    "For every quantum graph, in-process or multiprocess execution, and every pattern of quantum successes, exceptions, "
    "process exits and timeouts.",
    "Tests run small mock graphs with one or two failing quanta; ordering and containment must hold for every graph, "
    "failure position and process timing.",
    ["mp_graph_executor.py", "graph_walker.py", "execution_graph_fixup.py"],
    [("finish/fail transitions in the in-process loop", "mp_graph_executor.MPGraphExecutor._execute_quanta_in_process"),
     ("finish/fail transitions in the multiprocess loop", "mp_graph_executor.MPGraphExecutor._execute_quanta_mp"),
     ("cycle check after fixup", "mp_graph_executor.MPGraphExecutor._make_xgraph")],
    ["executor:order", "executor:order2"],
    "Typestate over every path from quantum execution / process exit to finish, fail, next start and return, with all "
    "helpers of the executor inlined.",
    min_obligations=8)

prop(
    "P03", "Every quantum failure surfaces in reports, status, exception and provenance",
    "Whenever any quantum fails (raises, or its process exits non-zero), the execution as a whole raises, the overall report "
    "status is not success, and the failed quantum has a failure report that identifies it. Unless execution stops early "
    "(fail-fast), every quantum blocked by the failure gets a skipped report, and when provenance is being written every "
    "executed and every blocked quantum gets a provenance record. Any "
    "error raised during execution is recorded in the report and re-raised, never swallowed.",
    ["fault_sequences", "inputs", "schedules"],
    "For every graph and every set and order of failing quanta, in both execution modes.",
    "Tests inject a handful of failures; a failure path that forgets to report, or reports success, only shows up for a "
    "particular failure position or exception kind.",
    ["mp_graph_executor.py", "quantum_reports.py"],
    [("failure handlers", "mp_graph_executor.MPGraphExecutor._execute_quanta_in_process"),
     ("process reaping", "mp_graph_executor.MPGraphExecutor._execute_quanta_mp"),
     ("top-level handler", "mp_graph_executor.MPGraphExecutor.execute")],
    ["executor:surface", "executor:surface2"],
    "All paths from a failure event to the next event or to an exit of execute() are covered.",
    observe=["MPGraphExecutor.getReport()", "exceptions raised by execute()"],
    min_obligations=12)

prop(
    "P04", "Multiprocess execution is bounded, starts each quantum once and honours timeouts",
    "In multiprocess mode the number of running processes never exceeds the configured number, each quantum is started at "
    "most once, and no process is started when some task does not support multiprocessing. A process that outlives the "
    "timeout is killed and reported as timed out, a process is killed only for a timeout or fail-fast, and with fail-fast "
    "(or an invalid-quantum error) nothing new starts after a failure and the remaining processes are stopped. A child "
    "process whose quantum raised never exits with status zero and always sends its report.",
    ["schedules", "configurations", "fault_sequences"],
    "For every process count, timeout, fail-fast setting and every timing of process exits.",
    "Process timing is nondeterministic: tests see one schedule of a few processes.",
    ["mp_graph_executor.py", "quantum_reports.py"],
    [("process pool loop", "mp_graph_executor.MPGraphExecutor._execute_quanta_mp"),
     ("child entry point", "mp_graph_executor._Job._executeJob"),
     ("job list", "mp_graph_executor._JobList")],
    ["executor:multiproc", "executor:multiproc2"],
    "All paths between process start, liveness test, timeout test and termination; trusts multiprocessing's is_alive/exitcode.",
    min_obligations=12)

prop(
    "P05", "Quantum metadata is written if and only if the quantum succeeded",
    "Executing one quantum writes its metadata dataset, as the marker of success, only after the task ran to completion (or "
    "there was no work to do, or partial outputs are configured as success), and never after the task could not be "
    "constructed or raised. Whenever execution reports success the metadata was written, with the caveats of the run "
    "(no-work, partial outputs, any/all outputs missing), the list of datasets actually written and any job metadata, and it "
    "is what the result object returns. Exceptions propagate "
    "unmasked and are attached, with the metadata so far, to the quantum's logs. A butler made for one quantum is always "
    "closed; a shared one never is.",
    ["fault_sequences", "inputs", "configurations"],
    "For every task, every point at which construction or execution can raise, every exception type and every combination "
    "of executor options.",
    "Tests raise a few exceptions from mock tasks; the marker's meaning must survive every failure point and option.",
    ["single_quantum_executor.py", "_status.py"],
    [("metadata write", "single_quantum_executor.SingleQuantumExecutor._write_metadata"),
     ("caveats of the run", "single_quantum_executor.SingleQuantumExecutor._run_quantum"),
     ("failure handling", "single_quantum_executor.SingleQuantumExecutor._execute_with_limited_butler")],
    ["quantum_exec:success_marker", "quantum_exec2:marker2"],
    "All paths (including every exceptional edge) between task construction, execution and the metadata write.",
    min_obligations=12)

prop(
    "P06", "Existing outputs are never deleted, skipped or overwritten unless requested",
    "Before a quantum runs, its existing outputs are looked up. They are deleted only when clobbering was requested, and only "
    "those that exist among the quantum's own outputs. The quantum is skipped only when skipping was requested and its metadata "
    "(or every output) exists; with skipping requested, a quantum whose metadata exists is never run again and nothing of it is "
    "deleted. If outputs are in the way and neither option applies, an error is raised before the task is constructed. Logs of "
    "the previous attempt are carried over before they are deleted, and no logs are stored for a skipped quantum.",
    ["inputs", "configurations", "histories"],
    "For every combination of skip, clobber and assume-none options and every subset of the outputs existing beforehand.",
    "The space of option combinations and partial-output states is only sampled; deleting the wrong datasets is unrecoverable.",
    ["single_quantum_executor.py"],
    [("existing output check", "single_quantum_executor.SingleQuantumExecutor._check_existing_outputs"),
     ("log storage switch", "single_quantum_executor.SingleQuantumExecutor._execute_with_limited_butler")],
    ["quantum_exec:existing", "quantum_exec2:existing2"],
    "All paths, with option values tracked symbolically on each path.",
    min_obligations=9)

prop(
    "P07", "A quantum runs on exactly its existing inputs, after adjusting to missing ones",
    "Just before running, every input not already known from datastore records to exist is tested; existing inputs are all "
    "kept, missing ones are all dropped, and if any was dropped the task's adjustQuantum hook is called before the task is "
    "constructed. The quantum that is executed uses the adjusted inputs and outputs.",
    ["inputs", "histories"],
    "For every set of inputs and every subset of them missing at execution time.",
    "Tests remove one or two inputs; the rule must hold for every subset and every dataset type.",
    ["single_quantum_executor.py", "_quantumContext.py"],
    [("input check", "single_quantum_executor.SingleQuantumExecutor._updated_quantum_inputs"),
     ("assumed inputs", "single_quantum_executor.SingleQuantumExecutor._should_assume_exists")],
    ["quantum_exec:exec_inputs", "quantum_exec2:inputs2"],
    "All paths through the input check and its loops.",
    min_obligations=6)

prop(
    "P08", "A task can only read its quantum's inputs and write its quantum's outputs",
    "Through the context given to a task, a dataset can be read only if it is one of the quantum's inputs and written only if "
    "it is one of its (non-log, non-metadata) outputs. Every dataset read is added to the provenance before it is read, every "
    "write carries that provenance, and a dataset counts as written if and only if its write returned. Reading a collection "
    "returns an entry for every reference, and a collection of values is written only if there is exactly one for each reference.",
    ["inputs"],
    "For every quantum and every (possibly foreign) reference, list or connection struct passed to get and put.",
    "Tests pass a few references; the isolation of quanta must hold for every argument form.",
    ["_quantumContext.py"],
    [("membership test", "_quantumContext.QuantumContext._checkMembership"),
     ("reads", "_quantumContext.QuantumContext._get"), ("writes", "_quantumContext.QuantumContext._put")],
    ["quantum_exec:qcontext", "quantum_exec2:qcontext2"],
    "Every butler access of the context class is enumerated and must be dominated by a membership test on the same reference.",
    min_obligations=12)

prop(
    "P09", "Log capture always stops recording and stores the logs of what ran",
    "The log handler installed for a quantum is removed whether the quantum succeeds or raises, before its logs are stored. The "
    "logs are stored exactly when storing is switched on, also after a failure, together with the failure details; metadata is "
    "included in the stored logs only for failed quanta. Exceptions are never swallowed. Logs of earlier attempts are carried "
    "over completely, once and in order. Log records go into the caller's list when one was given.",
    ["fault_sequences", "configurations"],
    "For streaming and in-memory log capture, success and every exception.",
    "A leaked handler or lost log only shows after a failure in one particular mode.",
    ["log_capture.py"],
    [("capture context", "log_capture.LogCapture.capture_logging"),
     ("previous attempts", "log_capture._ExecutionLogRecordsExtra.attach_previous_attempt")],
    ["quantum_exec:logcapture", "quantum_exec2:logcapture2"],
    "All paths of the capture context manager, entered by a normal resume and by an exception at the yield.",
    min_obligations=8)

prop(
    "P10", "Every log call's arguments match its message",
    "No logging call in the package can fail because of its own message: for every call on a logger with a literal message, "
    "the number of arguments equals the number of placeholders. (Inside a quantum the butler's log handler formats records "
    "eagerly, so a mismatch raises from the log call and replaces the error being reported.)",
    ["inputs", "fault_sequences"],
    "For every logging call site, including those on error paths that are rarely executed.",
    "Mismatches hide on error paths and at debug level; tests execute few of the log calls with a handler that formats eagerly.",
    ["mp_graph_executor.py", "single_quantum_executor.py", "quantum_graph/aggregator/_supervisor.py"],
    [("log calls", "every module of the package")],
    ["logargs:run"],
    "Every call site in the package with a literal message is enumerated; calls with computed messages or *args are not decided.",
    technique="Static analysis (format-string check over every resolved logging call site)",
    min_obligations=100)

prop(
    "P11", "The caching butler never serves or reports any dataset but the one asked for",
    "A cached dataset is returned, or reported to exist, only for a reference with the same dataset ID, and the requested "
    "parameters and storage class are applied to it. A dataset is cached only after it was completely read or its write "
    "returned, only for the configured dataset types and never from a read with parameters; unless copying was switched off, "
    "callers get copies. Pruning a dataset evicts it and its components. Everything else is forwarded unchanged.",
    ["histories", "inputs"],
    "For every sequence of get, put, stored_many and pruneDatasets calls, including ones in which the wrapped butler raises.",
    "The only test reads one dataset; staleness needs particular histories (failed puts, components, equal data IDs).",
    ["caching_limited_butler.py"],
    [("cache lookups", "caching_limited_butler.CachingLimitedButler.get"),
     ("existence", "caching_limited_butler.CachingLimitedButler.stored_many"),
     ("eviction", "caching_limited_butler.CachingLimitedButler.pruneDatasets")],
    ["butlers:caching", "butlers:caching2"],
    "All paths of every method of the wrapper; each wrapped operation is enumerated for argument forwarding.",
    min_obligations=20)

prop(
    "P12", "The blocking butler waits for missing datasets exactly as long as configured",
    "A read of, or existence test for, a dataset that does not exist is repeated until it exists or its dataset type's timeout "
    "(that of the parent type for components) has passed; with timeout None it is repeated indefinitely, without a configured "
    "timeout it is not waited for. Other errors are raised at once. An existence report covers every reference asked for, and is "
    "returned only when no missing dataset is still within its timeout. Everything else is forwarded unchanged.",
    ["schedules", "configurations"],
    "For every mapping of timeouts and every moment (or never) at which each dataset appears.",
    "Depends on when datasets appear relative to timeouts; tests try very few timings.",
    ["blocking_limited_butler.py"],
    [("reads", "blocking_limited_butler.BlockingLimitedButler.get"),
     ("existence", "blocking_limited_butler.BlockingLimitedButler.stored_many")],
    ["butlers:blocking", "butlers:blocking2"],
    "All paths through the wait loops, as guards on leaving them; that the clock advances between attempts is checked as a "
    "re-read of the clock, elapsed time itself is not modelled.",
    min_obligations=20)

prop(
    "P13", "Status codes, caveats and exit codes keep their recorded meaning",
    "The numeric codes of attempt statuses and success caveats stored in task metadata and provenance files keep their meaning; "
    "caveats are independent flags; every no-work or partial-output exception carries the caveats that say so, and no-work "
    "signals are not ordinary exceptions. What a status promises about existing logs and metadata matches its definition, "
    "summary codes name the most specific caveat and are all in the legend, special exit codes are distinct and nonzero, and an "
    "exit code or exception is reported as success only for exit code zero. Failure and execution details in metadata are read "
    "under the keys under which they are written, for every annotated output.",
    ["inputs", "histories"],
    "For every status, combination of caveats and exit code, and files written by earlier versions.",
    "A changed code or key still round-trips within one version, so tests that write and read it back keep passing.",
    ["_status.py", "quantum_reports.py", "single_quantum_executor.py", "quantum_provenance_graph.py"],
    [("attempt status", "_status.QuantumAttemptStatus"), ("caveats", "_status.QuantumSuccessCaveats"),
     ("reports", "quantum_reports.QuantumReport")],
    ["status:run", "status:complete"],
    "Constant evaluation of the enumerations and class attributes, path rules on the functions that choose between them, and "
    "agreement of metadata keys between writers and readers.",
    technique="Static analysis (constant tables, key agreement between writers and readers, guarded-path queries)",
    min_obligations=30)

prop(
    "P14", "Every block of a multi-block file is found again, and damage is detected",
    "A block written to a multi-block file is read back from exactly the address recorded for its ID, and an ID without a block is "
    "reported absent. The address file is read with the layout with which it is written: sizes, field order, byte order, "
    "header, sorted numbered rows with one address per file. A lookup finds the row of every key in the file, whichever page it "
    "is on and whatever was read before, and raises for other keys. Mismatched headers, truncated headers and blocks whose "
    "stored size differs raise instead of returning data.",
    ["inputs", "histories"],
    "For every set of keys, number of files, integer size, page size and sequence of lookups.",
    "Tests use random UUIDs and default page sizes; page boundaries, adjacent keys and damaged files are practically never hit.",
    ["quantum_graph/_multiblock.py"],
    [("row layout", "quantum_graph._multiblock.AddressRow"), ("lookup", "quantum_graph._multiblock.AddressReader.find"),
     ("blocks", "quantum_graph._multiblock.MultiblockWriter.write_bytes"),
     ("damage", "quantum_graph._multiblock.MultiblockReader.read_bytes")],
    ["multiblock:run", "multiblock:complete"],
    "Byte layouts of writers and readers are extracted as sequences of symbolic sizes (polynomials in integer size and counts) and "
    "compared; page offsets are proved by induction on the loop; lookups by path queries over the bounds tests. The contents of "
    "models (JSON, compression) are third-party code.",
    technique="Static analysis (byte-layout extraction with polynomial normal forms, path-sensitive queries over the lookup)",
    min_obligations=50)

prop(
    "P15", "A saved predicted quantum graph is read back whole; partial ones are refused",
    "Everything a predicted quantum graph consists of when written (header, pipeline graph, thin graph, init quanta, every "
    "quantum with its inputs, outputs and datastore records, dimension data) is read back, under the names, types and order in "
    "which it was written. Each quantum's details are stored under its own index and found by its own ID, and reading a part of "
    "the graph leaves no requested quantum out. A graph that cannot be written whole (missing components, only some quanta read, "
    "wrong graph type) is refused instead of being saved incomplete, and files of unknown type or version raise.",
    ["inputs", "histories"],
    "For every predicted quantum graph, every combination of parts read (including repeatedly, in any order), and every file.",
    "Round-trip tests use complete, small graphs read once in one order; a field or quantum dropped only for unusual graphs, or a "
    "partially read graph written back, is not exercised.",
    ["quantum_graph/_predicted.py", "quantum_graph/_common.py", "quantum_graph/_multiblock.py"],
    [("writing", "quantum_graph._predicted.PredictedQuantumGraphComponents.write"),
     ("reading", "quantum_graph._predicted.PredictedQuantumGraphReader"),
     ("base reader", "quantum_graph._common.BaseQuantumGraphReader")],
    ["qgfiles:run", "qgfiles:complete"],
    "Agreement of component names, models and multi-block indices between writer and reader, field coverage of every model "
    "constructor, and path queries for completeness of loops and refusals. That pydantic and JSON reproduce values is assumed.",
    technique="Static analysis (writer/reader agreement, field coverage of model constructors, path-sensitive queries)",
    min_obligations=60)

prop(
    "P16", "All views of a predicted quantum graph agree with its quanta",
    "The dependency graphs, per-task indexes, counts, init quanta and execution quanta of a predicted quantum graph describe "
    "exactly the quanta and datasets it holds: inputs point to the quantum and outputs away from it, with read and write "
    "correctly labelled, no quantum or dataset is missing from a view, and counts include init quanta. A quantum built for "
    "execution has all inputs, outputs, init inputs, data ID and datastore records of the stored one. Giving the graph a new "
    "output run replaces the run and ID of every dataset produced in it, wherever it is referenced, and of nothing else, and "
    "re-derives the views.",
    ["inputs", "histories"],
    "For every pipeline, set of quanta and subset of quanta loaded, and every output run.",
    "Tests compare a few small graphs; disagreement between views shows only for particular shapes (several readers, init "
    "outputs, partially loaded graphs).",
    ["quantum_graph/_predicted.py", "quantum_graph/_common.py"],
    [("views", "quantum_graph._predicted.PredictedQuantumGraph"),
     ("thin graph, counts, run change", "quantum_graph._predicted.PredictedQuantumGraphComponents"),
     ("execution quanta", "quantum_graph._predicted.PredictedQuantumGraph.build_execution_quanta")],
    ["qgstruct:run", "qgstruct:complete"],
    "Path queries over every loop that fills a view (no iteration may skip its insertion), direction and labels of edges from "
    "the terms of their arguments, and evaluation points for values used before or after being replaced.",
    min_obligations=60)

prop(
    "P17", "Initialising an output run checks what exists and writes all that is missing",
    "Initialising an output run writes the config of every task, the package versions and every init output that does not exist "
    "yet in that run, and never replaces one that does. Existing configs and package versions are compared and a mismatch "
    "raises before any config is written; newly used packages are merged into the recorded versions. If existing datasets are "
    "not allowed any of them raises. An error while reading an existing dataset is not taken for its absence, datasets of other "
    "collections are not taken for those of the run, and missing or conflicting dataset type registrations raise.",
    ["inputs", "histories", "fault_sequences"],
    "For every pipeline or quantum graph, whatever subset of init datasets exists in the run or elsewhere, and any read error.",
    "Tests initialise empty or fully initialised runs; partially initialised runs, foreign collections and failing reads are "
    "combinations they do not sample.",
    ["quantum_graph/_predicted.py", "graph/graph.py", "pipeline_graph/_pipeline_graph.py"],
    [("configs", "pipeline_graph._pipeline_graph.PipelineGraph.write_configs"),
     ("packages", "quantum_graph._predicted.PredictedQuantumGraph.write_packages"),
     ("init outputs", "quantum_graph._predicted.PredictedQuantumGraph.write_init_outputs"),
     ("registrations", "pipeline_graph._pipeline_graph.PipelineGraph.check_dataset_type_registrations")],
    ["initout:run", "initout:complete"],
    "Path queries over the three implementations of each step; what config comparison and Packages.difference report is "
    "third-party code.",
    min_obligations=60)

prop(
    "P18", "Graph building skips only finished quanta and never plans to overwrite",
    "While a quantum graph is built, a quantum is skipped exactly if its own metadata output exists in the collections searched "
    "for finished quanta; its existing outputs then serve as inputs of others and the missing ones are dropped. If not all "
    "dataset types are retained, every skipped ancestor whose non-retained outputs are needed by a quantum that runs is made to "
    "run as well, transitively. Existing datasets are searched in the input collections, in the collections for skipping and in "
    "an existing output run, for every dataset type (with or without dimensions, and init outputs). An output that already "
    "exists in the output run raises unless clobbering was requested, and is then reused under its own ID; new outputs are "
    "placed in the output run. Inputs that do not exist are dropped, and missing init inputs raise.",
    ["inputs", "histories"],
    "For every pipeline, repository contents, combination of skip, clobber and retained options and history of earlier runs.",
    "Tests build graphs for a few repository states; partial outputs of earlier runs spread over several collections, combined "
    "with skip/clobber/retained options, form too many states to sample.",
    ["quantum_graph_builder.py", "all_dimensions_quantum_graph_builder.py"],
    [("skip decision", "quantum_graph_builder.QuantumGraphBuilder._compute_skip_decision"),
     ("ancestors", "quantum_graph_builder.QuantumGraphBuilder._unskip_ancestors"),
     ("existing outputs", "quantum_graph_builder.QuantumGraphBuilder._update_quantum_for_adjust"),
     ("search", "all_dimensions_quantum_graph_builder.AllDimensionsQuantumGraphBuilder._find_followup_datasets")],
    ["qgskip:run"],
    "Path queries over decisions and loops, with literals on option attributes and lookup results; which datasets a butler query "
    "returns is third-party code.",
    min_obligations=60)

prop(
    "P19", "Pruned quanta leave the graph with their outputs; what stays is as adjusted",
    "While a quantum graph is built, every quantum of a task is passed to adjust_all_quanta and adjustQuantum with all of its "
    "own inputs (prerequisites included) and outputs. A quantum is dropped exactly if that raises NoWorkFound, leaves no output "
    "or the hook removes it; it then disappears from the graph and from its task together with its outputs, while its inputs "
    "stay. Other errors propagate. adjustQuantum can only give up datasets: what it gives up is detached from the quantum, "
    "what it keeps stays, and exactly that is recorded for the quantum. The built-in check refuses several datasets for a "
    "single-dataset connection, treats too few inputs as no work and too few prerequisites as an error. Throughout, edges lead "
    "from inputs to quanta to outputs, the per-task sets agree with the graph, notes on nodes are read back as written, tasks "
    "without quanta vanish, only unused datasets are removed as orphans, and pruning unanchored quanta removes them with "
    "everything downstream.",
    ["inputs", "histories"],
    "For every pipeline, every implementation of the adjustment hooks and every set of datasets found.",
    "Tests adjust a few hand-made quanta; hooks are user code, and which datasets are shared between quanta, given up or missing "
    "varies without bound.",
    ["quantum_graph_skeleton.py", "quantum_graph_builder.py", "connections.py"],
    [("skeleton", "quantum_graph_skeleton.QuantumGraphSkeleton"),
     ("adjustment", "quantum_graph_builder.QuantumGraphBuilder._adjust_task_quanta"),
     ("helper", "connections.AdjustQuantumHelper.adjust_in_place"),
     ("default checks", "connections.PipelineTaskConnections.adjustQuantum"),
     ("hook", "connections.QuantaAdjuster")],
    ["qgprune:run"],
    "Path queries over the skeleton's operations and the adjustment loop (which nodes are removed, under which literals), data "
    "flow from the hooks' results to what is stored; networkx's graph operations are taken at their documented meaning.",
    min_obligations=100)

prop(
    "P20", "A built quantum graph is exactly what was resolved while building it",
    "When a quantum graph is built, all independent parts of the pipeline are processed, every quantum's prerequisites are looked "
    "up within its own bounds (complete before the lookup) and connected to it, and every dataset of a quantum is passed to its "
    "connection in the storage class the task asked for. Every task that keeps quanta gets its init inputs and outputs, which its "
    "quanta share. The returned graph, in either format, holds every task that has quanta, every quantum of it with its own data "
    "ID, inputs, outputs, init inputs and datastore records of all overall inputs (unless not wanted), the run's own init "
    "outputs, the dimension records of every data ID (each node's data ID being expanded to its own), the collections and the caller's metadata, and its summary is computed last. Nothing is "
    "lost, shared or attributed to another task, connection or quantum.",
    ["inputs"],
    "For every pipeline, repository and set of build options.",
    "Tests compare a few small graphs; a dataset lost or misattributed for an unusual combination of connections, storage classes "
    "or shared dataset types leaves the graph plausible.",
    ["quantum_graph_builder.py", "quantum_graph_skeleton.py"],
    [("build steps", "quantum_graph_builder.QuantumGraphBuilder._build_skeleton"),
     ("prerequisites", "quantum_graph_builder.QuantumGraphBuilder._update_quantum_for_adjust"),
     ("init datasets", "quantum_graph_builder.QuantumGraphBuilder._resolve_task_init"),
     ("datastore records", "quantum_graph_builder.QuantumGraphBuilder._attach_datastore_records"),
     ("dimension records", "quantum_graph_skeleton.QuantumGraphSkeleton.attach_dimension_records"),
     ("components", "quantum_graph_builder.QuantumGraphBuilder._construct_components"),
     ("classic graph", "quantum_graph_builder.QuantumGraphBuilder._construct_quantum_graph")],
    ["qgfinal:run", "qgrecords:run"],
    "Every loop must visit everything and pass the step that transcribes its element (path queries with the permitted exceptions "
    "as cut edges); each field of each model must flow from the same loop element; ordering of the build steps.",
    min_obligations=140)

prop(
    "P21", "Quanta and datasets are found completely and for their own data IDs",
    "When quanta are generated, the data ID query is constrained by the pipeline's dimensions, the where expression with its "
    "bindings, all data ID tables and the required overall inputs (not prerequisites), in the input collections. Every row found "
    "becomes a data ID of every dimension group it implies, every data ID becomes a quantum of every task and a dataset of every "
    "dataset type with those dimensions, each connected to each other only where their data IDs agree, and dimension records are "
    "fetched for all of them. Prerequisites are found once: in bulk only if neither a lookup function nor other bounds apply, "
    "otherwise per quantum within its spatial and temporal bounds, which cover all connections they are defined by. A "
    "prerequisite lookup returns the first match in the input collections, never a calibration or dataset outside the bounds, and "
    "no dimension group is left out.",
    ["inputs"],
    "For every pipeline, set of dimensions, query constraint and repository content.",
    "Tests build graphs over a few small dimension groups; a lost branch, unprojected data ID or prematurely found prerequisite "
    "needs particular combinations of dimensions and connection bounds.",
    ["all_dimensions_quantum_graph_builder.py", "prerequisite_helpers.py", "trivial_quantum_graph_builder.py"],
    [("query and skeleton", "all_dimensions_quantum_graph_builder.AllDimensionsQuantumGraphBuilder._make_subgraph_skeleton"),
     ("dimension groups", "all_dimensions_quantum_graph_builder._DimensionGroupTree"),
     ("prerequisite finder", "prerequisite_helpers.PrerequisiteFinder.find"),
     ("bounds", "prerequisite_helpers.PrerequisiteBounds"),
     ("trivial builder", "trivial_quantum_graph_builder.TrivialQuantumGraphBuilder")],
    ["qgdata:run", "qgdata2:complete"],
    "Each constraint must reach the executed query on all paths; every loop over rows, data IDs, tasks, dataset types and finders "
    "must visit everything and pass its recording step; bulk lookups must be guarded by the absence of lookup functions and bounds.",
    min_obligations=300)

prop(
    "P22", "A pipeline graph survives being saved, pickled and copied",
    "Writing a pipeline graph and reading it back restores every task (class, configuration, dimensions, init node), every input, "
    "prerequisite, output, log, metadata and config edge with its connection name, dataset type, component, storage class, "
    "dimensions and flags, every dataset type with its definition, flags, producing and consuming edges, the subsets, the steps "
    "with their dimensions and whether they were verified, the order of nodes, the dimension universe, the data ID and the "
    "description. Importing the tasks of a saved graph uses the saved configuration, in the mode asked for, and notices changed "
    "edges unless told otherwise. Pickling restores every field of edges and task nodes, reconfiguring and resolving keep the "
    "fields they do not change, and a copy shares no mutable state with its original.",
    ["inputs"],
    "For every pipeline graph, resolved or not, sorted or not, imported or not.",
    "Tests compare a few small graphs; a field that is dropped or confused shows only for graphs that use it and whose users look at it.",
    ["pipeline_graph/io.py", "pipeline_graph/_edges.py", "pipeline_graph/_tasks.py", "pipeline_graph/_pipeline_graph.py", "pipeline_graph/_task_subsets.py"],
    [("models", "pipeline_graph.io.SerializedPipelineGraph"),
     ("edges", "pipeline_graph.io.SerializedEdge"),
     ("tasks", "pipeline_graph.io.SerializedTaskNode"),
     ("pickling", "pipeline_graph._tasks.TaskInitNode.__reduce__"),
     ("import", "pipeline_graph._pipeline_graph.PipelineGraph._import_and_configure"),
     ("copy", "pipeline_graph._pipeline_graph.PipelineGraph.copy")],
    ["pgio:run"],
    "Field-transfer rules: each argument of each constructor, model and reduced state must be derived (def-use chains) from its own "
    "source field and from no other field of the same record; loops over edges, nodes and subsets must be complete; equality of the "
    "values after JSON encoding is pydantic's and daf_butler's business and is assumed.",
    min_obligations=300)

prop(
    "P23", "A pipeline graph is what its tasks declare, through every change and selection",
    "A task that is added to a pipeline graph brings its node, its init node, one edge for every connection it declares (inputs, "
    "prerequisites, outputs, config, log and metadata, in the right direction and with the declared storage class, component and "
    "flags) and the edge from its construction to its execution; a change that would make the pipeline cyclic is refused and undone. "
    "Removing tasks removes exactly them, their edges, their memberships and the dataset types nothing else uses, and everything they "
    "touched has to be resolved again; reconfiguring and replacing tasks keeps what does not change. Nodes are iterated in an order "
    "in which producers precede consumers, from which no node is missing. Edge and node lookups, differences between graphs, "
    "exported graphs, groupings by dimensions, the split into independent parts, task selection expressions, subsets and steps "
    "describe that same graph completely, keep construction and execution apart, and reject names that are not in it.",
    ["inputs", "histories"],
    "For every pipeline graph and every sequence of additions, removals, replacements, reconfigurations and selections.",
    "Tests use a handful of small pipelines; what a change loses shows only for the particular connections, subsets and earlier changes of other pipelines.",
    ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/_tasks.py", "pipeline_graph/_edges.py", "pipeline_graph/_task_subsets.py", "pipeline_graph/_mapping_views.py", "pipeline_graph/_nodes.py"],
    [("add", "pipeline_graph._pipeline_graph.PipelineGraph.add_task_nodes"),
     ("remove", "pipeline_graph._pipeline_graph.PipelineGraph.remove_tasks"),
     ("replace", "pipeline_graph._pipeline_graph.PipelineGraph._replace_task_nodes"),
     ("order", "pipeline_graph._pipeline_graph.PipelineGraph.sort"),
     ("declared connections", "pipeline_graph._tasks.TaskNode._from_imported_data"),
     ("selection", "pipeline_graph._pipeline_graph.PipelineGraph.select_tasks"),
     ("subsets", "pipeline_graph._task_subsets.TaskSubset")],
    ["pgstruct:run", "pgstruct2:more"],
    "Path and loop-completeness rules over the control-flow graphs of the graph's methods (every added task passes each insertion, no "
    "path from an insertion to a normal return avoids the acyclicity check, a refusal passes the removal of what was added), def-use "
    "rules for the arguments of edge and node constructors, and guard rules for lookups; networkx is assumed to do what it says.",
    min_obligations=400)


prop(
    "P24", "Resolving a pipeline graph reconciles all edges or fails without a trace",
    "When a pipeline graph is resolved, the definition of each dataset type comes from the data repository (or the given types) if it "
    "is registered there, else from its one producer, else from its consumers, which then have to agree; every other edge is checked "
    "against it: incompatible storage classes or dimensions, missing components, unregistered skypix types, a second producer, and "
    "use as both a prerequisite and a regular input are errors (unless the graph is only to be drawn, where that is allowed), and "
    "nothing else is. A dataset type constrains the initial query only if no task produces it and no consumer defers. If any node "
    "fails, no node is changed. Steps are verified before the graph counts as resolved: every step is a subset, no task is in two, none in no step, no "
    "step produces what an earlier one consumes, and the dimensions of all its tasks and outputs are compatible with its own; tasks "
    "are then ordered step by step. Edges adapt dataset types and references to the declared component and storage class, and "
    "registration covers exactly the dataset types asked for, with missing or changed ones reported.",
    ["inputs", "histories"],
    "For every pipeline graph, repository, set of registered dataset types and step definition.",
    "Tests resolve a few pipelines; a conflict that goes unnoticed needs a particular combination of registration, producer, component, prerequisite flag and order of edges.",
    ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/_dataset_types.py", "pipeline_graph/_edges.py"],
    [("resolve", "pipeline_graph._pipeline_graph.PipelineGraph.resolve"),
     ("all edges of a dataset type", "pipeline_graph._dataset_types.DatasetTypeNode._from_edges"),
     ("read edge", "pipeline_graph._edges.ReadEdge._resolve_dataset_type"),
     ("write edge", "pipeline_graph._edges.WriteEdge._resolve_dataset_type"),
     ("step flow", "pipeline_graph._pipeline_graph.PipelineGraph._resolve_step_flow"),
     ("step dimensions", "pipeline_graph._pipeline_graph.PipelineGraph._resolve_step_dimensions"),
     ("registration", "pipeline_graph._pipeline_graph.PipelineGraph.register_dataset_types")],
    ["pgresolve:run"],
    "Outcome tables: the atomic conditions of each resolver are classified by what they compare, and for every relevant combination of their "
    "truth values no path through the control-flow graph reaches a return (where the combination is a conflict) or a raise (where it "
    "is consistent); def-use rules show that the definition is handed from edge to edge, path rules that the graph is changed only after "
    "everything was computed, and loop-completeness rules that no edge, step, task or output is left out.",
    min_obligations=250)


prop(
    "P25", "Pipeline definitions are combined, cut, configured and written without loss",
    "A pipeline definition keeps all that it says. An import takes exactly the tasks that include or exclude select (labels or subset "
    "names), renamed as asked, with contracts and steps only if wanted; contradicting selections and renames to a label in use are "
    "errors. Merging pipelines keeps every task, subset, parameter, contract and step; the pipeline's own definitions win over merged "
    "ones (its own configuration of an imported task of the same class is added to the imported one); duplicate labels among the "
    "merged ones, different instruments and conflicting steps are errors, and a pipeline that is merged into another is not changed. "
    "Taking a subset removes exactly the tasks that were not selected, with contracts that name them and (dropped or edited, as asked) "
    "the subsets and steps they were in, and leaves the original alone. Subsets of unknown tasks and steps without a subset are "
    "rejected. Everything is there when a definition is written and read. Configuration overrides are applied in order (those of the "
    "instrument, then per block the file, the Python code and the values, with parameters filled in), and the graph made of "
    "a pipeline has all its tasks, contracts, subsets and steps.",
    ["inputs", "histories"],
    "For every pipeline definition, its imports, include, exclude and rename lists, subset modes, parameters and overrides.",
    "Tests read a few hand-written definitions; a definition that is lost or overridden needs a particular combination of import "
    "options, label clashes, subset membership and order of overrides.",
    ["pipelineIR.py", "pipeline.py", "configOverrides.py", "config.py"],
    [("import", "pipelineIR.ImportIR.toPipelineIR"),
     ("merge", "pipelineIR.PipelineIR.merge_pipelines"),
     ("subset", "pipelineIR.PipelineIR.subset_from_labels"),
     ("write", "pipelineIR.PipelineIR.to_primitives"),
     ("graph", "pipeline.Pipeline.to_graph"),
     ("overrides", "configOverrides.ConfigOverrides.applyTo"),
     ("override sources", "config.PipelineTaskConfig.applyConfigOverrides")],
    ["pipedef:run", "pipedef2:run"],
    "Path, loop-completeness and def-use rules over the control-flow graphs of the definition classes: outcome tables for the selection of "
    "an import (include, exclude, membership) and for what becomes of a subset (missing members, mode), must-pass rules for every "
    "merged or written field, order rules (own definitions after merged ones, files before values), and guard rules for rejected input.",
    min_obligations=350)


prop(
    "P26", "Aggregation handles every quantum once and ends whatever a worker does",
    "Aggregating a predicted graph requests a scan of every quantum (and init quantum) once those upstream of it are done, and handles "
    "every scan report once: success unblocks those downstream, failure blocks them and has every blocked quantum written as "
    "blocked (if provenance is written), an abandoned quantum is counted and nothing of it is ingested or written. A scan determines the "
    "existence of every output before its outputs are ingested (exactly those that exist and are not promised to the graph, with their "
    "datastore records) and its provenance written, and is reported afterwards on every path. Outputs and datastore records are "
    "ingested in one transaction, dropped from what is pending only afterwards, and never in a dry run; what was ingested before is "
    "looked up and left out of both, and nothing pending is left at the end. Every write request is written, queued ones included, and "
    "init outputs last. The protocol ends: every receiver stops after exactly the sentinels of all its senders, every "
    "worker reports its error, sends its sentinels, drains its queue and reports that it is done on every path, an error or a dead worker stops the "
    "others and is raised, and a worker that has reported that it is done is never taken for a dead one.",
    ["schedules", "fault_sequences", "inputs"],
    "For every predicted graph, number of workers, order of messages, and worker that fails, dies or is cancelled.",
    "Tests run a few small graphs with one fault; a lost request, sentinel or report needs a particular interleaving of workers, queue "
    "timeouts, errors and the supervisor's shutdown.",
    ["quantum_graph/aggregator/_supervisor.py", "quantum_graph/aggregator/_communicators.py", "quantum_graph/aggregator/_workers.py",
     "quantum_graph/aggregator/_scanner.py", "quantum_graph/aggregator/_ingester.py", "quantum_graph/aggregator/_writer.py"],
    [("supervisor", "quantum_graph.aggregator._supervisor.Supervisor.handle_report"),
     ("shutdown", "quantum_graph.aggregator._communicators.SupervisorCommunicator._wait_for_workers_to_finish"),
     ("reports", "quantum_graph.aggregator._communicators.SupervisorCommunicator._get_report"),
     ("worker exit", "quantum_graph.aggregator._communicators.ScannerCommunicator.__exit__"),
     ("scan", "quantum_graph.aggregator._scanner.Scanner.scan_quantum"),
     ("ingest", "quantum_graph.aggregator._ingester.Ingester.ingest"),
     ("write", "quantum_graph.aggregator._writer.Writer.loop")],
    ["aggregator:run"],
    "Typestate and path rules over the control-flow graphs of supervisor, communicators and workers, exception edges included: what each "
    "receive is followed by per kind of message (outcome tables over the message classes and sentinels), must-pass rules for the messages "
    "sent on exit, counts of sentinels against the counts receivers wait for, no raise for a dead worker without another look at the "
    "queue, transaction containment and clear-after-success rules for the ingester, and loop-completeness rules for requests.",
    min_obligations=450)


prop(
    "P27", "Provenance graphs record what happened to every quantum and give it back",
    "A provenance graph has an entry, under its own ID, for every quantum that was scanned or blocked and for every dataset of a quantum, "
    "overall inputs and init-outputs included, with its producer and all of its consumers. The status of a quantum follows from its "
    "metadata and logs: metadata means success, none means failure (or abandonment, if a retry may still come), success without logs is an aborted "
    "success, an attempt without either has no status of its own, and a blocked quantum is recorded as blocked. Every attempt, those before the last one "
    "included, is kept in order with its own number, exception, caveats, resource usage, logs and metadata, and the lists of attempts, logs and metadata match. An output is recorded as "
    "produced exactly if it was (as its metadata says, or as was found). What is written in one kind of block is read back from it: "
    "whoever asks for some quanta, datasets, logs or metadata gets exactly those, reading everything gives everything, the graph has an edge "
    "for every input and output in the right direction and an index entry for every task, dataset type and data ID, tables and reports "
    "count every quantum, and a metadata or log dataset that is backed by a provenance graph reads as the last attempt that has one.",
    ["inputs", "histories", "crash_points"],
    "For every predicted graph, history of attempts (interrupted ones included), set of outputs that exist, and set of requested nodes.",
    "Tests read back a few small graphs with one attempt per quantum; attempts cut short between two writes, mixed statuses, partial "
    "reads, and entries that share an ID or a data ID are not sampled.",
    ["quantum_graph/_provenance.py", "quantum_graph/formatter.py"],
    [("statuses", "quantum_graph._provenance.ProvenanceQuantumScanModels.from_metadata_and_logs"),
     ("attempts", "quantum_graph._provenance.ProvenanceQuantumScanModels._reconcile_attempts"),
     ("write", "quantum_graph._provenance.ProvenanceQuantumGraphWriter.write_scan_data"),
     ("consumers", "quantum_graph._provenance.ProvenanceQuantumGraphWriter._populate_xgraph_and_inputs"),
     ("read", "quantum_graph._provenance.ProvenanceQuantumGraphReader._read_nodes"),
     ("quanta", "quantum_graph._provenance.ProvenanceQuantumModel._add_to_graph"),
     ("formatter", "quantum_graph.formatter.ProvenanceFormatter.read_from_uri")],
    ["provenance:run"],
    "Def-use and path rules over the control-flow graphs of models, writer, scan, reader and formatter: writer and reader agree on the "
    "name, address index and model of each kind of block; outcome tables for the status and the existence flags over what is missing; "
    "loop-completeness rules for inputs, outputs, attempts and requested nodes; direction and attributes of every graph edge; and "
    "field-by-field rules for what goes from a predicted to a provenance model and into tables.",
    min_obligations=420)


prop(
    "P28", "Ingesting a provenance graph never loses content and can be resumed",
    "Ingesting a provenance graph replaces the metadata, logs and configs of a run by the graph: metadata and logs of every quantum and "
    "the config of every task, each exactly if it was produced. At every point at which it may be interrupted, the content of each is in its original "
    "file or in a graph that has been ingested, and running it again finishes the job: datasets backed by original files are "
    "forgotten (datastore and registry records together, no file deleted) before the graph is ingested and only if it is not ingested yet, the graph is ingested "
    "into the run of its header before any file is deleted, and a batch of files is deleted before its datasets are ingested again from the graph. What has been ingested before is looked up first and left alone. A deletion that "
    "fails, other than of a file that is gone already, ends it before anything is ingested in its place, the last batch included "
    "everything is handled once, a graph of another run than the one given is refused, and only empty directories are deleted.",
    ["crash_points", "histories", "inputs"],
    "For every provenance graph, batch size, interruption, and set of datasets an earlier attempt has ingested.",
    "Tests ingest a few complete graphs in one go; interruptions between two steps or in the middle of a batch are not sampled.",
    ["quantum_graph/ingest_graph.py"],
    [("order", "quantum_graph.ingest_graph.ingest_graph"),
     ("selection", "quantum_graph.ingest_graph._GraphIngester.clean_and_reingest_datasets"),
     ("forget", "quantum_graph.ingest_graph._GraphIngester._run_forget"),
     ("replace", "quantum_graph.ingest_graph._GraphIngester._run_clean_and_ingest"),
     ("datasets", "quantum_graph.ingest_graph._GraphIngester.iter_datasets")],
    ["ingest:run"],
    "Path rules over the control-flow graphs of the ingest, exception edges included: which step no path reaches before which other, outcome tables for "
    "the selection of datasets over produced and already ingested, transaction containment of forgetting, batches flushed on every path and "
    "cleared only after success, and def-use rules that tie each reference, file and description to the same dataset.",
    min_obligations=95)
