"""Functions of the analysed code base that the rules know by name: they are not inlined into their callers, whereas other functions
(helpers extracted later, say) are."""
KNOWN = {
    "_datasetQueryConstraints": {
        "__eq__", "__init__", "__iter__", "__len__", "__new__", "__repr__", "__str__", "__subclasshook__", "fromExpression", "suppressInit"},
    "_dataset_handle": {
        "__init__", "_default_dataId", "_getStorageClass", "get"},
    "_instrument": {
        "__init__", "_from_cls_name", "_make_default_dimension_packer", "_make_default_dimension_packer_dispatch", "applyConfigOverrides",
        "formatCollectionTimestamp", "fromName", "from_data_id", "from_string", "getName", "getRawFormatter", "importAll",
        "makeCalibrationCollectionName", "makeCollectionName", "makeCollectionTimestamp", "makeCuratedCalibrationRunName",
        "makeDefaultRawIngestRunName", "makeRefCatCollectionName", "makeUmbrellaCollectionName", "makeUnboundedCalibrationRunName",
        "make_default_dimension_packer", "make_dimension_packer_config_field", "register"},
    "_observation_dimension_packer": {
        "__init__", "_pack", "maxBits", "unpack"},
    "_quantumContext": {
        "__deepcopy__", "__init__", "__reduce__", "_checkMembership", "_get", "_put", "_reduce_kwargs", "_unpickle_via_factory",
        "add_additional_provenance", "dimensions", "get", "put"},
    "_status": {
        "__new__", "_from_metadata", "annotate", "concise", "expanded_dict", "from_adjust_quantum_no_work", "has_log", "has_metadata",
        "is_rare", "legend", "metadata", "title"},
    "_task_metadata": {
        "__contains__", "__delitem__", "__getitem__", "__iter__", "__len__", "__setitem__", "_convert_null_to_nan", "_getKeys",
        "_isListLike", "_validate_value", "add", "from_dict", "from_metadata", "get", "getArray", "getScalar", "get_dict", "items", "keys",
        "names", "paramNames", "set_dict", "to_dict"},
    "all_dimensions_quantum_graph_builder": {
        "__init__", "__post_init__", "_append_data_id_generator", "_fetch_most_dimension_records", "_find_followup_datasets",
        "_make_dimension_record_branches", "_make_edge_branches", "_make_general_overlap_branch_generator", "_make_join_branch_generator",
        "_make_queryable_branch_tree", "_make_queryable_overlap_branch_generators", "_make_subgraph_skeleton",
        "_maybe_insert_projection_branch", "_query_for_data_ids", "_set_dataset_constraint", "build", "generate_data_ids",
        "get_single_skypix", "pprint", "process_subgraph", "project_data_ids", "run", "update_skeleton_edges", "update_skeleton_nodes"},
    "blocking_limited_butler": {
        "__init__", "_datastore", "_metrics", "close", "dimensions", "get", "getDeferred", "isWriteable", "pruneDatasets", "put",
        "stored_many"},
    "caching_limited_butler": {
        "__init__", "_datastore", "_metrics", "close", "dimensions", "get", "getDeferred", "isWriteable", "pruneDatasets", "put",
        "stored_many"},
    "cli._get_cli_subcommands": {
        "get_cli_subcommands"},
    "cli.cmd.commands": {
        "aggregate_graph", "ingest_graph", "provenance_report", "register_instrument", "retrieve_artifacts_for_quanta",
        "transfer_from_graph", "zip_from_graph"},
    "config": {
        "__init__", "__new__", "__set__", "_validateValue", "applyConfigOverrides"},
    "configOverrides": {
        "__init__", "__setattr__", "_parser", "addFileOverride", "addInstrumentOverride", "addParameters", "addPythonOverride",
        "addValueOverride", "applyTo", "generic_visit", "visit_Constant", "visit_Dict", "visit_List", "visit_Name", "visit_Set",
        "visit_Tuple", "visit_UnaryOp"},
    "connectionTypes": {
        "__get__", "__post_init__"},
    "connections": {
        "__call__", "__deepcopy__", "__delattr__", "__getattr__", "__init__", "__iter__", "__len__", "__new__", "__prepare__", "__reduce__",
        "__setattr__", "__setitem__", "add_input", "add_prerequisite_input", "adjustQuantum", "adjust_all_quanta", "adjust_in_place",
        "buildDatasetRefs", "butler", "expand_quantum_data_id", "getSpatialBoundsConnections", "getTemporalBoundsConnections", "get_inputs",
        "get_outputs", "get_prerequisite_inputs", "iterConnections", "iter_data_ids", "keys", "move_output", "n_removed", "remove_quantum",
        "task_label", "task_node"},
    "dot_tools": {
        "graph2dot", "pipeline2dot"},
    "exec_fixup_data_id": {
        "__init__", "fixupQuanta", "fixup_graph"},
    "execution_graph_fixup": {
        "fixupQuanta", "fixup_graph"},
    "execution_reports": {
        "__str__", "inspect_quantum", "lookup_quantum_data_id", "make_reports", "to_summary_dict", "write_summary_yaml"},
    "formatters.pexConfig": {
        "read_from_stream", "write_local_file"},
    "gc_metrics": {
        "__enter__", "__exit__", "_gc_stats", "from_task_metadata"},
    "graph._implDetails": {
        "__contains__", "__init__", "addConsumer", "addProducer", "getAll", "getConsumers", "getProducer", "inverse", "keys",
        "makeNetworkXGraph"},
    "graph._loadHelpers": {
        "__enter__", "__exit__", "__post_init__", "_initialize", "_readBytes", "_validateSave", "load", "readHeader"},
    "graph._versionDeserializers": {
        "FMT_STRING", "__get__", "__init_subclass__", "__post_init__", "constructGraph", "description", "headerSize", "readHeaderInfo",
        "unpackHeader"},
    "graph.graph": {
        "__contains__", "__eq__", "__getstate__", "__init__", "__iter__", "__len__", "__setstate__", "_buildGraphs", "_buildSaveObject",
        "_buildSaveObjectImpl", "allDatasetTypes", "buildAndPrintHeader", "checkQuantumInGraph", "determineAncestorsOfQuantumNode",
        "determineConnectionsOfQuantumNode", "determineInputsToQuantumNode", "determineOutputsOfQuantumNode", "findCycle",
        "findQuantaWithDSType", "findTaskDefByLabel", "findTaskDefByName", "findTaskWithOutput", "findTasksWithInput", "getNodesForTask",
        "getNumberOfQuantaForTask", "getQuantaForTask", "getQuantumNodeByNodeId", "getSummary", "get_init_input_refs",
        "get_init_output_refs", "get_refs", "get_task_quanta", "globalInitOutputRefs", "graph", "graphID", "initInputRefs",
        "initOutputRefs", "init_output_run", "inputQuanta", "isConnected", "iterTaskGraph", "load", "loadUri", "make_init_qbb", "metadata",
        "outputQuanta", "pipeline_graph", "readHeader", "registryDatasetTypes", "save", "saveUri", "subset", "subsetToConnected",
        "taskGraph", "tasksWithDSType", "universe", "updateRun", "writeDotGraph", "write_configs", "write_init_outputs", "write_packages"},
    "graph.quantumNode": {
        "__eq__", "__hash__", "__post_init__", "__repr__", "_hashDsRef", "_replace_quantum", "direct", "from_simple", "task_node",
        "to_simple"},
    "graph_walker": {
        "__init__", "__iter__", "__next__", "fail", "finish"},
    "log_capture": {
        "__init__", "_store_log_records", "attach_previous_attempt", "capture_logging", "from_full", "from_limited"},
    "log_on_close": {
        "__init__", "wrap"},
    "mermaid_tools": {
        "graph2mermaid", "pipeline2mermaid"},
    "mp_graph_executor": {
        "__init__", "__str__", "_executeJob", "_execute_quanta_in_process", "_execute_quanta_mp", "_make_xgraph", "cleanup", "execute",
        "failMessage", "getReport", "report", "setJobState", "start", "state", "stop", "submit", "terminated"},
    "pipeline": {
        "__eq__", "__hash__", "__init__", "__len__", "__post_init__", "__reduce__", "__str__", "_addConfigImpl", "_add_task_to_graph",
        "_parse_file_specifier", "_unreduce", "addConfigFile", "addConfigOverride", "addConfigPython", "addInstrument", "addLabelToSubset",
        "addLabeledSubset", "addTask", "configDatasetName", "findSubsetsWithLabel", "fromFile", "fromIR", "fromPipeline", "fromString",
        "from_uri", "getInstrument", "get_data_id", "logOutputDatasetName", "makeMetadataDatasetName", "mergePipeline",
        "metadataDatasetName", "removeLabelFromSubset", "removeLabeledSubset", "removeTask", "subsetFromLabels", "subsets", "task_labels",
        "to_graph", "write_to_uri"},
    "pipelineIR": {
        "__bool__", "__contains__", "__eq__", "__getitem__", "__init__", "__repr__", "__str__", "_read_contracts", "_read_imports",
        "_read_labeled_subsets", "_read_parameters", "_read_step_declaration", "_read_tasks", "_remove_contracts",
        "_verify_labeled_subsets", "_verify_steps", "add_or_update_config", "construct_mapping", "formatted", "from_primitives",
        "from_string", "from_uri", "maybe_merge", "merge_pipelines", "represent_scalar", "subset_from_labels", "toPipelineIR",
        "to_primitives", "update", "write_to_uri"},
    "pipelineTask": {
        "__init__", "run", "runQuantum"},
    "pipeline_graph.__main__": {
        "__post_init__", "add_args_to_parser", "from_parsed_args", "main", "read_input_pipeline"},
    "pipeline_graph._dataset_types": {
        "__repr__", "_from_edges", "_to_xgraph_state", "dimensions", "generalize_ref", "is_calibration", "key", "name", "storage_class",
        "storage_class_name"},
    "pipeline_graph._edges": {
        "__init__", "__reduce__", "__repr__", "_from_connection_map", "_resolve_dataset_type", "_to_xgraph_state", "_unreduce",
        "adapt_dataset_ref", "adapt_dataset_type", "dataset_type_name", "diff", "is_init", "key", "nodes", "parent_dataset_type_name",
        "task_label"},
    "pipeline_graph._mapping_views": {
        "__contains__", "__getitem__", "__init__", "__iter__", "__len__", "__repr__", "__str__", "_make_keys", "_reorder", "_reset",
        "between", "get_if_resolved", "is_resolved"},
    "pipeline_graph._nodes": {
        "__lt__", "__repr__", "__str__", "bipartite", "node_id"},
    "pipeline_graph._pipeline_graph": {
        "__copy__", "__deepcopy__", "__init__", "__repr__", "_append_graph_data_from_edge", "_dimensions_compatible",
        "_import_and_configure", "_init_from_args", "_iter_task_defs", "_make_bipartite_xgraph_internal", "_make_task_xgraph_internal",
        "_read_stream", "_read_uri", "_reorder", "_replace_task_nodes", "_reset", "_resolve_step_dimensions", "_resolve_step_flow",
        "_select_dataset_type_ancestors", "_select_dataset_type_descendants", "_select_expression", "_select_identifier",
        "_select_task_ancestors", "_select_task_descendants", "_transform_xgraph_state", "_write_stream", "_write_uri", "add_task",
        "add_task_nodes", "add_task_subset", "check_dataset_type_registrations", "compare_packages", "consumers_of", "consuming_edges_of",
        "copy", "data_id", "dataset_types", "description", "diff_tasks", "get_all_dimensions", "get_task_step", "group_by_dimensions",
        "has_been_sorted", "init_output_run", "inputs_of", "instantiate_tasks", "is_fully_resolved", "iter_edges", "iter_nodes",
        "iter_overall_inputs", "log_config_mismatch", "make_bipartite_xgraph", "make_dataset_type_xgraph", "make_task_xgraph",
        "make_xgraph", "outputs_of", "packages_dataset_type", "producer_of", "producing_edge_of", "reconfigure_tasks",
        "register_dataset_types", "remove_task_subset", "remove_tasks", "resolve", "select", "select_tasks", "sort", "split_independent",
        "steps", "task_subsets", "tasks", "universe", "write_configs", "write_init_outputs", "write_packages"},
    "pipeline_graph._task_subsets": {
        "__contains__", "__eq__", "__init__", "__iter__", "__len__", "__repr__", "_from_iterable", "_unverified_on_success", "add",
        "append", "assign", "clear", "copy", "description", "dimensions", "discard", "get_dimensions", "is_step", "label", "remove",
        "set_dimensions", "verified"},
    "pipeline_graph._tasks": {
        "__init__", "__reduce__", "__repr__", "_diff_edge_mapping", "_from_imported_data", "_get_imported_data", "_imported_and_configured",
        "_reconfigured", "_resolved", "_to_xgraph_state", "_unreduce", "config", "configure", "diff_edges", "dimensions", "get_config_str",
        "get_connections", "get_edge", "get_input_edge", "get_lookup_function", "get_output_edge", "get_spatial_bounds_connections",
        "get_temporal_bounds_connections", "has_resolved_dimensions", "is_imported", "is_optional", "iter_all_inputs", "iter_all_outputs",
        "label", "raw_dimensions", "task_class", "task_class_name"},
    "pipeline_graph.expressions": {
        "__init__", "_parser_factory", "make_lexer", "p_error", "p_expr_identifier", "p_expr_inequality", "p_expr_intersection",
        "p_expr_not", "p_expr_parens", "p_expr_union", "p_identifier_qualified", "parse", "t_IDENTIFIER", "t_error"},
    "pipeline_graph.io": {
        "_expect_not_none", "deserialize", "deserialize_read_edge", "deserialize_task_subset", "deserialize_write_edge", "serialize"},
    "pipeline_graph.visualization._dot": {
        "_format_label", "_parse_label", "_render_dataset_type_node", "_render_default", "_render_edge", "_render_node",
        "_render_task_node", "show_dot"},
    "pipeline_graph.visualization._formatting": {
        "__call__", "__init__", "_build_description", "_build_progress_bar", "_stitch_node_text", "format_deferrals", "format_dimensions",
        "format_node_status", "format_task_class", "get_node_symbol", "render_segment", "strip_ansi"},
    "pipeline_graph.visualization._layout": {
        "__call__", "__init__", "__iter__", "_add_blockers_of", "_add_connected_graph", "_add_graph", "_add_single_node",
        "_external_location", "_shift", "nodes", "print", "width"},
    "pipeline_graph.visualization._merge": {
        "__str__", "_apply_tree_merges", "_make_tree_merge_groups", "from_node_state", "merge_graph_input_trees",
        "merge_graph_intermediates", "merge_graph_output_trees", "node_id", "node_type"},
    "pipeline_graph.visualization._mermaid": {
        "_format_label", "_generate_mermaid_source", "_parse_label", "_render_dataset_type_node", "_render_edge", "_render_mermaid_image",
        "_render_simple_node", "_render_task_node", "show_mermaid"},
    "pipeline_graph.visualization._options": {
        "__bool__", "checked", "has_details"},
    "pipeline_graph.visualization._printer": {
        "__init__", "_default_get_style", "_default_get_symbol", "_default_get_text", "bend", "finish", "make_colorama_printer",
        "make_default_printer", "make_simple_printer", "print", "print_row", "set", "update", "vert"},
    "pipeline_graph.visualization._show": {
        "parse_display_args", "show"},
    "pipeline_graph.visualization._status_annotator": {
        "__call__", "__init__", "__post_init__"},
    "prerequisite_helpers": {
        "__init__", "__post_init__", "find", "finish", "handle_dataset", "make_skypix_bounds_builder", "make_timespan_builder", "task_node",
        "update_bounds"},
    "quantum_graph._common": {
        "__init__", "_open", "_read_single_block", "_read_single_block_raw", "_read_single_block_static", "bipartite_xgraph",
        "datasets_by_type", "from_old_quantum_graph", "open", "quanta_by_task", "quantum_only_xgraph", "to_old_metadata",
        "write_single_block", "write_single_model"},
    "quantum_graph._multiblock": {
        "__str__", "_read_page", "_read_row", "compress", "compute_header_size", "compute_row_size", "decompress", "end", "find",
        "from_stream", "get_all_ids", "open_in_zip", "read", "read_all", "read_all_bytes_in_zip", "read_all_models_in_zip", "read_bytes",
        "read_model", "row_size", "write", "write_bytes", "write_model", "write_to_zip"},
    "quantum_graph._predicted": {
        "__init__", "__iter__", "__len__", "__post_init__", "_add_dataset", "_add_init_quanta", "_add_quantum", "_add_quantum_datasets",
        "_add_thin_graph", "_build_execution_quantum_refs", "_expand_execution_quantum_data_ids", "_make_general_ref", "_make_init_ref",
        "_make_summary", "_upgraded", "assemble", "bipartite_xgraph", "build_execution_quanta", "datasets_by_type",
        "deserialize_datastore_records", "dimension_data", "finish", "from_dataset_ref", "from_execution_quantum", "from_old_quantum_graph",
        "from_old_quantum_graph_init", "get_init_inputs", "get_init_outputs", "init_output_run", "iter_dataset_ids",
        "iter_input_dataset_ids", "iter_output_dataset_ids", "make_dataset_ref", "make_empty", "make_init_qbb", "open", "quanta_by_task",
        "quantum_only_xgraph", "read_all", "read_dimension_data", "read_execution_quanta", "read_init_quanta", "read_quantum_datasets",
        "read_thin_graph", "set_header_counts", "set_thin_graph", "to_old_quantum_graph", "update_from_old_quantum_graph",
        "update_output_run", "write", "write_configs", "write_init_outputs", "write_packages"},
    "quantum_graph._provenance": {
        "__init__", "__post_init__", "_add_to_graph", "_extract_from_log_extra", "_extract_output_existence", "_init_predicted_quanta",
        "_populate_xgraph_and_inputs", "_process_logs", "_process_metadata", "_read_nodes", "_reconcile_attempts", "bipartite_xgraph",
        "compress", "compressor", "datasets_by_type", "fetch_logs", "fetch_metadata", "fetch_packages", "from_args", "from_info",
        "from_metadata_and_logs", "from_predicted", "init_quanta", "make_blocked", "make_exception_table", "make_many_reports",
        "make_quantum_table", "make_status_report", "make_task_resource_usage_table", "node_id", "open", "pass_through", "quanta_by_task",
        "quantum_only_xgraph", "read_datasets", "read_full_graph", "read_init_quanta", "read_quanta", "to_scan_data",
        "write_blocked_quantum_provenance", "write_init_outputs", "write_overall_inputs", "write_packages", "write_quantum_provenance",
        "write_scan_data"},
    "quantum_graph.aggregator._communicators": {
        "__enter__", "__exit__", "__init__", "_disable_resources_parallelism", "_get_report", "_handle_progress_reports", "_terminate",
        "_wait_for_workers_to_finish", "check_for_cancel", "exit_stack", "get_compression_dict", "get_worker_name", "log_progress",
        "periodically_check_for_cancel", "poll", "report_ingest", "report_scan", "report_write", "request_ingest", "request_scan",
        "request_write", "send_compression_dict"},
    "quantum_graph.aggregator._config": {
        "is_writing_provenance"},
    "quantum_graph.aggregator._ingester": {
        "__enter__", "__exit__", "__post_init__", "fetch_already_ingested", "ingest", "loop", "n_datasets_pending", "report", "run",
        "update_output_chain", "update_outputs_pending"},
    "quantum_graph.aggregator._progress": {
        "__enter__", "__exit__", "__init__", "_log_status", "append_log_terms", "close", "elapsed_time", "make_worker_log", "update"},
    "quantum_graph.aggregator._scanner": {
        "__enter__", "__exit__", "__post_init__", "_make_ingest_request", "_read_log", "_read_metadata", "loop", "make_qbb",
        "pipeline_graph", "run", "scan_dataset", "scan_quantum"},
    "quantum_graph.aggregator._structs": {
        "__bool__"},
    "quantum_graph.aggregator._supervisor": {
        "__post_init__", "aggregate_graph", "handle_report", "loop"},
    "quantum_graph.aggregator._workers": {
        "__init__", "clear", "get", "is_alive", "join", "kill", "make_event", "make_queue", "make_worker", "name", "put"},
    "quantum_graph.aggregator._writer": {
        "__post_init__", "loop", "make_compression_dictionary", "make_qg_writer", "run"},
    "quantum_graph.formatter": {
        "_read_config", "_read_log", "_read_metadata", "_read_packages", "datasets_to_list", "nodes", "quanta_to_list", "read_from_uri"},
    "quantum_graph.ingest_graph": {
        "_make_ref_from_info", "_run_clean_and_ingest", "_run_forget", "clean_and_reingest_datasets", "fetch_already_ingested_datasets",
        "find_dataset_type_directory", "forget_ingested_datasets", "ingest_graph", "ingest_graph_dataset", "iter_datasets", "make_qbb",
        "open", "output_run", "read_graph"},
    "quantum_graph.visualization": {
        "_make_node_id", "_render_default", "_render_node", "render_dataset", "render_edge", "render_footer", "render_header",
        "render_quantum", "write_bipartite", "write_quantum_only"},
    "quantum_graph_builder": {
        "__init__", "_adapt_quantum_inputs", "_adapt_quantum_outputs", "_adjust_task_quanta", "_apply_skip_decision",
        "_attach_datastore_records", "_build_skeleton", "_compute_skip_decision", "_construct_components", "_construct_quantum_graph",
        "_expand_retained_patterns", "_find_empty_dimension_datasets", "_find_removed", "_get_task_inputs_if_overall_only",
        "_make_predicted_datasets", "_quantum_or_quanta", "_resolve_task_init", "_resolve_task_quanta", "_unskip_ancestors",
        "_update_quantum_for_adjust", "build", "finish", "process_subgraph", "universe"},
    "quantum_graph_executor": {
        "__init__", "__new__", "adjusted_no_work", "execute", "getReport", "quantum", "report", "skipped_existing", "task_metadata"},
    "quantum_graph_skeleton": {
        "__contains__", "__getitem__", "__init__", "__iter__", "add_dataset_node", "add_input_edge", "add_input_edges", "add_output_edge",
        "add_prerequisite_node", "add_quantum_node", "attach_dimension_records", "discard_output_in_the_way", "extract_overall_inputs",
        "get_data_id", "get_dataset_ref", "get_dimension_data", "get_output_for_skip", "get_output_in_the_way", "get_producer_of",
        "get_quanta", "get_task_init_node", "global_init_outputs", "has_any_quanta", "has_task", "iter_all_quanta", "iter_inputs_of",
        "iter_outputs_of", "n_edges", "n_nodes", "remove_dataset_nodes", "remove_input_edges", "remove_orphan_datasets",
        "remove_output_edge", "remove_quantum_node", "remove_task", "remove_unanchored_quanta", "set_data_id", "set_dataset_ref",
        "set_output_for_skip", "set_output_in_the_way", "update"},
    "quantum_provenance_graph": {
        "__call__", "__init__", "_add_data_id_group", "_add_dataset_info", "_add_new_graph", "_add_new_quantum", "_add_quantum_info",
        "_butler_get", "_cli", "_from_info", "_resolve_duplicates", "_update_caveats", "_update_info_status", "_update_run_status",
        "_validate", "aggregate", "assemble_quantum_provenance_graph", "butler", "datasets", "find_final", "get_dataset_info",
        "get_producer_of", "get_quantum_info", "iter_downstream", "iter_outputs_of", "make_bad_dataset_tables", "make_bad_quantum_tables",
        "make_dataset_table", "make_exception_table", "make_quantum_table", "n_cursed", "n_failed", "n_unsuccessful", "n_wonky", "pprint",
        "quanta", "to_summary", "wrap_full", "wrap_qbb"},
    "quantum_reports": {
        "__init__", "_serializeDataId", "_set_cmdLine", "from_exception", "from_exit_code", "set_exception"},
    "resource_usage": {
        "end", "from_task_metadata", "get_numpy_fields", "get_numpy_row", "get_units", "total_time"},
    "script.register_instrument": {
        "register_instrument"},
    "script.retrieve_artifacts_for_quanta": {
        "retrieve_artifacts_for_quanta"},
    "script.transfer_from_graph": {
        "_update_chain", "transfer_from_graph"},
    "script.utils": {
        "_matches_dataset_type", "filter_by_dataset_type_glob", "filter_by_existence"},
    "script.zip_from_graph": {
        "zip_from_graph"},
    "separable_pipeline_executor": {
        "__init__", "build_quantum_graph", "make_pipeline", "make_quantum_graph", "make_quantum_graph_builder", "pre_execute_qgraph",
        "run_pipeline"},
    "simple_pipeline_executor": {
        "__init__", "_transfer_qg_dimension_records", "as_generator", "from_pipeline", "from_pipeline_filename", "from_pipeline_graph",
        "from_task_class", "prep_butler", "quantum_graph", "run", "use_local_butler"},
    "single_quantum_executor": {
        "__init__", "_check_existing_outputs", "_execute", "_execute_with_limited_butler", "_run_quantum", "_should_assume_exists",
        "_updated_quantum_inputs", "_write_metadata", "execute"},
    "struct": {
        "__init__", "__len__", "__repr__", "__safeAdd", "copy", "getDict", "mergeItems"},
    "task": {
        "__init__", "__reduce__", "_computeFullName", "_parentTask", "_reduce_kwargs", "_unpickle_via_factory", "emptyMetadata",
        "getFullMetadata", "getFullName", "getName", "getTaskDict", "makeField", "makeSubtask", "timer"},
    "taskFactory": {
        "makeTask"},
    "testUtils": {
        "_assertAttributeMatchesConnection", "_checkDataIdMultiplicity", "_checkDimensionsMatch", "_normalizeDataIds", "_refFromConnection",
        "_simplify", "assertValidInitOutput", "assertValidOutput", "getInitInputs", "lintConnections", "makeQuantum", "runTestQuantum"},
    "trivial_quantum_graph_builder": {
        "__init__", "_get_data_id", "process_subgraph"},
}


def fresh(f):
    """Whether a function is a helper that the rules do not know by name (one extracted by a refactoring, say)."""
    known = KNOWN.get(f.module.name.replace("lsst.pipe.base.", ""))
    return known is not None and f.name not in known and not f.name.startswith("__")
