P = "quantum_graph/_predicted.py"
CASES = [
    ("thin-dir", "bad", (P, "bipartite_xgraph.add_edge(dataset.dataset_id, quantum_datasets.quantum_id)", "bipartite_xgraph.add_edge(quantum_datasets.quantum_id, dataset.dataset_id)")),
    ("dir-read", "bad", (P, "                    input_dataset.dataset_id,\n                    quantum_datasets.quantum_id,\n                    key=", "                    quantum_datasets.quantum_id,\n                    input_dataset.dataset_id,\n                    key=")),
    ("is-read", "bad", (P, "                    is_read=False,", "                    is_read=True,")),
    ("edge-cond", "bad", (P, "            for dataset in itertools.chain.from_iterable(quantum_datasets.inputs.values()):\n                bipartite", "            for dataset in itertools.chain.from_iterable(quantum_datasets.inputs.values()):\n                if dataset.run == self.header.output_run and dataset.data_coordinate:\n                    bipartite")),
    ("out-src", "bad", (P, "            for dataset in itertools.chain.from_iterable(quantum_datasets.outputs.values()):\n                bipartite", "            for dataset in itertools.chain.from_iterable(quantum_datasets.inputs.values()):\n                bipartite")),
    ("thin-skip", "bad", (P, "            graph_quantum_ids.append(quantum_datasets.quantum_id)\n", "            if quantum_datasets.inputs:\n                graph_quantum_ids.append(quantum_datasets.quantum_id)\n")),
    ("thin-continue", "bad", (P, "        for quantum_datasets in self.quantum_datasets.values():\n            self.thin_graph.quanta", "        for quantum_datasets in self.quantum_datasets.values():\n            if not quantum_datasets.outputs:\n                continue\n            self.thin_graph.quanta")),
    ("count-noinit", "bad", (P, "        all_dataset_ids: set[uuid.UUID] = set()\n        for quantum_datasets in itertools.chain(self.init_quanta.root, self.quantum_datasets.values()):", "        all_dataset_ids: set[uuid.UUID] = set()\n        for quantum_datasets in self.quantum_datasets.values():")),
    ("count-task", "bad", (P, "            task_label: len(thin_quanta) for task_label, thin_quanta in self.thin_graph.quanta.items()\n        }\n        all", "            task_label: len(thin_quanta) for task_label, thin_quanta in self.thin_graph.quanta.items() if thin_quanta\n        }\n        all")),
    ("rerun-noinit", "bad", (P, "        for quantum_datasets in itertools.chain(self.init_quanta.root, self.quantum_datasets.values()):\n            for input_dataset", "        for quantum_datasets in self.quantum_datasets.values():\n            for input_dataset")),
    ("rerun-runonly", "bad", (P, "                    input_dataset.run = output_run\n                    input_dataset.dataset_id", "                    input_dataset.dataset_id")),
    ("rerun-mapped-only", "bad", (P, "                if input_dataset.run == self.header.output_run:\n", "                if input_dataset.dataset_id in uuid_map:\n")),
    ("rerun-all-inputs", "bad", (P, "                if input_dataset.run == self.header.output_run:\n", "                if input_dataset.run != output_run:\n")),
    ("rerun-mapkey", "bad", (P, "                uuid_map[output_dataset.dataset_id] = new_dataset_id\n                output_dataset.dataset_id = new_dataset_id\n", "                output_dataset.dataset_id = new_dataset_id\n                uuid_map[output_dataset.dataset_id] = new_dataset_id\n")),
    ("rerun-header-first", "bad", [(P, "        self.set_thin_graph()\n        # Update the header last, since we use it above to get the old run.\n        self.header.output_run = output_run\n", "        self.set_thin_graph()\n"), (P, "        uuid_map: dict[uuid.UUID, uuid.UUID] = {}\n", "        uuid_map: dict[uuid.UUID, uuid.UUID] = {}\n        self.header.output_run = output_run\n")]),
    ("rerun-nothin", "bad", (P, "        self.set_thin_graph()\n        # Update the header last", "        # Update the header last")),
    ("rerun-norekey", "bad", (P, "        self.quantum_datasets = {qd.quantum_id: qd for qd in self.quantum_datasets.values()}\n", "")),
    ("rerun-oneloop", "bad", (P, "        for quantum_datasets in itertools.chain(self.init_quanta.root, self.quantum_datasets.values()):\n            for input_dataset", "            for input_dataset")),
    ("ctor-no-type", "bad", (P, '        if not components.header.graph_type == "predicted":', '        if components.header.graph_type and not components.header.graph_type == "predicted":')),
    ("ctor-no-project", "bad", (P, "        if not components.thin_graph.edges:", "        if not components.thin_graph.quanta:")),
    ("quant-skip", "bad", (P, "        for quantum_datasets in components.quantum_datasets.values():\n            self._add_quantum_datasets(quantum_datasets)", "        for quantum_datasets in components.quantum_datasets.values():\n            if quantum_datasets.inputs:\n                self._add_quantum_datasets(quantum_datasets)")),
    ("index", "bad", (P, "        self._quanta_by_task_label[task_label][data_id] = quantum_id", "        self._quanta_by_task_label[task_label].setdefault(data_id, quantum_id)")),
    ("node-one", "bad", (P, "        self._bipartite_xgraph.add_node(quantum_id, task_label=task_label, pipeline_node=task_node)\n", "")),
    ("exec-swap", "bad", (P, "            outputs = self._build_execution_quantum_refs(task_node, quantum_datasets.outputs)", "            outputs = self._build_execution_quantum_refs(task_node, quantum_datasets.inputs)")),
    ("exec-iter", "bad", (P, "            quantum_ids = list(quantum_ids)\n", "            quantum_ids = iter(quantum_ids)\n")),
    ("exec-norecords", "bad", (P, "                    task_init_datastore_records[task_node.label],\n", "")),
    ("exec-ownrecords", "bad", (P, "                    quantum_datasets.deserialize_datastore_records(),\n", "")),
    ("expand-succ", "bad", (P, "                self._bipartite_xgraph.predecessors(quantum_id),\n                self._bipartite_xgraph.successors(quantum_id),\n", "                self._bipartite_xgraph.predecessors(quantum_id),\n")),
    ("qbb-nosub", "bad", (P, "        predicted_inputs -= predicted_outputs\n", "")),
    ("qbb-side", "bad", (P, "                d.dataset_id for d in itertools.chain.from_iterable(init_quantum_datasets.outputs.values())", "                d.dataset_id for d in itertools.chain.from_iterable(init_quantum_datasets.inputs.values())")),
    ("old-nocount", "bad", (P, "        result.set_thin_graph()\n        result.set_header_counts()\n", "        result.set_header_counts()\n        result.set_thin_graph()\n")),
    ("iter-ids", "bad", (P, "        for datasets in self.outputs.values():\n            for dataset in datasets:\n                yield dataset.dataset_id", "        for datasets in self.outputs.values():\n            for dataset in datasets[:1]:\n                yield dataset.dataset_id\n                break")),
    # behaviour-preserving
    ("rerun-helper", "ok", [(P, "                new_dataset_id = generate_uuidv7()\n                uuid_map[output_dataset.dataset_id] = new_dataset_id\n                output_dataset.dataset_id = new_dataset_id\n                output_dataset.run = output_run\n", "                self._move(output_dataset, uuid_map, output_run)\n"),
                            (P, "    def assemble(self)", "    def _move(self, d: PredictedDatasetModel, uuid_map: dict, output_run: str) -> None:\n        old = d.dataset_id\n        d.dataset_id = generate_uuidv7()\n        d.run = output_run\n        uuid_map[old] = d.dataset_id\n\n    def assemble(self)")]),
    ("rerun-continue", "ok", (P, "                if input_dataset.run == self.header.output_run:\n                    input_dataset.run = output_run\n                    input_dataset.dataset_id = uuid_map.get(\n                        input_dataset.dataset_id,\n                        # This dataset isn't necessary an output of the graph\n                        # just because it's in the output run; the graph could\n                        # have been built with extend_run=True.\n                        input_dataset.dataset_id,\n                    )\n", "                if input_dataset.run != self.header.output_run:\n                    continue\n                old_id = input_dataset.dataset_id\n                if old_id in uuid_map:\n                    new_id = uuid_map[old_id]\n                else:\n                    new_id = old_id\n                input_dataset.dataset_id = new_id\n                input_dataset.run = output_run\n")),
    ("rerun-oldrun", "ok", [(P, "        uuid_map: dict[uuid.UUID, uuid.UUID] = {}\n", "        uuid_map: dict[uuid.UUID, uuid.UUID] = {}\n        old_run = self.header.output_run\n        self.header.output_run = output_run\n"), (P, "                assert output_dataset.run == self.header.output_run, (", "                assert output_dataset.run == old_run, ("), (P, "                if input_dataset.run == self.header.output_run:\n", "                if input_dataset.run == old_run:\n"), (P, "        # Update the header last, since we use it above to get the old run.\n        self.header.output_run = output_run\n", "")]),
    ("thin-nested", "ok", (P, "            for dataset in itertools.chain.from_iterable(quantum_datasets.inputs.values()):\n                bipartite_xgraph.add_edge(dataset.dataset_id, quantum_datasets.quantum_id)\n", "            for datasets in quantum_datasets.inputs.values():\n                for dataset in datasets:\n                    bipartite_xgraph.add_edge(dataset.dataset_id, quantum_datasets.quantum_id)\n")),
    ("thin-ids", "ok", [(P, "            graph_quantum_ids.append(quantum_datasets.quantum_id)\n", ""), (P, "        graph_quantum_ids: list[uuid.UUID] = []\n", "        graph_quantum_ids = [qd.quantum_id for qd in self.quantum_datasets.values()]\n")]),
    ("thin-iterids", "ok", (P, "            for dataset in itertools.chain.from_iterable(quantum_datasets.outputs.values()):\n                bipartite_xgraph.add_edge(quantum_datasets.quantum_id, dataset.dataset_id)\n", "            for dataset_id in quantum_datasets.iter_output_dataset_ids():\n                bipartite_xgraph.add_edge(quantum_datasets.quantum_id, dataset_id)\n")),
    ("qbb-diff", "ok", (P, "        predicted_inputs -= predicted_outputs\n", "        predicted_inputs = predicted_inputs.difference(predicted_outputs)\n")),
    ("count-comp", "ok", (P, "        all_dataset_ids: set[uuid.UUID] = set()\n        for quantum_datasets in itertools.chain(self.init_quanta.root, self.quantum_datasets.values()):\n            all_dataset_ids.update(quantum_datasets.iter_dataset_ids())\n", "        all_dataset_ids = {\n            i\n            for qd in itertools.chain(self.init_quanta.root, self.quantum_datasets.values())\n            for i in qd.iter_dataset_ids()\n        }\n")),
    ("exec-helper", "ok", [(P, "            if task_node.label not in task_init_datastore_records:\n                task_init_datastore_records[task_node.label] = self._init_quanta[\n                    task_node.label\n                ].deserialize_datastore_records()\n", "            init_records = task_init_datastore_records.get(task_node.label)\n            if init_records is None:\n                init_records = self._init_quanta[task_node.label].deserialize_datastore_records()\n                task_init_datastore_records[task_node.label] = init_records\n"), (P, "                    task_init_datastore_records[task_node.label],\n", "                    init_records,\n")]),
    ("exec-dict", "ok", (P, "            if \"quantum\" in quantum_node_dict:\n                result[quantum_id] = quantum_node_dict[\"quantum\"]\n                continue\n", "            if (cached := quantum_node_dict.get(\"quantum\")) is not None:\n                result[quantum_id] = cached\n                continue\n")),
    ("project-order", "ok", (P, "        if not components.thin_graph.edges:\n", "        have_edges = bool(components.thin_graph.edges)\n        if not have_edges:\n")),
    ("chain-iter", "ok", (P, "        yield from self.iter_input_dataset_ids()\n        yield from self.iter_output_dataset_ids()\n", "        yield from itertools.chain(self.iter_input_dataset_ids(), self.iter_output_dataset_ids())\n")),
]
