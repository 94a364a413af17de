C = "quantum_graph/_common.py"
P = "quantum_graph/_predicted.py"
CASES = [
    ("suffix", "bad", (C, 'self.zf.writestr(f"{name}.json.zst", json_data)', 'self.zf.writestr(f"{name}.json", json_data)')),
    ("raw-suffix", "bad", (C, 'compressed_data = self.zf.read(f"{name}.json.zst")', 'compressed_data = self.zf.read(f"{name}.zst")')),
    ("uncompressed", "bad", (C, "        json_data = self.compressor.compress(json_data)\n", "        self.compressor.compress(json_data)\n")),
    ("exclude-unset", "bad", (C, "model.model_dump_json().encode()", "model.model_dump_json(exclude_unset=True).encode()")),
    ("exclude-defaults-ok", "ok", (C, "model.model_dump_json().encode()", "model.model_dump_json(exclude_defaults=True).encode()")),
    ("no-dict", "bad", (C, "                if cdict_data is not None:\n                    zf.writestr", "                if cdict_data is not None and len(cdict_data) > 1024:\n                    zf.writestr")),
    ("dict-name", "bad", (C, 'zipfile.Path(zf, "compression_dict")', 'zipfile.Path(zf, "compression_dict.zst")')),
    ("dict-unused", "bad", (C, "decompressor = zstandard.ZstdDecompressor(cdict)", "decompressor = zstandard.ZstdDecompressor()")),
    ("addr-finally", "bad", (C, "                yield self\n                address_writer.write_to_zip(zf, address_filename, int_size=self.int_size)", "                try:\n                    yield self\n                finally:\n                    address_writer.write_to_zip(zf, address_filename, int_size=self.int_size)")),
    ("addr-before", "bad", (C, "                yield self\n                address_writer.write_to_zip(zf, address_filename, int_size=self.int_size)", "                address_writer.write_to_zip(zf, address_filename, int_size=self.int_size)\n                yield self")),
    ("addr-int", "bad", (C, "int_size=self.int_size)", "int_size=8)")),
    ("no-type-check", "bad", (C, "                if not header.graph_type == graph_type:", "                if header.graph_type and not header.graph_type == graph_type:")),
    ("reader-int", "bad", (C, "int_size=header.int_size,", "int_size=8,")),
    ("meta-key", "bad", (C, 'command=metadata.pop("full_command", ""),', 'command=metadata.pop("command", ""),')),
    ("meta-key2", "bad", (C, 'result["output"] = self.output\n', 'result["output"] = self.output_run\n')),
    ("thin-guard", "bad", (P, "        if self.header.n_task_quanta != {\n", "        if self.thin_graph.quanta and self.header.n_task_quanta != {\n")),
    ("count-guard", "bad", (P, "        if self.header.n_quanta != len(self.quantum_datasets):\n", "        if self.header.n_quanta < len(self.quantum_datasets):\n")),
    ("no-version", "bad", (P, "        self.header.version = FORMAT_VERSION\n", "        if self.header.version > FORMAT_VERSION:\n            self.header.version = FORMAT_VERSION\n")),
    ("skip-empty", "bad", (P, "                for quantum_model in self.quantum_datasets.values():\n                    if json_data", "                for quantum_model in self.quantum_datasets.values():\n                    if not quantum_model.inputs:\n                        continue\n                    if json_data")),
    ("islice-write", "bad", (P, "                for quantum_model in self.quantum_datasets.values():\n", "                for quantum_model in itertools.islice(self.quantum_datasets.values(), self.header.n_quanta):\n")),
    ("cache-key", "bad", (P, "                quantum_model.quantum_id: quantum_model.model_dump_json().encode()\n", "                quantum_model.task_label: quantum_model.model_dump_json().encode()\n")),
    ("no-compress", "bad", (P, "writer.compressor.compress(json_data)", "json_data")),
    ("addr-append-loop", "bad", (P, "            writer.address_writer.addresses.append(quantum_datasets_mb.addresses)\n", "            if quantum_datasets_json:\n                writer.address_writer.addresses.append(quantum_datasets_mb.addresses)\n")),
    ("n-addresses", "bad", (P, "            n_addresses=1,\n", "            n_addresses=2,\n")),
    ("addr-name", "bad", (P, '            address_filename="quanta",\n            page_size', '            address_filename="quantum",\n            page_size')),
    ("mb-name", "bad", (P, '                    "quantum_datasets",\n                    PredictedQuantumDatasetsModel,', '                    "quanta",\n                    PredictedQuantumDatasetsModel,')),
    ("init-name", "bad", (P, 'writer.write_single_model("init_quanta", self.init_quanta)', 'writer.write_single_model("init", self.init_quanta)')),
    ("init-cond", "bad", (P, '            writer.write_single_model("init_quanta", self.init_quanta)', '            if len(self.init_quanta.root) > 1:\n                writer.write_single_model("init_quanta", self.init_quanta)')),
    ("swap-dest", "bad", (P, 'writer.write_single_model("init_quanta", self.init_quanta)', 'writer.write_single_model("init_quanta", self.thin_graph)')),
    ("count-lt", "bad", (P, "            if len(self.components.quantum_datasets) != self.header.n_quanta:\n", "            if not self.components.quantum_datasets:\n")),
    ("req-break", "bad", (P, "                if quantum_id in self.components.quantum_datasets:\n                    continue\n", "                if quantum_id in self.components.quantum_datasets:\n                    break\n")),
    ("req-skip", "bad", (P, "                if quantum_id in self.components.quantum_datasets:\n                    continue\n", "                if self.components.quantum_datasets:\n                    continue\n")),
    ("addr-index", "bad", (P, "address_row.addresses[0], PredictedQuantumDatasetsModel", "address_row.addresses[-1], PredictedQuantumDatasetsModel")),
    ("exec-no-dims", "bad", (P, "        self.read_init_quanta()\n        self.read_dimension_data()\n        self.read_quantum_datasets(quantum_ids)", "        self.read_init_quanta()\n        if quantum_ids is None:\n            self.read_dimension_data()\n        self.read_quantum_datasets(quantum_ids)")),
    ("exec-no-ids", "bad", (P, "        self.read_quantum_datasets(quantum_ids)\n", "        self.read_quantum_datasets()\n")),
    ("thin-version", "bad", (P, "            if self.header.version > 0:", "            if self.header.version >= 0:")),
    ("thin-edges", "bad", (P, "            edges=[(uuid_by_index[index1], uuid_by_index[index2]) for index1, index2 in self.edges],", "            edges=[(uuid_by_index[index1], uuid_by_index[index2]) for index2, index1 in self.edges],")),
    ("ds-values", "bad", (P, "            data_coordinate=list(ref.dataId.full_values),\n", "            data_coordinate=list(ref.dataId.required_values),\n")),
    ("ds-name", "bad", (P, "            dataset_type_name=dataset_type_name,\n            data_coordinate=list(ref", "            dataset_type_name=ref.datasetType.name,\n            data_coordinate=list(ref")),
    ("ds-norun", "bad", (P, "            run=ref.run,\n        )", "        )")),
    ("out-as-in", "bad", (P, "            refs = sorted(quantum.outputs[write_edge.dataset_type_name], key=lambda ref: ref.dataId)", "            refs = sorted(quantum.inputs[write_edge.dataset_type_name], key=lambda ref: ref.dataId)")),
    ("no-components-check", "bad", (P, '        self.header.graph_type = "predicted"', '        self.header.graph_type = "prediction"')),
    # behaviour-preserving
    ("helper-name", "ok", [(C, 'self.zf.writestr(f"{name}.json.zst", json_data)', 'self.zf.writestr(_block_name(name), json_data)'),
                           (C, 'compressed_data = self.zf.read(f"{name}.json.zst")', 'compressed_data = self.zf.read(_block_name(name))'),
                           (C, 'compressed_data = zf.read(f"{name}.json.zst")', 'compressed_data = zf.read(_block_name(name))'),
                           (C, "class HeaderModel(", 'def _block_name(name: str) -> str:\n    return f"{name}.json.zst"\n\n\nclass HeaderModel(')]),
    ("raw-uses-helper", "ok", [(C, '        compressed_data = zf.read(f"{name}.json.zst")\n        json_data = decompressor.decompress(compressed_data)\n        return model_type.model_validate_json(json_data)', '        return model_type.model_validate_json(decompressor.decompress(zf.read(f"{name}.json.zst")))')]),
    ("inline-version", "ok", (P, "            if self.header.version > 0:", "            if not self.header.version <= 0:")),
    ("flip-version", "ok", [(P, "            if self.header.version > 0:\n                self.components.thin_graph = self._read_single_block(\"thin_graph\", PredictedThinGraphModel)\n            else:\n", "            if self.header.version >= 1:\n                self.components.thin_graph = self._read_single_block(\"thin_graph\", PredictedThinGraphModel)\n            else:\n")]),
    ("early-return", "ok", (P, "            if len(self.components.quantum_datasets) != self.header.n_quanta:\n                for quantum_datasets in", "            if len(self.components.quantum_datasets) == self.header.n_quanta:\n                return\n            if True:\n                for quantum_datasets in")),
    ("write-helper", "ok", [(P, "            writer.write_single_model(\"thin_graph\", self.thin_graph)\n            if self.dimension_data is None:", "            self._w(writer)\n            if self.dimension_data is None:"),
                            (P, "    def set_thin_graph(self) -> None:", "    def _w(self, writer: BaseQuantumGraphWriter) -> None:\n        writer.write_single_model(\"thin_graph\", self.thin_graph)\n\n    def set_thin_graph(self) -> None:")]),
    ("nested-if", "ok", (P, "                    if json_data := quantum_datasets_json.get(quantum_model.quantum_id):\n                        quantum_datasets_mb.write_bytes(\n                            quantum_model.quantum_id, writer.compressor.compress(json_data)\n                        )\n                    else:\n                        quantum_datasets_mb.write_model(\n                            quantum_model.quantum_id, quantum_model, writer.compressor\n                        )\n", "                    qid = quantum_model.quantum_id\n                    json_data = quantum_datasets_json.get(qid)\n                    if json_data is None:\n                        json_data = quantum_model.model_dump_json().encode()\n                    quantum_datasets_mb.write_bytes(qid, writer.compressor.compress(json_data))\n")),
    ("items-loop", "ok", (P, "                for quantum_model in self.quantum_datasets.values():\n                    if json_data := quantum_datasets_json.get(quantum_model.quantum_id):", "                for quantum_model in list(self.quantum_datasets.values()):\n                    if json_data := quantum_datasets_json.get(quantum_model.quantum_id):")),
    ("guard-order", "ok", (P, "        if self.header.n_quanta != len(self.quantum_datasets):\n", "        n = len(self.quantum_datasets)\n        if n != self.header.n_quanta:\n")),
    ("counts-var", "ok", (P, "        if self.header.n_task_quanta != {\n            task_label: len(quanta) for task_label, quanta in self.thin_graph.quanta.items()\n        }:\n", "        counts = {task_label: len(quanta) for task_label, quanta in self.thin_graph.quanta.items()}\n        if counts != self.header.n_task_quanta:\n")),
    ("not-in", "ok", (P, "                if quantum_id in self.components.quantum_datasets:\n                    continue\n                address_row = self.address_reader.find(quantum_id)\n                quantum_datasets = mb_reader.read_model(\n                    address_row.addresses[0], PredictedQuantumDatasetsModel, self.decompressor\n                )\n                if quantum_datasets is not None:\n                    self.components.quantum_datasets[address_row.key] = quantum_datasets\n", "                if quantum_id not in self.components.quantum_datasets:\n                    row = self.address_reader.find(quantum_id)\n                    address = row.addresses[0]\n                    model = mb_reader.read_model(address, PredictedQuantumDatasetsModel, self.decompressor)\n                    if model is None:\n                        continue\n                    self.components.quantum_datasets[quantum_id] = model\n")),
    ("update-kw", "ok", (C, '        result["input"] = self.inputs\n        result["output"] = self.output\n', '        result.update(input=self.inputs, output=self.output)\n')),
    ("comp-model", "ok", (P, "        for read_edge in task_node.iter_all_inputs():\n            refs = sorted(quantum.inputs[read_edge.dataset_type_name], key=lambda ref: ref.dataId)\n            result.inputs[read_edge.connection_name] = [\n                PredictedDatasetModel.from_dataset_ref(ref) for ref in refs\n            ]\n", "        result.inputs = {\n            e.connection_name: [\n                PredictedDatasetModel.from_dataset_ref(ref)\n                for ref in sorted(quantum.inputs[e.dataset_type_name], key=lambda ref: ref.dataId)\n            ]\n            for e in task_node.iter_all_inputs()\n        }\n")),
]
