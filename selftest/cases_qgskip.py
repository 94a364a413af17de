B = "quantum_graph_builder.py"
A = "all_dimensions_quantum_graph_builder.py"
CASES = [
    ("log-output", "bad", (B, "            task_node.metadata_output.parent_dataset_type_name, quantum_key.data_id_values\n        )\n        return bool", "            task_node.log_output.parent_dataset_type_name, quantum_key.data_id_values\n        )\n        return bool")),
    ("dec-way", "bad", (B, "        return bool(skeleton.get_output_for_skip(metadata_dataset_key))", "        return bool(skeleton.get_output_in_the_way(metadata_dataset_key))")),
    ("dec-neg", "bad", (B, "        return bool(skeleton.get_output_for_skip(metadata_dataset_key))", "        return skeleton.get_output_for_skip(metadata_dataset_key) is None")),
    ("dec-isnot", "ok", (B, "        return bool(skeleton.get_output_for_skip(metadata_dataset_key))", "        return skeleton.get_output_for_skip(metadata_dataset_key) is not None")),
    ("dec-if", "ok", (B, "        return bool(skeleton.get_output_for_skip(metadata_dataset_key))", "        if skeleton.get_output_for_skip(metadata_dataset_key) is None:\n            return False\n        return True")),
    ("apply-nodiscard", "bad", (B, "            skeleton.discard_output_in_the_way(output_dataset_key)\n            if (output_ref", "            if (output_ref")),
    ("apply-keepmissing", "bad", (B, "                skeleton.remove_dataset_nodes([output_dataset_key])\n        # Removing", "                pass\n        # Removing")),
    ("apply-way", "bad", (B, "            if (output_ref := skeleton.get_output_for_skip(output_dataset_key)) is not None:", "            if (output_ref := skeleton.get_output_in_the_way(output_dataset_key)) is not None:")),
    ("apply-order", "ok", (B, "            if (output_ref := skeleton.get_output_for_skip(output_dataset_key)) is not None:\n                # Populate the skeleton graph's node attributes\n                # with the existing DatasetRef, just like a\n                # predicted output of a non-skipped quantum.\n                skeleton.set_dataset_ref(output_ref, output_dataset_key)\n            else:\n", "            output_ref = skeleton.get_output_for_skip(output_dataset_key)\n            if output_ref is not None:\n                skeleton.set_dataset_ref(output_ref, output_dataset_key)\n                continue\n            if True:\n")),
    ("res-default", "bad", (B, "                if skip_decisions.get(quantum_key, False):\n                    self._apply", "                if quantum_key in skip_decisions and not skip_decisions[quantum_key]:\n                    self._apply")),
    ("res-noapply", "bad", (B, "            elif self._compute_skip_decision(task_node, quantum_key, skeleton):\n                self._apply_skip_decision(task_node, quantum_key, skeleton)\n", "            elif self._compute_skip_decision(task_node, quantum_key, skeleton):\n")),
    ("res-noappend", "bad", (B, "                    skipped_quanta.append(quantum_key)\n                    continue\n            elif", "                    continue\n            elif")),
    ("res-remove-outputs", "bad", (B, "skeleton.remove_quantum_node(skipped_quantum, remove_outputs=False)", "skeleton.remove_quantum_node(skipped_quantum, remove_outputs=True)")),
    ("res-nocontinue", "bad", (B, "                skipped_quanta.append(quantum_key)\n                continue\n            quantum_data_id", "                skipped_quanta.append(quantum_key)\n            quantum_data_id")),
    ("res-merge", "ok", (B, "            if skip_decisions is not None:\n                if skip_decisions.get(quantum_key, False):\n                    self._apply_skip_decision(task_node, quantum_key, skeleton)\n                    skipped_quanta.append(quantum_key)\n                    continue\n            elif self._compute_skip_decision(task_node, quantum_key, skeleton):\n", "            if skip_decisions is not None:\n                skip = skip_decisions.get(quantum_key, False)\n            else:\n                skip = self._compute_skip_decision(task_node, quantum_key, skeleton)\n            if skip:\n")),
    ("res-nobounds", "bad", (B, "        task_prerequisite_info.update_bounds()\n", "")),
    ("order", "bad", (B, "                for task_node in self._pipeline_graph.tasks.values():\n                    skipped_quanta[task_node.label] = self._resolve_task_quanta(task_node, full_skeleton)\n", "                for task_node in self._pipeline_graph.tasks.values():\n                    skipped_quanta[task_node.label] = self._resolve_task_quanta(task_node, full_skeleton)\n                    self._adjust_task_quanta(task_node, full_skeleton, skipped_quanta[task_node.label])\n")),
    ("no-unskip", "bad", (B, "                n_unskipped = self._unskip_ancestors(full_skeleton, skip_decisions, retained_types)\n", "                n_unskipped = 0\n")),
    ("unskip-ignored", "bad", (B, "                        task_node, full_skeleton, skip_decisions=skip_decisions\n", "                        task_node, full_skeleton\n")),
    ("subgraph-skip", "bad", (B, "                full_skeleton.update(subgraph_skeleton)\n", "                if subgraph_skeleton.has_any_quanta:\n                    full_skeleton = subgraph_skeleton\n")),
    ("unskip-notransitive", "bad", (B, "                    skip_decisions[producer_key] = False\n                    queue.append(producer_key)\n", "                    skip_decisions[producer_key] = False\n")),
    ("unskip-retained-neg", "bad", (B, "                if input_key.parent_dataset_type_name in retained:\n                    continue\n", "                if input_key.parent_dataset_type_name not in retained:\n                    continue\n")),
    ("unskip-prereq", "bad", (B, "                if input_key.is_prerequisite:\n                    continue\n", "                if not input_key.is_prerequisite:\n                    continue\n")),
    ("unskip-break", "bad", (B, "                if producer_key in visited:\n                    continue\n", "                if producer_key in visited:\n                    break\n")),
    ("unskip-exists", "bad", (B, "                if producer_key in visited:\n                    continue\n", "                if producer_key in visited or skeleton.get_output_for_skip(input_key) is not None:\n                    continue\n")),
    ("unskip-seed", "bad", (B, "            qk for qk, skip in skip_decisions.items() if not skip\n", "            qk for qk, skip in skip_decisions.items() if skip\n")),
    ("clobber", "bad", (B, "            elif not self.clobber:\n                # We", "            elif not self.clobber and ref.run != self.output_run:\n                # We")),
    ("clobber-inv", "bad", (B, "            elif not self.clobber:\n                # We", "            elif self.clobber:\n                # We")),
    ("newref", "bad", (B, "            if (ref := skeleton.get_output_in_the_way(dataset_key)) is None:\n                ref = DatasetRef(dataset_type_node.dataset_type, dataset_data_id, run=self.output_run)\n", "            if (ref := skeleton.get_output_in_the_way(dataset_key)) is None or self.clobber:\n                ref = DatasetRef(dataset_type_node.dataset_type, dataset_data_id, run=self.input_collections[0])\n")),
    ("missing-input", "bad", (B, "                skeleton.remove_dataset_nodes([dataset_key])\n                continue\n            skypix", "                continue\n            skypix")),
    ("init-starts", "bad", (B, "self.skip_existing_starts_with_output_run = self.output_run == skip_existing_in_flat[0]", "self.skip_existing_starts_with_output_run = self.output_run in skip_existing_in_flat")),
    ("init-clobber", "bad", (B, "            self.output_run_exists = True\n        except", "            self.output_run_exists = True\n            self.clobber = bool(clobber or skip_existing_in)\n        except")),
    ("init-exists", "bad", (B, "            self.output_run_exists = True\n        except", "            if not skip_existing_in:\n                self.output_run_exists = True\n        except")),
    ("empty-way", "bad", (B, "                    if ref.run == self.output_run:\n                        outputs_in_the_way[key] = ref\n            if self.output_run_exists", "            if self.output_run_exists and not self.skip_existing_in and not self.skip_existing_starts_with_output_run:\n                pass\n            if not self.skip_existing_in and self.output_run_exists")),
    ("empty-elif", "bad", (B, "            if self.output_run_exists and not self.skip_existing_starts_with_output_run:\n                # ...or", "            elif self.output_run_exists and not self.skip_existing_starts_with_output_run:\n                # ...or")),
    ("empty-inputs-cols", "bad", (B, "ref = self.butler.find_dataset(dataset_type.name, collections=self.skip_existing_in)", "ref = self.butler.find_dataset(dataset_type.name, collections=self.input_collections)")),
    ("empty-lost", "bad", (B, "                if ref is not None:\n                    outputs_in_the_way[key] = ref\n", "                if ref is not None and key in outputs_for_skip:\n                    outputs_in_the_way[key] = ref\n")),
    ("init-missing", "bad", (B, "                if (ref := self.empty_dimensions_datasets.outputs_for_skip.get(dataset_key)) is None:\n                    raise", "                if (ref := self.empty_dimensions_datasets.outputs_for_skip.get(dataset_key)) is None:\n                    continue\n                if ref is None:\n                    raise")),
    ("init-way", "bad", (B, "                if (ref := self.empty_dimensions_datasets.outputs_in_the_way.get(dataset_key)) is None:\n", "                ref = None\n                if ref is None:\n")),
    ("fu-way", "bad", (A, "                                if ref.run == self.output_run:\n                                    skeleton.set_output_in_the_way(ref)\n", "")),
    ("fu-elif", "bad", (A, "                    if self.output_run_exists and not self.skip_existing_starts_with_output_run:\n                        # ...or", "                    elif self.output_run_exists and not self.skip_existing_starts_with_output_run:\n                        # ...or")),
    ("fu-producer", "bad", (A, "                    if tree.subgraph.producer_of(dataset_type_node.name) is None:\n", "                    if tree.subgraph.producer_of(dataset_type_node.name) is None or self.skip_existing_in:\n")),
    ("fu-colls", "bad", (A, "butler_query.datasets(dataset_type_node.name, [self.output_run])", "butler_query.datasets(dataset_type_node.name, self.skip_existing_in)")),
    ("fu-empty", "bad", (A, "                    if ref := self.empty_dimensions_datasets.outputs_in_the_way.get(dataset_key):\n                        skeleton.set_output_in_the_way(ref)\n", "")),
    ("fu-empty-elif", "bad", (A, "                    if ref := self.empty_dimensions_datasets.outputs_in_the_way.get(dataset_key):", "                    elif ref := self.empty_dimensions_datasets.outputs_in_the_way.get(dataset_key):")),
    ("fu-continue", "ok", (A, "                                skeleton.set_output_for_skip(ref)\n                                count += 1\n                                if ref.run == self.output_run:\n                                    skeleton.set_output_in_the_way(ref)\n", "                                count += 1\n                                if ref.run == self.output_run:\n                                    skeleton.set_output_in_the_way(ref)\n                                skeleton.set_output_for_skip(ref)\n")),
    ("fu-helper", "ok", [(A, "                        try:\n                            for ref in butler_query.datasets(dataset_type_node.name, [self.output_run]):\n                                skeleton.set_output_in_the_way(ref)\n                                count += 1\n                        except MissingDatasetTypeError:\n                            pass\n", "                        count = self._mark_in_the_way(butler_query, dataset_type_node, skeleton)\n"),
                         (A, "    @timeMethod\n    def _find_followup_datasets(", "    def _mark_in_the_way(self, q, node, skeleton):\n        n = 0\n        try:\n            for ref in q.datasets(node.name, [self.output_run]):\n                skeleton.set_output_in_the_way(ref)\n                n += 1\n        except MissingDatasetTypeError:\n            pass\n        return n\n\n    @timeMethod\n    def _find_followup_datasets(")]),
    ("up-helper", "ok", [(B, "            if (ref := skeleton.get_output_in_the_way(dataset_key)) is None:\n                ref = DatasetRef(dataset_type_node.dataset_type, dataset_data_id, run=self.output_run)\n            elif not self.clobber:", "            existing = skeleton.get_output_in_the_way(dataset_key)\n            ref = existing\n            if existing is None:\n                ref = DatasetRef(dataset_type_node.dataset_type, dataset_data_id, run=self.output_run)\n            elif not self.clobber:")]),
]
