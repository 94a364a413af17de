B = "quantum_graph_builder.py"
S = "quantum_graph_skeleton.py"
C = "connections.py"
CASES = [
    ("nowork-kept", "bad", (B, "                    quantum_key.task_label,\n                    details,\n                )\n                no_work_quanta.append(quantum_key)\n                continue", "                    quantum_key.task_label,\n                    details,\n                )\n                continue")),
    ("nowork-keep-outputs", "bad", (B, "skeleton.remove_quantum_node(no_work_quantum, remove_outputs=True)", "skeleton.remove_quantum_node(no_work_quantum, remove_outputs=False)")),
    ("nowork-set", "ok", (B, "        no_work_quanta = []\n", "        no_work_quanta: list[QuantumKey] = list()\n")),
    ("catch-all", "bad", (B, "            except NoWorkFound as err:\n                # Do not generate", "            except Exception as err:\n                # Do not generate")),
    ("swap-removed", "bad", (B, "self._find_removed(skeleton.iter_outputs_of(quantum_key), helper.outputs)", "self._find_removed(skeleton.iter_outputs_of(quantum_key), helper.inputs)")),
    ("pre-adjusted-stored", "bad", (B, 'skeleton[quantum_key]["inputs"] = helper.inputs', 'skeleton[quantum_key]["inputs"] = adjusted_inputs')),
    ("state-local", "ok", (B, '            skeleton[quantum_key]["inputs"] = helper.inputs\n            skeleton[quantum_key]["outputs"] = helper.outputs\n', '            state = skeleton[quantum_key]\n            state["outputs"] = helper.outputs\n            state["inputs"] = helper.inputs\n')),
    ("removed-local", "ok", (B, "                skeleton.remove_dataset_nodes(\n                    self._find_removed(skeleton.iter_outputs_of(quantum_key), helper.outputs)\n                )\n", "                gone = self._find_removed(skeleton.iter_outputs_of(quantum_key), helper.outputs)\n                skeleton.remove_dataset_nodes(gone)\n")),
    ("inputs-nodes", "bad", (B, "                skeleton.remove_input_edges(\n                    quantum_key, self._find_removed(skeleton.iter_inputs_of(quantum_key), helper.inputs)\n                )", "                skeleton.remove_dataset_nodes(\n                    self._find_removed(skeleton.iter_inputs_of(quantum_key), helper.inputs)\n                )")),
    ("init-before", "bad", (B, "        no_work_quanta = []\n", "        self._resolve_task_init(task_node, skeleton, bool(skipped_quanta))\n        no_work_quanta = []\n"), (B, "        remaining_quanta = skeleton.get_quanta(task_node.label)\n        self._resolve_task_init(task_node, skeleton, bool(skipped_quanta))\n", "        remaining_quanta = skeleton.get_quanta(task_node.label)\n")),
    ("no-prereq", "bad", (C, "        for name in itertools.chain(connections.inputs, connections.prerequisiteInputs):\n            connection = getattr(connections, name)\n            dataset_type_name = connection.name\n            inputs_by", "        for name in itertools.chain(connections.inputs):\n            connection = getattr(connections, name)\n            dataset_type_name = connection.name\n            inputs_by")),
    ("no-subset", "bad", (C, "                if not set(updated_refs).issubset(self.outputs[dataset_type_name]):", "                if not set(updated_refs).issubset(updated_refs):")),
    ("subset-op", "ok", (C, "                if not set(updated_refs).issubset(self.outputs[dataset_type_name]):", "                if set(updated_refs) - set(self.outputs[dataset_type_name]):")),
    ("flag-once", "bad", (C, "            self.outputs_adjusted = True\n", "            self.outputs_adjusted = bool(adjusted_outputs) and self.inputs_adjusted\n")),
    ("orphan-global", "bad", (S, "            if not orphan.is_task and orphan not in self._global_init_outputs:\n", "            if not orphan.is_task:\n")),
    ("orphan-comp", "ok", (S, "            if not orphan.is_task and orphan not in self._global_init_outputs:\n                self._xgraph.remove_node(orphan)\n", "            if orphan.is_task:\n                continue\n            if orphan in self._global_init_outputs:\n                continue\n            self._xgraph.remove_node(orphan)\n")),
    ("removed-quantum-tasks", "bad", (S, "                _, quanta = self._tasks[node.task_label]\n                quanta.remove(node)\n", "")),
    ("no-descendants", "bad", (S, "        for quantum in unanchored:\n            to_remove.update(networkx.descendants(self._xgraph, quantum))\n", "")),
    ("anchors-desc", "bad", (S, "            reachable.update(networkx.ancestors(self._xgraph, quantum))", "            reachable.update(networkx.descendants(self._xgraph, quantum))")),
    ("second-gen", "bad", (S, "                result[dataset_key] = ref\n            break\n", "                result[dataset_key] = ref\n")),
    ("overall-next", "ok", (S, "                if (ref := self.get_dataset_ref(dataset_key)) is None:\n", "                ref = self.get_dataset_ref(dataset_key)\n                if ref is None:\n")),
    ("edge-reversed", "bad", (S, "        self._xgraph.add_edge(dataset_key, task_key)\n        return True", "        self._xgraph.add_edge(task_key, dataset_key)\n        return True")),
    ("set-data-id-way", "bad", (S, '            state["output_in_the_way"] = output_in_the_way.expanded(data_id)\n', '            state["output_for_skip"] = output_in_the_way.expanded(data_id)\n')),
    ("merge-lost", "bad", (S, "        self._xgraph.update(other._xgraph)\n", "        self._xgraph.add_nodes_from(other._xgraph)\n")),
]
