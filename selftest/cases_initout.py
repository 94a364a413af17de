Q = "quantum_graph/_predicted.py"
G = "graph/graph.py"
P = "pipeline_graph/_pipeline_graph.py"
CFG = "            try:\n                old_config = butler.get(ref)\n            except (LookupError, FileNotFoundError):\n                old_config = None\n"
CASES = []
for nm, F in (("q", Q), ("g", G)):
    CASES += [
        (nm + "-swallow", "bad", (F, CFG, CFG.replace("(LookupError, FileNotFoundError)", "Exception"))),
        (nm + "-immediate", "bad", (F, "                to_put.append((task_node.config, ref))\n", "                butler.put(task_node.config, ref)\n")),
        (nm + "-nocompare-flag", "bad", (F, '                if not compare_existing:\n                    raise ConflictingDefinitionError(f"Config dataset {ref} already exists.")\n', "")),
        (nm + "-mismatch", "bad", (F, "                if not task_node.config.compare(old_config, shortcut=False, output=log_config_mismatch):\n                    raise", "                if not task_node.config.compare(old_config, shortcut=False, output=log_config_mismatch) and not old_config:\n                    raise")),
        (nm + "-swallow-pkg", "bad", (F, "            packages = butler.get(ref)\n        except (LookupError, FileNotFoundError):", "            packages = butler.get(ref)\n        except Exception:")),
        (nm + "-pkg-cmp", "bad", (F, "            if compare_packages(packages, new_packages):\n", "            if len(packages) != len(new_packages) and compare_packages(packages, new_packages):\n")),
        (nm + "-pkg-lost", "bad", (F, "                butler.put(packages, ref)", "                butler.put(new_packages, ref)")),
        (nm + "-pkg-noprune", "bad", (F, "                butler.pruneDatasets([ref], unstore=True, purge=True)\n", "")),
        (nm + "-run-existing", "bad", (F, "        self.write_init_outputs(butler, skip_existing=existing)\n", "        self.write_init_outputs(butler)\n")),
        (nm + "-run-order", "ok", (F, "        self.write_configs(butler, compare_existing=existing)\n        self.write_packages(butler, compare_existing=existing)\n", "        self.write_packages(butler, compare_existing=existing)\n        self.write_configs(butler, compare_existing=existing)\n")),
        (nm + "-none-first", "ok", (F, "            if old_config is not None:\n                if not compare_existing:", "            if old_config is None:\n                to_put.append((task_node.config, ref))\n            else:\n                if not compare_existing:")),
        (nm + "-contextlib", "ok", (F, CFG, "            old_config = None\n            try:\n                old_config = butler.get(ref)\n            except (FileNotFoundError, LookupError):\n                pass\n")),
        (nm + "-same-bool", "ok", (F, "            if compare_packages(packages, new_packages):\n", "            updated = compare_packages(packages, new_packages)\n            if updated:\n")),
    ]
# the None-first variant above leaves the old else in place: fix it up
CASES = [(n, e, [ed, (ed[0], '                        "butler; tasks configurations must be consistent within the same run collection."\n                    )\n            else:\n                to_put.append((task_node.config, ref))\n', '                        "butler; tasks configurations must be consistent within the same run collection."\n                    )\n')]) if n.endswith("none-first") else (n, e, ed) for n, e, ed in CASES]
CASES += [
    ("diff-ignore", "bad", (P, "    if diff:\n        versions_str", "    if diff and len(diff) > 1:\n        versions_str")),
    ("diff-extra-ret", "bad", (P, "        packages.update(new_packages)\n        return True", "        packages.update(new_packages)\n        return bool(diff)")),
    ("extra-swap", "bad", (P, "extra = new_packages.extra(packages)", "extra = packages.extra(new_packages)")),
    ("reg-conflict", "bad", (P, "            elif expected != dataset_type:\n                raise ConflictingDefinitionError(\n                    f\"DatasetType definition in registry", "            elif expected != dataset_type and not expected.is_compatible_with(dataset_type):\n                raise ConflictingDefinitionError(\n                    f\"DatasetType definition in registry")),
    ("reg-missing", "bad", (P, "                    missing_dataset_types.append(dataset_type.name)\n", "                    if self.consumers_of(dataset_type.name):\n                        missing_dataset_types.append(dataset_type.name)\n")),
    ("pg-noraise", "bad", (P, "        if missing_dataset_types:\n            plural", "        if len(missing_dataset_types) > 1:\n            plural")),
    ("inst-unresolved", "bad", (P, '        if not self.is_fully_resolved:\n            raise UnresolvedGraphError("Pipeline graph must be fully resolved before instantiating tasks.")\n', "")),
    ("inst-handle", "ok", (P, "                if (handle := handles.get(read_edge.dataset_type_name)) is not None:\n", "                handle = handles.get(read_edge.dataset_type_name)\n                if handle is not None:\n")),
    ("register-skip", "bad", (P, "            butler.registry.registerDatasetType(", "            if dataset_type.dimensions:\n                butler.registry.registerDatasetType(")),
    ("all-collections", "bad", (P, "collections=butler.run", "collections=None")),
]
