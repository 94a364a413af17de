C = "caching_limited_butler.py"
B = "blocking_limited_butler.py"
PRUNE = """        pruned_ids = {ref.id for ref in refs}
        for name, (dataset_id, _) in list(self._cache.items()):
            if dataset_id in pruned_ids:
                del self._cache[name]
"""
CASES = [
    ("get-no-id", "bad", (C, "            if dataset_id == ref.id:  # if we do", "            if dataset_id:  # if we do")),
    ("get-dataid", "bad", (C, "            if dataset_id == ref.id:  # if we do", "            if handle.dataId == ref.dataId:  # if we do")),
    ("stored-no-id", "bad", (C, "                if dataset_id == ref.id:\n                    result[ref] = True\n                    continue", "                result[ref] = True\n                continue")),
    ("stored-drop-mismatch", "bad", (C, "                    result[ref] = True\n                    continue", "                    result[ref] = True\n                continue")),
    ("cache-params", "bad", (C, " in self._cache_on_get and not parameters:", " in self._cache_on_get:")),
    ("cache-params-inv", "bad", (C, " in self._cache_on_get and not parameters:", " in self._cache_on_get and parameters is not None:")),
    ("return-obj", "bad", (C, "            return handle.get()\n", "            return obj\n")),
    ("no-params-hit", "bad", (C, "handle.get(parameters=parameters, storageClass=storageClass)", "handle.get(storageClass=storageClass)")),
    ("no-sc-hit", "bad", (C, "handle.get(parameters=parameters, storageClass=storageClass)", "handle.get(parameters=parameters)")),
    ("cache-before-put", "bad", [(C, "        result = self._wrapped.put(obj, ref, provenance=provenance)\n", ""), (C, "        return result\n\n    def pruneDatasets", "        return self._wrapped.put(obj, ref, provenance=provenance)\n\n    def pruneDatasets")]),
    ("put-wrong-set", "bad", (C, "if ref.datasetType.name in self._cache_on_put:", "if ref.datasetType.name in self._cache_on_get:")),
    ("no-evict", "bad", (C, PRUNE, "")),
    ("evict-own-name", "bad", (C, PRUNE, "        for ref in refs:\n            if cached := self._cache.get(ref.datasetType.name):\n                if cached[0] == ref.id:\n                    del self._cache[ref.datasetType.name]\n")),
    ("evict-unstore-only", "bad", (C, "            if dataset_id in pruned_ids:\n", "            if dataset_id in pruned_ids and unstore:\n")),
    ("prune-consumed", "bad", (C, "        refs = list(refs)\n        # Comp", "        # Comp")),
    ("prune-not-fwd", "bad", (C, "refs, disassociate=disassociate, unstore=unstore, tags=tags, purge=purge", "refs, disassociate=disassociate, unstore=unstore, tags=tags")),
    ("no-provenance", "bad", (C, "self._wrapped.put(obj, ref, provenance=provenance)", "self._wrapped.put(obj, ref)")),
    ("no-copy-inverted", "bad", (C, "copy=ref.datasetType.name not in self._no_copy_on_cache,\n            )", "copy=ref.datasetType.name in self._no_copy_on_cache,\n            )")),
    ("wrong-id", "bad", (C, "self._cache[ref.datasetType.name] = (ref.id, handle)", "self._cache[ref.datasetType.name] = (ref.dataId, handle)")),
    ("deferred-params", "bad", (C, "getDeferred(ref, parameters=parameters, storageClass=storageClass)", "getDeferred(ref, storageClass=storageClass)")),
    # ok
    ("prune-dict", "ok", (C, PRUNE, "        gone = {ref.id for ref in refs}\n        self._cache = {k: v for k, v in self._cache.items() if v[0] not in gone}\n")),
    ("prune-clear", "ok", (C, PRUNE, "        self._cache.clear()\n")),
    ("prune-pop", "ok", (C, PRUNE, "        gone = {ref.id for ref in refs}\n        stale = [k for k, v in self._cache.items() if v[0] in gone]\n        for k in stale:\n            self._cache.pop(k)\n")),
    ("get-helper", "ok", [(C, "        if cached := self._cache.get(ref.datasetType.name):\n            dataset_id, handle = cached\n            if dataset_id == ref.id:  # if we do, check it's the right object\n                _LOG", "        handle = self._lookup(ref)\n        if handle is not None:\n            if True:\n                _LOG"),
        (C, "    def getDeferred(\n", "    def _lookup(self, ref):\n        cached = self._cache.get(ref.datasetType.name)\n        if cached is None:\n            return None\n        dataset_id, handle = cached\n        if dataset_id != ref.id:\n            return None\n        return handle\n\n    def getDeferred(\n")]),
    ("get-index", "ok", (C, "            dataset_id, handle = cached\n            if dataset_id == ref.id:  # if we do, check it's the right object\n", "            handle = cached[1]\n            if ref.id == cached[0]:\n")),
    ("get-early", "ok", (C, "        if ref.datasetType.name in self._cache_on_get and not parameters:\n", "        if parameters or ref.datasetType.name not in self._cache_on_get:\n            return obj\n        if True:\n")),
    ("stored-else", "ok", (C, """            if cached := self._cache.get(ref.datasetType.name):
                dataset_id, _ = cached
                if dataset_id == ref.id:
                    result[ref] = True
                    continue
            unknown_refs.append(ref)
""", """            cached = self._cache.get(ref.datasetType.name)
            if cached is not None and cached[0] == ref.id:
                result[ref] = True
            else:
                unknown_refs.append(ref)
""")),
    ("put-helper", "ok", [(C, """            self._cache[ref.datasetType.name] = (
                ref.id,
                InMemoryDatasetHandle(
                    obj,
                    storageClass=ref.datasetType.storageClass,
                    dataId=ref.dataId,
                    copy=ref.datasetType.name not in self._no_copy_on_cache,
                ),
            )
""", "            self._add(obj, ref)\n"), (C, "    def getDeferred(\n", """    def _add(self, obj, ref):
        name = ref.datasetType.name
        handle = InMemoryDatasetHandle(
            obj, storageClass=ref.datasetType.storageClass, dataId=ref.dataId, copy=name not in self._no_copy_on_cache
        )
        self._cache[name] = (ref.id, handle)

    def getDeferred(
""")]),
    # blocking
    ("b-elapsed-lt", "bad", (B, "                    if elapsed > timeout:", "                    if elapsed < timeout:")),
    ("b-no-raise", "bad", (B, "Timed out after {elapsed:03f}s.\")\n                        raise\n", "Timed out after {elapsed:03f}s.\")\n")),
    ("b-none-raises", "bad", (B, "                if timeout is not None:", "                if timeout is None:\n                    raise\n                else:")),
    ("b-truthy", "bad", (B, "                if timeout is not None:", "                if timeout:")),
    ("b-except-all", "bad", (B, "            except FileNotFoundError as err:", "            except Exception as err:")),
    ("b-clock-stuck", "bad", [(B, "        while True:\n            try:", "        elapsed = time.time() - start\n        while True:\n            try:"), (B, "                    elapsed = time.time() - start\n                    if", "                    if")]),
    ("b-component", "bad", (B, "parent_dataset_type_name = ref.datasetType.nameAndComponent()[0]", "parent_dataset_type_name = ref.datasetType.name")),
    ("b-default-none", "bad", (B, "self._timeouts.get(parent_dataset_type_name, 0.0)", "self._timeouts.get(parent_dataset_type_name)")),
    ("b-many-default-none", "bad", (B, "self._timeouts.get(ref.datasetType.nameAndComponent()[0], 0.0)", "self._timeouts.get(ref.datasetType.nameAndComponent()[0], None)")),
    ("b-many-or", "bad", (B, "if not exists and (timeout is None or elapsed <= timeout):", "if not exists and timeout and elapsed <= timeout:")),
    ("b-many-exists", "bad", (B, "if not exists and (timeout is None or elapsed <= timeout):", "if timeout is None or elapsed <= timeout:")),
    ("b-many-inverted", "bad", (B, "elapsed <= timeout):", "elapsed > timeout):")),
    ("b-many-no-update", "bad", (B, "            result.update(self._wrapped.stored_many(remaining))", "            result = self._wrapped.stored_many(remaining)")),
    ("b-many-break", "bad", (B, "                    remaining.append(ref)\n", "                    remaining.append(ref)\n                else:\n                    return result\n")),
    ("b-put-prov", "bad", (B, "self._wrapped.put(obj, ref, provenance=provenance)", "self._wrapped.put(obj, ref)")),
    ("b-ok-monotonic", "ok", [(B, "start = time.time()", "start = time.monotonic()"), (B, "elapsed = time.time() - start", "elapsed = time.monotonic() - start")]),
    ("b-ok-flip", "ok", (B, "                    if elapsed > timeout:", "                    if timeout < elapsed:")),
    ("b-ok-comp", "ok", (B, """            remaining: list[DatasetRef] = []
            for ref, exists in result.items():
                timeout = timeouts[ref.id]
                if not exists and (timeout is None or elapsed <= timeout):
                    _LOG.info(
                        f"Dataset {ref.datasetType} not immediately available for {ref.id}, "
                        f"waiting {timeout}s"
                    )
                    remaining.append(ref)
""", """            remaining = [ref for ref, exists in result.items() if not exists and (timeouts[ref.id] is None or elapsed <= timeouts[ref.id])]
""")),
    ("b-ok-continue", "ok", (B, "                if not exists and (timeout is None or elapsed <= timeout):\n", "                if exists:\n                    continue\n                if timeout is None or not elapsed > timeout:\n")),
    ("b-ok-helper", "ok", [(B, "        parent_dataset_type_name = ref.datasetType.nameAndComponent()[0]\n        timeout = self._timeouts.get(parent_dataset_type_name, 0.0)\n", "        timeout = self._timeout_for(ref)\n"),
        (B, "self._timeouts.get(ref.datasetType.nameAndComponent()[0], 0.0)", "self._timeout_for(ref)"), (B, "    def getDeferred(\n", "    def _timeout_for(self, ref):\n        name, _ = ref.datasetType.nameAndComponent()\n        return self._timeouts.get(name, 0.0)\n\n    def getDeferred(\n")]),
]
