F = "graph_walker.py"
CASES = [
    ("any-pred", "bad", (F, "            if all(\n", "            if any(\n")),
    ("no-clear", "bad", (F, "        self._ready.clear()\n", "")),
    ("no-check", "bad", (F, "                self._ready.add(successor)", "                pass\n            self._ready.add(successor)")),
    ("active-instead", "bad", (F, "predecessor not in self._incomplete", "predecessor not in self._active")),
    ("fail-no-desc", "bad", (F, "        self._incomplete.difference_update(descendants)\n", "")),
    ("fail-succ-only", "bad", (F, "descendants = list(networkx.dag.descendants(self._xgraph, key))", "descendants = list(self._xgraph.successors(key))")),
    ("fail-returns-empty", "bad", (F, "        return descendants", "        return []")),
    ("break", "bad", (F, "                self._ready.add(successor)", "                self._ready.add(successor)\n                break")),
    ("stop-early", "bad", (F, "        if not self._incomplete:\n            raise StopIteration()", "        if not self._ready:\n            raise StopIteration()")),
    ("loop-form", "ok", (F, """            if all(
                predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
            ):
                self._ready.add(successor)""", """            for predecessor in self._xgraph.predecessors(successor):
                if predecessor in self._incomplete:
                    break
            else:
                self._ready.add(successor)""")),
    ("flag-form", "ok", (F, """            if all(
                predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
            ):
                self._ready.add(successor)""", """            ready = True
            for predecessor in self._xgraph.predecessors(successor):
                if predecessor in self._incomplete:
                    ready = False
                    break
            if ready:
                self._ready.add(successor)""")),
    ("helper-form", "ok", (F, """            if all(
                predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
            ):
                self._ready.add(successor)
""", """            if self._is_ready(successor):
                self._ready.add(successor)

    def _is_ready(self, node):
        return not any(p in self._incomplete for p in self._xgraph.predecessors(node))
""")),
    ("isdisjoint", "ok", (F, """            if all(
                predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
            ):""", """            if self._incomplete.isdisjoint(self._xgraph.predecessors(successor)):""")),
    ("comp-update", "ok", (F, """            if all(
                predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
            ):
                self._ready.add(successor)
""", """            blocked = [p for p in self._xgraph.predecessors(successor) if p in self._incomplete]
            if not blocked:
                self._ready.add(successor)
""")),
    ("swap-next", "ok", (F, """        new_active = frozenset(self._ready)
        self._active.update(new_active)
        self._ready.clear()
        return new_active""", """        new_active, self._ready = self._ready, set()
        self._active |= new_active
        return frozenset(new_active)""")),
    ("update-comp", "ok", (F, """        for successor in successors:
            assert successor not in self._active, (
                "A node downstream of an active one should not have been yielded yet."
            )
            if all(
                predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
            ):
                self._ready.add(successor)
""", """        self._ready.update(
            s for s in successors if not any(p in self._incomplete for p in self._xgraph.predecessors(s))
        )
""")),
]
