S = "_status.py"
R = "quantum_reports.py"
CASES = [
    ("order", "bad", (S, '    NO_WORK = enum.auto()\n', '    FOO = enum.auto()\n    NO_WORK = enum.auto()\n')),
    ("value", "bad", (S, "    FAILED = -1\n", "    FAILED = -5\n")),
    ("shared", "bad", (S, "    ABORTED = -4\n", "    ABORTED = -3\n")),
    ("has-log", "bad", (S, "return self is self.SUCCESSFUL or self is self.FAILED", "return self is self.SUCCESSFUL or self is self.FAILED or self is self.ABORTED")),
    ("has-md", "bad", (S, "return self is self.SUCCESSFUL or self is self.ABORTED_SUCCESS", "return self is self.SUCCESSFUL")),
    ("adjust", "bad", (S, "cls.NO_WORK | cls.ADJUST_QUANTUM_RAISED | cls.ANY_OUTPUTS_MISSING | cls.ALL_OUTPUTS_MISSING", "cls.NO_WORK | cls.ADJUST_QUANTUM_RAISED | cls.ALL_OUTPUTS_MISSING")),
    ("legend", "bad", (S, '            "U": "one or more', '            "V": "one or more')),
    ("concise-order", "bad", [(S, "        if self & QuantumSuccessCaveats.ALL_OUTPUTS_MISSING:\n            char1 = \"*\"\n        elif self & QuantumSuccessCaveats.ANY_OUTPUTS_MISSING:\n            char1 = \"+\"", "        if self & QuantumSuccessCaveats.ANY_OUTPUTS_MISSING:\n            char1 = \"+\"\n        elif self & QuantumSuccessCaveats.ALL_OUTPUTS_MISSING:\n            char1 = \"*\"")]),
    ("concise-swap", "bad", [(S, 'char2 = "D"', 'char2 = "X"'), (S, 'char2 = "U"', 'char2 = "D"'), (S, 'char2 = "X"', 'char2 = "U"')]),
    ("nowork-exception", "bad", (S, "class NoWorkFound(BaseException):", "class NoWorkFound(RuntimeError):")),
    ("upstream-flags", "bad", (S, "FLAGS: ClassVar = QuantumSuccessCaveats.NO_WORK | QuantumSuccessCaveats.UPSTREAM_FAILURE_NO_WORK", "FLAGS: ClassVar = QuantumSuccessCaveats.UPSTREAM_FAILURE_NO_WORK")),
    ("exit-dup", "bad", (S, "EXIT_CODE = 21", "EXIT_CODE = 20")),
    ("report-exit", "bad", (R, "ExecutionStatus.SUCCESS if exitCode == 0 else ExecutionStatus.FAILURE", "ExecutionStatus.SUCCESS if exitCode <= 0 else ExecutionStatus.FAILURE")),
    ("report-exc", "bad", (R, "            status=ExecutionStatus.FAILURE,\n            dataId=dataId,\n            taskLabel=taskLabel,\n            exitCode=exitCode,", "            status=ExecutionStatus.SKIPPED,\n            dataId=dataId,\n            taskLabel=taskLabel,\n            exitCode=exitCode,")),
    ("explicit", "ok", [(S, "    ANY_OUTPUTS_MISSING = enum.auto()", "    ANY_OUTPUTS_MISSING = 1 << 0"), (S, "    NO_WORK = enum.auto()", "    NO_WORK = 0x4")]),
    ("in-tuple", "ok", (S, "return self is self.SUCCESSFUL or self is self.FAILED", "return self in (QuantumAttemptStatus.SUCCESSFUL, QuantumAttemptStatus.FAILED)")),
    ("new-flag", "ok", (S, "    @classmethod\n    def from_adjust_quantum_no_work", "    EXTRA = enum.auto()\n\n    @classmethod\n    def from_adjust_quantum_no_work")),
    ("early-return", "ok", (S, "        char2 = \"\"\n        if self & QuantumSuccessCaveats.ADJUST_QUANTUM_RAISED:\n            char2 = \"A\"\n        elif", "        char2 = \"\"\n        if QuantumSuccessCaveats.ADJUST_QUANTUM_RAISED in self:\n            char2 = \"A\"\n        elif")),
    ("exit-if", "ok", (R, "ExecutionStatus.SUCCESS if exitCode == 0 else ExecutionStatus.FAILURE", "ExecutionStatus.FAILURE if exitCode else ExecutionStatus.SUCCESS")),
    ("fail-key", "bad", (S, '"type": introspection', '"type_name": introspection')),
    ("fail-key2", "bad", [(S, 'set_dict("failure"', 'set_dict("error"'), (S, 'item.metadata["failure"]', 'item.metadata["error"]')]),
    ("qkey", "bad", [("single_quantum_executor.py", 'quantumMetadata["caveats"] = caveats.value', 'quantumMetadata["caveat"] = caveats.value'), ("single_quantum_executor.py", 'quantumMetadata["caveats"] = Q', 'quantumMetadata["caveat"] = Q')]),
    ("stop-at-none", "bad", (S, "            if item is None:\n                continue", "            if item is None:\n                break")),
    ("if-not-none", "ok", (S, "            if item is None:\n                continue\n", "            if item is None:\n                log.debug('none')\n                continue\n")),
]
