CASES = [
    ("extra", "bad", ("single_quantum_executor.py", '_LOG.info("No dataset artifact found for %s", ref)', '_LOG.info("No dataset artifact found for %s", ref, key)')),
    ("none", "bad", ("single_quantum_executor.py", '_LOG.info("No dataset artifact found for %s", ref)', '_LOG.info("No dataset artifact found for %s")')),
    ("fstring", "ok", ("single_quantum_executor.py", '_LOG.info("No dataset artifact found for %s", ref)', '_LOG.info(f"No dataset artifact found for {ref}")')),
    ("percent", "ok", ("single_quantum_executor.py", '_LOG.info("No dataset artifact found for %s", ref)', '_LOG.info("100%% missing: no dataset artifact found for %s", ref)')),
    ("const", "ok", ("single_quantum_executor.py", '_LOG.info("No dataset artifact found for %s", ref)', 'msg = "No dataset artifact found for %s"\n                    _LOG.info(msg, ref)')),
]
