from checks._write import IC3Write as Check  # noqa: F401
