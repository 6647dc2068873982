from checks._write import V4Write as Check  # noqa: F401
