from checks._write import VTUWrite as Check  # noqa: F401
