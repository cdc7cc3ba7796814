"""Runtime-monitoring harness for nevergrad (see DESIGN.md)."""
