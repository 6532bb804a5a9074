"""Runtime-monitoring harness for finmlkit (see /verif/DESIGN.md)."""
