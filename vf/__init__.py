"""Runtime-monitoring framework for pyjsgf (see /verif/DESIGN.md)."""
