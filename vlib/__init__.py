"""Shared machinery of the runtime-monitoring checks (see /verif/DESIGN.md)."""
