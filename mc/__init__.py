"""Exhaustive bounded exploration of refellips (see /verif/DESIGN.md)."""
