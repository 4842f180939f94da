"""Bounded explicit-state model checking of oemof-solph (see /verif/DESIGN.md)."""
