"""Symbolic execution engine for the kasa package (see DESIGN.md)."""
