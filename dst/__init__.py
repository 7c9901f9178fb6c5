"""Deterministic simulation of coniii: see DESIGN.md."""
