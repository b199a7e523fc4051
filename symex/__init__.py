"""Solver-based symbolic execution of the Python sources under /repo (see DESIGN.md)."""
