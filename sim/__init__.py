"""Deterministic simulation of svgio: see ../DESIGN.md."""
