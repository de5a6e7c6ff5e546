"""Deterministic simulation kit for SCAKS (see /verif/DESIGN.md)."""
