"""Deterministic simulation of paragami: see /verif/DESIGN.md."""
