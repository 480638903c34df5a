"""Deterministic simulation with fault injection for algotom."""
