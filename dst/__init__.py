"""Deterministic simulation with fault injection for Infleqtion/qLDPC."""
