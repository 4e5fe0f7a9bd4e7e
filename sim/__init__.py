"""Deterministic simulation of irtorch with fault injection."""
