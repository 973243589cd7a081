"""Deterministic simulation of PyPSA: seeded schedules and faults, replayable."""
