"""Deterministic simulation of ansibug: client, debug adapter and debuggee in one process."""
