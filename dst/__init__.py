"""Deterministic simulation of eprempy: kernel, file system, processes."""
