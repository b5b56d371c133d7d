"""Deterministic simulation of simone-campagna/satisfy."""
