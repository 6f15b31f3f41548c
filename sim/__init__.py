"""Deterministic simulator for the badidatetime package."""
