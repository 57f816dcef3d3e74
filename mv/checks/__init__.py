"""Checks of the properties."""
