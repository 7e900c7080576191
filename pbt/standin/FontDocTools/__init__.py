"""Minimal stand-in for the FontDocTools package, which is not installed here: just the names
PathLib.Color and PathLib.ContourPlotter use. It stores what it is given and records drawing calls."""
