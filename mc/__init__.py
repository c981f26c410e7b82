"""Bounded exhaustive exploration of the real ramannoodle code."""
