"""P04: the processor; see processor.py."""

from processor import predicates

UNITS = [predicates]
