"""P12: the processor; see processor.py."""

from processor import sessions

UNITS = [sessions]
