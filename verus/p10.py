"""P10: the processor; see processor.py."""

from processor import handlers

UNITS = [handlers]
