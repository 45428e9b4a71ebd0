"""P11: the processor; see processor.py."""

from processor import pauses

UNITS = [pauses]
