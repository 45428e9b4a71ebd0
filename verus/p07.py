"""P07: the processor; see processor.py."""

from processor import calls

UNITS = [calls]
