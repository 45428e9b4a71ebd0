"""P02: the processor; see processor.py."""

from processor import bits

UNITS = [bits]
