"""P01: the processor; see processor.py."""

from processor import integers

UNITS = [integers]
