"""P06: the processor; see processor.py."""

from processor import arrays

UNITS = [arrays]
