"""P09: the processor; see processor.py."""

from processor import texts

UNITS = [texts]
