"""P08: the processor, and the parser of structured statements; see processor.py and parsing.py."""

from parsing import choices, loops
from processor import flow

UNITS = [flow, loops, choices]
