"""Builds the MIR driver and, as a smoke test, dumps the current tree."""
from . import dump

dump.build_driver()
print(dump.make_dump())
