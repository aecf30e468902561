"""Property-based checks for menpofit (see /verif/DESIGN.md)."""
