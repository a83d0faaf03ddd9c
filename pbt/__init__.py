"""Property-based testing machinery for pyInstanceSpace."""
