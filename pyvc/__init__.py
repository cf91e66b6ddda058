"""A deductive verifier for the Python subset used by plaquette (see DESIGN.md)."""
