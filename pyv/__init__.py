"""pyv: a deductive verifier for the Python code in /repo (see /verif/DESIGN.md)."""
