"""Solver-based checking of veroku: symbolic execution of the real source with z3 deciding every claim."""
