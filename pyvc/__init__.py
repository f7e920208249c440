"""pyvc: a small deductive verifier for the Python / Cython subset funpy is written in.

The verified text is /repo's own source, parsed afresh on every run.  See DESIGN.md.
"""
