"""pyvc: a small deductive verifier for the Python of palworld-save-tools.

It re-reads the functions of /repo on every run, executes them symbolically over unbounded
inputs and discharges the obligations stated in /verif/contracts with z3 (see DESIGN.md)."""
