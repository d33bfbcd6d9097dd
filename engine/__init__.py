"""Contract verifier for pydmd: symbolic execution of the real bytecode plus an
index-level tensor normaliser and z3.  See /verif/DESIGN.md."""
