"""pyvc: contract verification of the real pyGSTi code.

The functions of /repo are executed by CPython itself on symbolic scalars; every `assume` is a precondition,
every `check` a proof obligation, loops with symbolic bounds are cut by invariants (loops.py), callees may be
replaced by their contracts (Verifier.stub).  Obligations are discharged by a ring normaliser, z3 and cvc5.
"""
