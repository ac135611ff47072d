"""pydv: a contract-based deductive verifier for (a subset of) Python/numpy.

It executes the real source of /repo symbolically, function contract by
function contract, and discharges every resulting obligation with z3 / cvc5.
"""
