"""Contracts of flory (registered with the harness in vc.py)."""
from vc import *

ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real arithmetic (rounding, overflow, nan and inf are not modelled); array integers are mathematical integers",
    "numpy, scipy, numba (njit, jitclass, vectorize, literal_unroll), logging, tqdm, inspect and datetime behave as modelled in pyvc/npmodel.py (trusted contracts, listed per run in trusted_base)",
    "sizes of arrays are arbitrary; the rank of leading batch axes is enumerated (0, 1, 2)",
    "the symbolic interpreter and the prover (pyvc/) are trusted; the rewriting rules for sums and maxima and the closed forms of loops they apply are proved in lemmas/Sums.lean, and the interpreter is compared with numpy by pyvc/selfcheck.py (both run in the thorough tier)",
]

import contracts_thermo
import contracts_param
import contracts_parts
import contracts_solver
import contracts_misc, contracts_finder, contracts_shortcut, contracts_phases, contracts_random, contracts_copy
