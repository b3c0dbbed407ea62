"""P02: order of accuracy of the split exponential integrators for any fixed L."""
from vf import ode

CASES = [("exp1", 1), ("exp2", 2), ("exp3", 3), ("exp1_dense", 1), ("exp2_dense", 2), ("exp3_dense", 3)]


def run(ck):
    ck.bounds += ["n=2 unknowns, every right-hand side given by its Taylor polynomial of total degree p-1 about (t0,y0), "
                  "every constant 2x2 linear part L (independent of the right-hand side), arbitrary t0, y0",
                  "local error coefficients of h^0..h^p"]
    ck.stubs += [ode.CONTRACTS[k] for k in ("phi_linop", "kiops_fixedsteps", "dense", "executor")]
    for method, p in CASES:
        ok, paths, syms, spec = ode.order_obligation(ck, method, "split", method, p, p - 1, n=2, split_L=True)
        ode.validate_step(ck, method, paths, syms, spec, "split", method, 2, False, True, {})


def replay(case):
    return ode.replay_order(case)
