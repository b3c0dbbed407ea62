"""P03: classical Runge-Kutta integrator is of order four."""
from vf import ode


def run(ck):
    n = 3 if ck.thorough else 2
    ck.bounds += [f"n={n} unknowns, every right-hand side given by its Taylor polynomial of total degree 3 in (t,y) about "
                  "(t0,y0) with arbitrary real coefficients, arbitrary t0, y0", "local error coefficients of h^0..h^4"]
    ok, paths, syms, spec = ode.order_obligation(ck, "rk4", "rk", "rk4", 4, 3, n=n)
    ode.validate_step(ck, "rk4", paths, syms, spec, "rk", "rk4", n, False, False, {})


def replay(case):
    return ode.replay_order(case)
