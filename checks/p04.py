"""P04: order of accuracy of the Leja-interpolation EPI integrators."""
from vf import ode

KW = {"n_leja": 60, "leja_tol": 1e-14}
CASES = [("epi2_leja_re", 2, False), ("epi2_leja_im", 2, False), ("epi3_leja_im", 3, True), ("epi3_leja_im", 2, False), ("epi3_leja_im", 2, "rho")]


def run(ck):
    ck.bounds += ["n=2 unknowns, every right-hand side given by its Taylor polynomial of total degree p-1 about (t0,y0), "
                  "arbitrary t0, y0; exact history for the multistep method", "local error coefficients of h^0..h^p",
                  "first (start-up) step of the multistep method is claimed at order 2, as is a step after one of another size (ratio 1/8 to 8)"]
    ck.stubs += [ode.CONTRACTS["leja"], "spectral bounds (power iteration) and Leja points: arbitrary values (P15, P22)"]
    for method, p, hist in CASES:
        lab = f"{method}{'-hist' + str(hist if hist is not True else '') if hist else ''}"
        ok, paths, syms, spec = ode.order_obligation(ck, lab, "leja", method, p, p - 1, n=2, hist=hist, kw=KW)
        ode.validate_step(ck, lab, paths, syms, spec, "leja", method, 2, hist, False, KW)


def replay(case):
    return ode.replay_order(case)
