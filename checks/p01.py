"""P01: order of accuracy of the exponential Rosenbrock and EPI integrators."""
from vf import ode, scal

CASES = [
    ("exprb2", 2, False, {}), ("exprb3", 3, False, {}), ("pexprb4", 4, False, {}),
    ("epi2", 2, False, {}), ("epi3", 3, True, {}), ("epi3", 2, "rho", {}), ("epi3", 3, False, {}),
    ("exprb2_dense", 2, False, {}), ("exprb2_pfd", 2, False, {}),
]

SHARDS = 8


def run(ck):
    ck.bounds += ["n=2 unknowns, every right-hand side whose Taylor polynomial about (t0,y0) has arbitrary real coefficients "
                  "up to total degree p-1 in (t,y) (higher terms cannot affect h^0..h^p); arbitrary t0, y0",
                  "local error coefficients of h^0..h^p, exact history for the multistep method, the previous step of the same size; epi3 after a step of any other size (ratio 1/8 to 8): order 2",
                  "|f_t| = 0 or max|f_t| > 1e-6 (tol_fdt default 1e-8)"]
    ck.stubs += [ode.CONTRACTS[k] for k in ("phi_linop", "kiops_fixedsteps", "dense", "executor")]
    todo = list(CASES)
    for method, p, hist, kw in ck.shard(todo):
        for auto in ((False, True) if (ck.thorough and p < 4) else (False,)):
            lab = f"{method}{'-hist' + str(hist if hist is not True else '') if hist else ''}{'-auto' if auto else ''}"
            n = 2
            ok, paths, syms, spec = ode.order_obligation(ck, lab, "rb", method, p, p - 1, n=n, auto=auto, hist=hist, kw=kw)
            if not auto:
                ode.validate_step(ck, lab, paths, syms, spec, "rb", method, n, hist, False, kw)


def replay(case):
    return ode.replay_order(case)
