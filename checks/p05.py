"""P05: exponential integrators are exact on linear and affine systems."""
import numpy as np
from fractions import Fraction
from vf import ode, scal

KWL = {"n_leja": 60, "leja_tol": 1e-14}
RB = [("rb", m, h, {}) for m, h in (("exprb2", False), ("exprb3", False), ("pexprb4", False), ("epi2", False),
                                    ("epi3", False), ("epi3", True), ("exprb2_dense", False), ("exprb2_pfd", False))]
LJ = [("leja", m, h, KWL) for m, h in (("epi2_leja_re", False), ("epi2_leja_im", False), ("epi3_leja_im", True))]
SP = [("split", m, False, {}) for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense")]

SHARDS = 8


def run(ck):
    K = 9 if ck.thorough else 6
    ck.bounds += [f"n=2, every matrix A and vectors b, c: u' = A u + b + c t (c=0 for exp1; b=c=0 for exp_pfd); L=A for the split "
                  f"methods; identity of all coefficients of h^0..h^{K-1} of one step",
                  "|c| = 0 or max|c| > 1e-6 for the methods that test for time dependence"]
    ck.stubs += [ode.CONTRACTS[k] for k in ("phi_linop", "kiops_fixedsteps", "dense", "leja", "executor")]
    for kind, method, hist, kw in ck.shard(RB + LJ + SP + [("rb", "exp_pfd", False, {})]):
        lab = f"{method}{'-hist' if hist else ''}"
        one(ck, lab, kind, method, hist, kw, K)


def one(ck, lab, kind, method, hist, kw, K):
    n = 2
    scal.Cfg.order = K
    auto = method.startswith("exp1") or method == "exp_pfd"
    spec = ode.PolySpec(n, 1, auto)
    syms = spec.symbols()
    if method == "exp_pfd":
        # homogeneous: f = A u, i.e. the constant part is A y0
        for i in range(n):
            acc = Fraction(0)
            for j in range(n):
                e = [0] * (n + 1)
                e[j + 1] = 1
                acc = scal.add(acc, scal.mul(syms[(i, tuple(e))], scal.var(f"y{j}")))
            syms[(i, (0,) * (n + 1))] = acc

    def lmat():
        out = []
        for i in range(n):
            row = []
            for j in range(n):
                e = [0] * (n + 1)
                e[j + 1] = 1
                row.append(syms[(i, tuple(e))])
            out.append(row)
        return out

    def go():
        with ode.sym_env(extra=ode.leja_pairs()):
            t0 = scal.var("t0")
            y0 = [scal.var(f"y{i}") for i in range(n)]
            cs = {k: ode.sym(v) for k, v in syms.items()}
            if kind == "rb" and not auto:
                fts = [syms[(i, (1,) + (0,) * n)] for i in range(n)]
                z, big = True, False
                for f in fts:
                    z = scal.band(z, scal.eq(f, 0))
                    big = scal.bor(big, scal.lt(Fraction(1, 10**6), scal.absv(f)))
                scal.PATH.assume(scal.bor(z, big))
            T0, Y0 = ode.sym(t0), ode.sym(y0)
            s = ode.make_sys(n, cs, T0, Y0, lmat=ode.sym(lmat()) if kind == "split" else None)
            h = ode.sym(scal.series_var())
            integ = ode.build_integrator(kind, method, s, T0, Y0, **kw)
            if hist:
                dm = ode.exact_series(n, syms, K)
                ode.push_history(integ, T0 - h, ode.sym([scal.add(y0[i], ode.series_from(dm[i], -1)) for i in range(n)]))
            res = integ.step(h)
            yv = ode.vals(res.y)
            assert yv.shape == (n,), f"step returned shape {yv.shape}"
            return [[ode.coef_or(scal.sub(yv[i], y0[i]), k) for k in range(K)] for i in range(n)]

    ex = ode.exact_series(n, syms, K)
    for pi, (st, cf, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut")
            continue
        err = [[scal.sub(cf[i][k], ex[i][k]) for k in range(K)] for i in range(n)]
        bad = [scal.bnot(scal.eq(err[i][k], 0)) for i in range(n) for k in range(K)]
        allsym = [v for v in syms.values() if v.op == "var"] + [scal.var("t0")] + [scal.var(f"y{i}") for i in range(n)]
        box = [scal.le(scal.absv(v), 2) for v in allsym]
        hints = []
        for thr in (Fraction(1, 2), Fraction(1, 20)):
            for k in range(K):
                big = False
                for i in range(n):
                    big = scal.bor(big, scal.le(thr, scal.absv(err[i][k])))
                hints.append(box + [big])

        def case(env):
            full = {v.args[0]: Fraction(0) for v in allsym}
            full.update(env)
            return {"type": "affine", "kind": kind, "method": method, "n": n, "hist": hist, "kw": kw,
                    "coefs": {ode.key_str(k): float(scal.evalf(v, full)) for k, v in syms.items()},
                    "t0": float(full["t0"]), "y0": [float(full[f"y{i}"]) for i in range(n)],
                    **({"L": [[float(scal.evalf(x, full)) for x in r] for r in lmat()]} if kind == "split" else {})}
        r = ck.prove(f"{lab}/path{pi}", bad, conds, case, hints, exprs=allsym)
        if pi == 0:
            ck.samples.append({"method": method, "identities": n * K, "dag_nodes": scal.nodes([e for q in err for e in q]),
                               "verdict": str(r)})
            # encoder validation on one concrete affine system
            env = {v.args[0]: Fraction(j * j % 7 - 3, 4) for j, v in enumerate(allsym)}
            env["t0"] = Fraction(1, 4)
            if all(scal.evalf(c, env) for c in conds if isinstance(c, scal.E)):
                c = case(env)
                bad_, msg = replay(c)
                ck.validate(lab, not bad_ or r is False, msg)


def replay(case):
    n = case["n"]
    cf = ode.conc_coefs(case["coefs"])
    worst = ""
    try:
        for h in (0.5, 0.25, 1.0):
            y, tn = ode.real_step(case, h)
            ref = ode.ref_solution(n, cf, case["t0"], case["y0"], h)
            sc = 1 + np.max(np.abs(ref)) + np.max(np.abs(case["y0"]))
            e = np.max(np.abs(y - ref)) / sc
            worst = f"{case['method']}: affine system, dt={h}: relative error {e:.3e}; coefficients {case['coefs']}, y0={case['y0']}"
            if not np.isfinite(e) or e > 2e-5:
                return True, worst
    except Exception as e:
        return True, f"{case['method']}: step raised {type(e).__name__}: {e}"
    return False, worst
