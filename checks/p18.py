"""P18: steps keep equilibria fixed and conserve linear invariants."""
import numpy as np
from fractions import Fraction as F
from vf import ode, scal, common

KWL = {"n_leja": 60, "leja_tol": 1e-14}
METHODS = [("rb", m, h, {}) for m, h in (("exprb2", False), ("exprb3", False), ("pexprb4", False), ("epi2", False), ("epi3", False), ("epi3", True),
                                         ("exprb2_dense", False), ("exprb2_pfd", False), ("exp_pfd", False))] + \
          [("leja", m, h, KWL) for m, h in (("epi2_leja_re", False), ("epi2_leja_im", False), ("epi3_leja_im", False), ("epi3_leja_im", True))] + \
          [("split", m, False, {}) for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense")] + [("rk", "rk4", False, {})]
SHARDS = 8


def run(ck):
    K = 6 if ck.thorough else 5
    ck.bounds += [f"n=2, every right-hand side given by its Taylor polynomial of degree 2 in (t,u) with w.f = 0 (every w with last component 1) or with f(t,u0) = 0, every t0, u0, and for split methods every L with w.L = 0 "
                  f"(invariants) or every L (equilibria); coefficients of h^0..h^{K-1}; exp_pfd: linear systems", "time derivative of f zero or above 1e-6 for the methods that test it; multi-step history: an arbitrary state with the "
                  "same invariant, or the equilibrium itself"]
    ck.stubs += [ode.CONTRACTS[k] for k in ("phi_linop", "kiops_fixedsteps", "dense", "leja", "executor")]
    ck.jobs([(one, what, *m, K) for m in METHODS for what in ("invariant", "equilibrium")], limit=200)


def system(what, kind, method, n=2):
    """Taylor coefficients of the right-hand side, linear part, symbols"""
    V = scal.var
    w = V("w")
    lin = method == "exp_pfd"
    spec = ode.PolySpec(n, 1 if lin else 2, lin)
    C = {}
    y0 = [V("y0"), V("y1")]
    if what == "invariant":
        for (i, e) in spec.keys:
            g = V("g_" + "".join(map(str, e)))
            C[(i, e)] = scal.mul(scal.mul(-1, w), g) if i == 0 else g
        if lin:
            for i in range(2):
                C[(i, (0, 0, 0))] = scal.add(scal.mul(C[(i, (0, 1, 0))], y0[0]), scal.mul(C[(i, (0, 0, 1))], y0[1]))
        L = [[scal.mul(scal.mul(-1, w), V("l0")), scal.mul(scal.mul(-1, w), V("l1"))], [V("l0"), V("l1")]]
    else:
        for (i, e) in spec.keys:
            if e[1:] == (0, 0):
                continue
            C[(i, e)] = V(spec.name((i, e)))
        if lin:
            for i in range(2):
                a = V(f"a{i}")
                C[(i, (0, 1, 0))], C[(i, (0, 0, 1))] = scal.mul(a, y0[1]), scal.mul(scal.mul(-1, a), y0[0])
        L = [[V(f"L{i}{j}") for j in range(2)] for i in range(2)]
    return C, L, w, y0


def one(ck, lab, what, kind, method, hist, kw, K):
    lab = f"{what}/{method}{'-hist' if hist else ''}"
    scal.Cfg.order = K
    C, L, w, y0 = system(what, kind, method)

    def go():
        with ode.sym_env(extra=ode.leja_pairs()):
            t0 = scal.var("t0")
            if kind == "rb" and what == "invariant" and method != "exp_pfd":
                ft = C[(1, (1, 0, 0))]
                scal.PATH.assume(scal.bor(scal.eq(ft, 0), scal.lt(F(1, 10**6), scal.absv(ft))))
            T0, Y0 = ode.sym(t0), ode.sym(y0)
            s = ode.make_sys(2, {k: ode.sym(v) for k, v in C.items()}, T0, Y0, lmat=ode.sym(L) if kind == "split" else None)
            h = ode.sym(scal.series_var())
            integ = ode.build_integrator(kind, method, s, T0, Y0, **kw)
            if hist:
                # an earlier state that shares the invariant (not necessarily on the trajectory) / the equilibrium itself
                d = scal.mks(1, [scal.var(f"d{k}") for k in range(K - 1)], K)
                yp = [scal.sub(y0[0], scal.mul(w, d)), scal.add(y0[1], d)] if what == "invariant" else list(y0)
                ode.push_history(integ, T0 - h, ode.sym(yp))
            res = integ.step(h)
            yv = ode.vals(res.y)
            assert yv.shape == (2,), f"step returned shape {yv.shape}"
            d = [scal.sub(yv[i], y0[i]) for i in range(2)]
            if what == "invariant":
                d = [scal.add(d[0], scal.mul(w, d[1]))]
            return [[ode.coef_or(x, k) for k in range(K)] for x in d]
    names = sorted({v.args[0] for q in list(C.values()) + [x for r in L for x in r] + [w] + y0 for v in vars_of(q)} | {"t0"} | ({f"d{k}" for k in range(K - 1)} if hist else set()))
    allsym = [scal.var(x) for x in names]
    box = [scal.le(scal.absv(v), 2) for v in allsym]
    for pi, (st, cf, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut")
            continue
        bad = [b for b in (scal.bnot(scal.eq(scal.expand(x), 0)) for r in cf for x in r) if b is not False]
        hints = [box + [scal.le(thr, scal.absv(x))] for thr in (F(1, 2), F(1, 50)) for r in cf for x in r if not scal.is_const(x)][:8]

        def case(env):
            full = {x: F(0) for x in names}
            full.update({k: v for k, v in env.items() if k in full})
            return {"what": what, "kind": kind, "method": method, "hist": hist, "kw": kw, "n": 2, "w": float(full.get("w", 0)),
                    "coefs": {ode.key_str(k): float(scal.evalf(v, full)) for k, v in C.items()}, "t0": float(full["t0"]), "y0": [float(full["y0"]), float(full["y1"])],
                    "d": [float(full.get(f"d{k}", 0)) for k in range(K - 1)], **({"L": [[float(scal.evalf(x, full)) for x in r] for r in L]} if kind == "split" else {})}
        r = ck.prove(f"{lab}/path{pi}", bad, conds, case, hints, exprs=allsym)
        if pi == 0:
            ck.samples.append({"method": method, "what": what, "identities": sum(map(len, cf)), "verdict": str(r)})
            env = {x: F(j * j % 7 - 3, 4) for j, x in enumerate(names)}
            b, msg = replay(case(env))
            ck.validate(lab, not b or r is False, msg)


def vars_of(e):
    return list(scal.fvars([e]).values()) if isinstance(e, scal.E) else []


def replay(case):
    n, w = 2, case["w"]
    try:
        cf = ode.conc_coefs(case["coefs"])
        L = np.array(case["L"]) if "L" in case else None
        y0 = np.array(case["y0"])
        s = ode.make_sys(n, cf, case["t0"], y0, lmat=ode.jnp.asarray(L) if L is not None else None)
        big = 1 + max([abs(c) for c in cf.values()] or [0]) + (np.max(np.abs(L)) if L is not None else 0) + abs(w)
        for h in (0.5 / big, 0.1 / big, 0.5, 1.0):
            integ = ode.build_integrator(case["kind"], case["method"], s, case["t0"], ode.jnp.asarray(y0), **case["kw"])
            if case["hist"]:
                d = sum(c * h ** (k + 1) for k, c in enumerate(case["d"]))
                yp = np.array([y0[0] - w * d, y0[1] + d]) if case["what"] == "invariant" else y0
                ode.push_history(integ, case["t0"] - h, ode.jnp.asarray(yp))
            with ode.quiet():
                try:
                    y = np.asarray(integ.step(h).y, dtype=float)
                except Exception as e:
                    if h >= 0.5 and "onverge" in str(e):
                        continue
                    raise
            if h >= 0.5 and (not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 1e3 * big):
                continue
            if case["what"] == "invariant":
                e = abs((y[0] - y0[0]) + w * (y[1] - y0[1])) / ((1 + abs(w)) * (1 + np.max(np.abs(y)) + np.max(np.abs(y0))))
                if not e <= 1e-8:
                    return True, f"{case['method']} dt={h}: w=({1.0},{w}), w.y changed by {e:.3e} (relative); f = {case['coefs']}, t0={case['t0']}, y0={case['y0']}, L={case.get('L')}"
            else:
                e = np.max(np.abs(y - y0)) / (1 + np.max(np.abs(y0)))
                if not e <= 1e-8:
                    return True, f"{case['method']} dt={h}: y0={case['y0']} is an equilibrium of f = {case['coefs']} (t0={case['t0']}, L={case.get('L')}) but the step returns {y.tolist()}"
    except Exception as e:
        return True, f"{case['method']}: step raised {type(e).__name__}: {str(e)[:200]}"
    return False, "kept"
