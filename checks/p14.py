"""P14: divided-difference routines return the Newton coefficients of the function they name."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.matexp_poly as mpoly
import ormatex_py.matexp_leja as ml

V = scal.var
SHARDS = 8
OLD_LOG = {k: jsym.RULES[k] for k in ("log", "log2")}

# points: real (irregular), with zeros of the padding, conjugate pairs, imaginary pairs
SETS = {
    "real2": [2.0, -2.0], "real4": [2.0, -2.0, 0.0, 1.25], "real5": [-1.5, 2.0, 0.25, -0.75, 1.0],
    "pos3": [3.0, 0.5, 1.75],
    "conj4": [1.0, -1.0, 0.5 + 0.75j, 0.5 - 0.75j], "conj5": [2.0, 1j, -1j, -0.5 + 1.5j, -0.5 - 1.5j],
    "imag3": [0j, 1j, -1j], "imag5": [0j, 2j, -2j, 1.25j, -1.25j],
}


def pts(name):
    if name.startswith("sym"):
        m = int(name[3:])
        return sym([V(f"x{i}") for i in range(m)]), [V(f"x{i}") for i in range(m)]
    x = np.array(SETS[name])
    ex = [jsym.to_obj(v).reshape(-1)[0] for v in x]
    return jnp.asarray(x), ex


def newton_at(c, x, xi):
    p, t = F(0), F(1)
    for k in range(len(c)):
        p = scal.add(p, scal.mul(c[k], t))
        t = scal.mul(t, scal.sub(xi, x[k]))
    return p


def differences(c, x, z, k, K):
    """coefficients of eps^m of Newton(c)(x_i) - phi_k(eps z_i)"""
    out = []
    for i in range(len(x)):
        p = newton_at(c, x, x[i])
        w = F(1)
        for m in range(K):
            for part in (scal.cre, scal.cim):
                d = scal.sub(scal.coef(part(p), m), part(scal.mul(w, F(1, math.factorial(m + k)))))
                out.append(d)
            w = scal.mul(w, z[i])
    return out


ROUTINES = {
    # name: (function, orders, takes h)
    "exp_dd": (lambda x, a, b, h, k: mpoly.leja_coeffs_exp_dd(x, a, b, h), (0,)),
    "pade": (lambda x, a, b, h, k: mpoly.leja_coeffs_exp(x, a, b, h), (0,)),
    "taylor": (lambda x, a, b, h, k: mpoly.dd_exp_taylor(x, a, b, h), (0,)),
    "ts_phi": (lambda x, a, b, h, k: mpoly.leja_coeffs_ts_phi(x, a, b, h, k), (0, 1, 2)),
    "ts_phi_jax": (lambda x, a, b, h, k: mpoly.leja_coeffs_ts_phi_jax(x, a, b, h, k), (0, 1, 2)),
}


def run(ck):
    jsym.install_library_contracts()
    scal.RAT_ULPS[0] = 64
    K = 6 if ck.thorough else 4
    ck.bounds += [f"formal part: arbitrary shift, scale > 0 and step fraction, coefficients up to eps^{K-1} of exp/phi_k(eps h (shift + scale x)); points: any 2 or 3 real points (pairwise distinct), and "
                  + ", ".join(f"{k}={v}" for k, v in SETS.items()) + "; Taylor variant at 1..3 squarings",
                  "newton_poly_div_diff: any distinct points (m <= 3) and any values; 7 fixed points with any values",
                  "expm_taylor: 2x2 matrices, any shift and scale, p = 1..10; accuracy of the Taylor variant: any scale up to "
                  + ("8" if ck.thorough else "3") + " on the points +-2 (and 3 points)"]
    ck.stubs += ["jax.scipy.linalg.expm: its Taylor series", "number of squarings in the formal runs: any of 1..3", "dd_phi and ts_ss (experimental) are only run"]
    jobs = [(newton, "sym2"), (newton, "sym3"), (newton, "real5"), (newton, "conj5"), (newton, "conj5", True), (newton, "seven")]
    for name in ROUTINES:
        for s in list(SETS) + ["sym2", "sym3"]:
            if s.startswith("sym") and name in ("taylor",):
                continue
            for k in ROUTINES[name][1]:
                if k and s not in ("real4", "conj5", "imag3"):
                    continue
                jobs.append((formal, name, s, k, K))
    for p in (1, 2, 3, 5, 10):
        jobs.append((taylor_mat, p))
    for lo, hi in [(F(0), F(1)), (F(1), F(2)), (F(2), F(5, 2)), (F(5, 2), F(3))] + ([(F(i, 2), F(i + 1, 2)) for i in range(6, 16)] if ck.thorough else []):
        for sgn in (1, -1):
            if sgn > 0 or hi <= 2:
                jobs.append((accuracy, "two", lo, hi, sgn))
    jobs += [(pad, p) for p in range(5)] + [(scaled, q) for q in ("real2", "real4", "real5", "pos3")] + [(default_order,)]
    ck.jobs(jobs, limit=150)
    if ck.first:
        for i, c in enumerate([{"fn": "num", "name": n, "set": s, "k": 0, "shift": -0.7, "scale": 1.3, "h": h} for n in ("taylor", "pade", "exp_dd") for s in ("real5", "conj5") for h in (1.0, 0.4)]):
            b, msg = replay(c)
            ck.validate(f"num/{i}", (not b) or bool(ck.violations), msg)


def newton(ck, lab, s, realy=False):
    if s == "seven":
        x = np.array([2.0, -2.0, 0.0, 1.25, -1.25, 0.5, -0.75])
        xa, ex = jnp.asarray(x), [F(v) for v in x]
    else:
        xa, ex = pts(s)
    m = len(ex)
    y = [V(f"y{i}") for i in range(m)]
    cx = any(isinstance(v, scal.C) for v in ex)
    if cx and not realy:
        y = [scal.mkc(V(f"y{i}"), V(f"w{i}")) for i in range(m)]

    def go():
        if s.startswith("sym"):
            for i in range(m):
                for j in range(i):
                    scal.PATH.assume(scal.bnot(scal.eq(ex[i], ex[j])))
        with jsym.symbolic(), ode.quiet():
            return vals(mpoly.newton_poly_div_diff(xa, sym(y, np.complex128 if cx and not realy else np.float64)))
    case = lambda env: {"fn": "newton", "x": [[float(env.get(f"x{i}", i * 1.5 - 1)), 0] if s.startswith("sym") else [complex(xa[i]).real, complex(xa[i]).imag] for i in range(m)],
                        "y": [[float(env.get(f"y{i}", 1 + i)), float(env.get(f"w{i}", 0))] for i in range(m)]}
    for pi, (st, c, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({c})")
            continue
        if c.shape != (m,):
            ck.direct(lab, case({}))
            continue
        bad = []
        for i in range(m):
            d = scal.sub(newton_at(c, ex, ex[i]), y[i])
            bad += [scal.bnot(scal.eq(part(d), 0)) for part in (scal.cre, scal.cim)]
        ck.prove(f"{lab}/path{pi}", [b for b in bad if b is not False], conds, case)


def formal(ck, lab, name, s, k, K):
    fn = ROUTINES[name][0]
    xa, ex = pts(s)
    m = len(ex)
    a, b, h = V("shift"), V("scale"), V("h")
    level = {}

    def log(prim, args, params):
        o = jsym.to_obj(args[0])
        if any(isinstance(v, scal.S) or not scal.is_const(v) for v in o.flat):
            if level.get("id") != id(scal.PATH.trace):
                level["id"], level["N"] = id(scal.PATH.trace), F(scal.PATH.choose(3, "squarings")) + F(1, 2)
            f = math.log(2.0) if prim.name == "log" else 1.0
            return jsym.SA(jsym._arr(level["N"] * F(f)), np.float64)
        return OLD_LOG[prim.name](prim, args, params)
    jsym.RULES["log"] = jsym.RULES["log2"] = log

    def go():
        scal.Cfg.order = K
        jsym.EXPM_TERMS[0] = K + 2
        scal.PATH.assume(scal.lt(0, b))
        scal.PATH.assume(scal.lt(0, h))
        if s.startswith("sym"):
            for i in range(m):
                for j in range(i):
                    scal.PATH.assume(scal.bnot(scal.eq(ex[i], ex[j])))
        e = scal.series_var()
        if name == "ts_phi":        # plain numpy code: runs on object arrays
            with ode.quiet():
                return np.array(fn(np.array(ex, dtype=object), scal.mul(e, a), scal.mul(e, b), h, k), dtype=object)
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            return vals(fn(xa, sym(scal.mul(e, a)), sym(scal.mul(e, b)), sym(h), k))
    z = [scal.mul(h, scal.add(a, scal.mul(b, v))) for v in ex]
    case = lambda env: {"fn": "num", "name": name, "set": s, "k": k, "shift": float(env.get("shift", -0.3)), "scale": float(env.get("scale", 0.4)), "h": float(env.get("h", 0.7)),
                        "x": [float(env.get(f"x{i}", i * 1.5 - 1)) for i in range(m)] if s.startswith("sym") else None}
    try:
        for pi, (st, c, conds, _) in enumerate(scal.explore(go)):
            if st != "ok":
                ck.problems.append(f"{lab}: cut ({c})")
                continue
            if c.shape != (m,):
                ck.direct(lab, case({}))
                continue
            bad = [scal.bnot(scal.eq(scal.expand(d) if not s.startswith("sym") else d, 0)) for d in differences(list(c), ex, z, k, K)]
            ck.prove(f"{lab}/path{pi}", [q for q in bad if q is not False], conds, case, reach=pi < 2)
            if len(ck.samples) < 3:
                ck.samples.append({"obligation": lab, "identities": len(bad)})
    finally:
        jsym.RULES.update(OLD_LOG)


def taylor_mat(ck, lab, p):
    """expm_taylor = exp(shift) sum_{j<=p} (scale A)^j/j!"""
    A = np.array([[V(f"a{i}{j}") for j in range(2)] for i in range(2)], dtype=object)
    if p > 3:
        A[0, 1] = F(0)      # lower triangular, as the divided-difference matrices are
        A[1, 1] = F(1, 2)
    a, b = V("shift"), V("scale")

    def go():
        with jsym.symbolic(), ode.quiet():
            return vals(mpoly.expm_taylor(sym(A), sym(a), sym(b), p) if p < 20 else mpoly.expm_taylor(sym(A), sym(a), sym(b)))
    case = lambda env: {"fn": "taylor", "p": p, "A": [[float(env.get(f"a{i}{j}", A[i, j] if scal.is_const(A[i, j]) else 0.3 + i - j)) for j in range(2)] for i in range(2)],
                        "shift": float(env.get("shift", 0.2)), "scale": float(env.get("scale", 1.5))}
    for pi, (st, g, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({g})")
            continue
        acc = np.array([[F(1), F(0)], [F(0), F(1)]], dtype=object)
        T = acc
        for j in range(1, p + 1):
            T = jsym.matmul(T, A)
            T = np.array([[scal.mul(v, scal.mul(b, F(1, j))) for v in r] for r in T], dtype=object)
            acc = np.array([[scal.add(u, v) for u, v in zip(r, q)] for r, q in zip(acc, T)], dtype=object)
        ea = scal.exp(a)
        bad = [scal.bnot(scal.eq(scal.expand(scal.sub(g[i], scal.mul(ea, acc[i]))), 0)) for i in np.ndindex(2, 2)]
        ck.prove(f"{lab}/path{pi}", [q for q in bad if q is not False], conds, case)


def accuracy(ck, lab, which, lo, hi, sgn):
    """dd_exp_taylor on the points +-2 and scale c in [lo,hi]: |error| <= 1e-9 (absolute, relative to exp(2c))"""
    c = V("scale")
    D = 24 + 12 * math.ceil(hi)

    def log(prim, args, params):
        x = jsym.to_obj(args[0]).reshape(-1)[0]
        if scal.is_const(x):
            return OLD_LOG[prim.name](prim, args, params)
        f = math.log(2.0) if prim.name == "log" else 1.0
        if scal.PATH.decide(scal.le(x, 1)):
            return jsym.SA(jsym._arr(F(-1, 2) * F(f)), np.float64)
        for m in range(0, 6):
            if scal.PATH.decide(scal.le(x, F(2) ** (m + 1))):
                return jsym.SA(jsym._arr((F(m) + F(1, 2)) * F(f)), np.float64)
        raise scal.BoundExceeded("norm")

    def go():
        scal.PATH.assume(scal.le(lo, c))
        scal.PATH.assume(scal.le(c, hi))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            return vals(mpoly.dd_exp_taylor(jnp.asarray([2.0 * sgn, -2.0 * sgn]), 0.0, sym(c)))
    x = scal.mul(2, c)

    # Horner of sum z^m/m! as nested form
    def ex(z):
        r = F(1)
        for m in range(D, 0, -1):
            r = scal.add(1, scal.mul(scal.mul(z, F(1, m)), r))
        return r
    rem = F(2 * hi) ** (D + 1) / math.factorial(D + 1) * 3 ** math.ceil(2 * hi)
    assert rem < F(1, 10**10), float(rem)
    jsym.RULES["log"] = jsym.RULES["log2"] = log
    case = lambda env: {"fn": "num", "name": "taylor", "set": "pair+" if sgn > 0 else "pair-", "k": 0, "shift": 0.0, "scale": float(env.get("scale", (lo + hi) / 2)), "h": 1.0}
    try:
        for pi, (st, g, conds, _) in enumerate(scal.explore(go)):
            if st != "ok":
                ck.problems.append(f"{lab}: cut ({g})")
                continue
            e0, e1 = ex(scal.mul(sgn, x)), ex(scal.mul(-sgn, x))
            want = [e0, scal.mul(scal.sub(e0, e1), F(sgn, 4))]
            # tolerance 1e-9 max(1, exp(2c)), bounded below by 1e-9 (1 + 2c + 2c^2)
            tol = scal.mul(F(1, 10**9), scal.add(1, scal.add(x, scal.mul(F(1, 2), scal.mul(x, x)))))
            bad = []
            for u, w in zip(g, want):
                d = scal.expand(scal.sub(u, w))
                bad += [scal.lt(tol, d), scal.lt(tol, scal.mul(-1, d))]
            ck.prove(f"{lab}/path{pi}", [q for q in bad if q is not False], conds, case)
    finally:
        jsym.RULES.update(OLD_LOG)


def order_of(jaxpr, n):
    """degree of the polynomial the traced expm_taylor evaluates, from its growth on a large diagonal argument"""
    if n not in ORDER:
        args = [jnp.asarray(np.eye(*a.shape) * 1e8 if a.shape else 1.0, a.dtype) for a in jaxpr.in_avals]
        r = float(np.abs(np.asarray(jax.core.eval_jaxpr(jaxpr.jaxpr, jaxpr.consts, *args)[0])).max())
        ORDER[n] = min(range(1, 35), key=lambda p: abs(math.log10(r) - 8 * p + math.log10(math.factorial(p))))
    return ORDER[n]


ORDER = {}


def scaled(ck, lab, s):
    """whenever dd_exp_taylor uses the Taylor polynomial, its argument is small enough for 1e-10 (any scale in (0, 500], any shift, h = 1)"""
    c, a = V("scale"), V("shift")
    x = SETS[s]
    seen = []

    def rec(args, params):
        A = vals(args[0])
        seen.append((A, order_of(params["jaxpr"], len(x))))
        return [sym(np.array([[F(int(i == j)) for j in range(len(x))] for i in range(len(x))], dtype=object))]

    def log(prim, args, params):
        v = jsym.to_obj(args[0]).reshape(-1)[0]
        if scal.is_const(v):
            return OLD_LOG[prim.name](prim, args, params)
        f = math.log(2.0) if prim.name == "log" else 1.0
        if scal.PATH.decide(scal.le(v, 1)):
            return jsym.SA(jsym._arr(F(-1, 2) * F(f)), np.float64)
        for m in range(0, 14):
            if scal.PATH.decide(scal.le(v, F(2) ** (m + 1))):
                return jsym.SA(jsym._arr((F(m) + F(1, 2)) * F(f)), np.float64)
        raise scal.BoundExceeded("norm")

    def go():
        seen.clear()
        scal.PATH.assume(scal.lt(0, c))
        scal.PATH.assume(scal.le(c, 500))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            mpoly.dd_exp_taylor(jnp.asarray(x), sym(a), sym(c))
        return list(seen)
    jsym.RULES["log"] = jsym.RULES["log2"] = log
    jsym.PJIT_HOOKS["expm_taylor"] = rec
    case = lambda env: {"fn": "num", "name": "taylor", "set": s, "k": 0, "shift": 0.0, "scale": float(env.get("scale", 20)), "h": 1.0, "big": True}
    try:
        for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
            if st != "ok":
                ck.problems.append(f"{lab}: cut ({out})")
                continue
            bad = []
            for A, p in out:
                r = F((1e-10 * math.factorial(p + 1)) ** (1 / (p + 1)))
                for row in A:
                    t = F(0)
                    for v in row:
                        t = scal.add(t, scal.absv(scal.expand(v)))
                    bad.append(scal.lt(r, t))
            ck.prove(f"{lab}/path{pi}", [b for b in bad if b is not False], conds, case, reach=pi < 2)
    finally:
        jsym.PJIT_HOOKS.pop("expm_taylor", None)
        jsym.RULES.update(OLD_LOG)


def default_order(ck, lab):
    """expm_taylor's default order agrees with the exponential up to A^11"""
    K = 12
    A = np.array([[V("a00"), F(0)], [V("a10"), F(1, 2)]], dtype=object)

    def go():
        scal.Cfg.order = K
        e = scal.series_var()
        with jsym.symbolic(), ode.quiet():
            return vals(mpoly.expm_taylor(sym(np.array([[scal.mul(e, v) for v in r] for r in A], dtype=object)), 0.0, 1.0))
    for pi, (st, g, conds, _) in enumerate(scal.explore(go)):
        T = np.array([[F(1), F(0)], [F(0), F(1)]], dtype=object)
        bad = []
        for m in range(K):
            for i in np.ndindex(2, 2):
                bad.append(scal.bnot(scal.eq(scal.expand(scal.sub(scal.coef(g[i], m), scal.mul(T[i], F(1, math.factorial(m))))), 0)))
            T = jsym.matmul(T, A)
        ck.prove(f"{lab}/path{pi}", [b for b in bad if b is not False], conds, lambda env: {"fn": "taylor", "p": 20, "A": [[float(env.get("a00", 0.7)), 0.0], [float(env.get("a10", 1.0)), 0.5]], "shift": 0.0, "scale": 3.0})


def pad(ck, lab, p):
    """leja_seq_pad_zeros: p leading distinct numbers within 1e-9 of zero, then the sequence"""
    x = [V(f"x{i}") for i in range(3)]
    with jsym.symbolic(), ode.quiet():
        g = vals(mpoly.leja_seq_pad_zeros(sym(x), p))
    case = lambda env: {"fn": "pad", "p": p, "x": [float(env.get(f"x{i}", i - 1.0)) for i in range(3)]}
    if g.shape != (p + 3,):
        ck.direct(lab, case({}))
        return
    bad = [scal.lt(F(1, 10**9), scal.absv(v)) for v in g[:p]] + [scal.eq(g[i], g[j]) for i in range(p) for j in range(i)]
    bad += [scal.bnot(scal.eq(u, v)) for u, v in zip(g[p:], x)]
    ck.prove(lab, [b for b in bad if b is not False], [], case)


def mp_dd(x, f):
    """divided differences of f over x in high precision"""
    import mpmath
    mpmath.mp.dps = 80
    xs = [mpmath.mpc(complex(v).real, complex(v).imag) for v in x]
    a = [f(v) for v in xs]
    for q in range(1, len(xs)):
        for i in range(len(xs) - 1, q - 1, -1):
            a[i] = (a[i] - a[i - 1]) / (xs[i] - xs[i - q])
    return np.array([complex(v) for v in a])


def replay(case):
    import mpmath
    mpmath.mp.dps = 80
    fn = case["fn"]
    try:
        if fn == "newton":
            x = np.array([complex(*v) for v in case["x"]])
            y = np.array([complex(*v) for v in case["y"]])
            if np.all(x.imag == 0) and np.all(y.imag == 0):
                x, y = x.real, y.real
            c = np.asarray(mpoly.newton_poly_div_diff(jnp.asarray(x), jnp.asarray(y)))
            if c.shape != x.shape:
                return True, f"newton_poly_div_diff: shape {c.shape}"
            p = np.array([sum(c[k] * np.prod(xi - x[:k]) for k in range(len(x))) for xi in x])
            sc = np.max(np.abs(y)) + max(sum(abs(c[k]) * np.prod(np.abs(xi - x[:k])) for k in range(len(x))) for xi in x)
            e = np.max(np.abs(p - y))
            return not e <= 1e-9 * sc, f"newton_poly_div_diff(x={x.tolist()}, y={y.tolist()}): polynomial is {p.tolist()} at x"
        if fn == "taylor":
            A, p = np.array(case["A"]), case["p"]
            A = A / max(1.0, np.max(np.abs(A)))
            b = max(-3.0, min(3.0, case["scale"]))
            a = max(-3.0, min(3.0, case["shift"]))
            g = np.asarray(mpoly.expm_taylor(jnp.asarray(A), a, b, p) if p < 20 else mpoly.expm_taylor(jnp.asarray(A), a, b))
            acc, T = np.eye(2), np.eye(2)
            for j in range(1, p + 1):
                T = T @ (b * A) / j
                acc = acc + T
            w = np.exp(a) * acc
            e = np.max(np.abs(g - w)) / np.exp(a + 2 * abs(b))
            return not e <= 1e-11, f"expm_taylor(A={A.tolist()}, shift={a}, scale={b}, p={p}) = {g.tolist()}, expected {w.tolist()}"
        if fn == "pad":
            g = np.asarray(mpoly.leja_seq_pad_zeros(jnp.asarray(case["x"]), case["p"]))
            p = case["p"]
            ok = g.shape == (p + 3,) and np.all(np.abs(g[:p]) < 1e-9) and len(set(g[:p].tolist())) == p and np.array_equal(g[p:], np.array(case["x"]))
            return not ok, f"leja_seq_pad_zeros({case['x']}, {p}) = {g.tolist()}"
        s, k = case["set"], case["k"]
        x = np.array(case["x"]) if case.get("x") else np.array({"pair+": [2.0, -2.0], "pair-": [-2.0, 2.0]}.get(s) or SETS[s])
        x = x / max(1.0, np.max(np.abs(x)) / 3)
        if min(abs(x[i] - x[j]) for i in range(len(x)) for j in range(i)) < 1e-3:
            return False, "points too close for a numerical comparison"
        a, b, h = case["shift"], case["scale"], case["h"]
        if case.get("big"):
            runs = [(0.0, v, 1.0) for v in (b, 4.0, 8.0, 16.0, 32.0) if v * np.max(np.abs(x)) < 200]
        else:
            runs = [(a, b, h)] if s.startswith("pair") else [(q * min(1, 3 / (abs(a) + 1e-9)) * a, q * min(1, 3 / (abs(b) + 1e-9)) * b, min(h, 2.0)) for q in (1.0, 0.3, 0.1)]
        for a, b, h in runs:
            def f(v):
                z = mpmath.mpf(h) * (mpmath.mpf(a) + mpmath.mpf(b) * v)
                return sum(z ** j / mpmath.factorial(j + k) for j in range(150 if not case.get('big') else 900))
            want = mp_dd(x, f)
            with ode.quiet():
                got = np.asarray(ROUTINES[case["name"]][0](jnp.asarray(x), a, b, h, k))
            if got.shape != want.shape:
                return True, f"{case['name']}: shape {got.shape}"
            zm = np.max(np.abs(h * (a + b * x)))
            tol = 1e-8 if case.get("big") else 3e-10 if s.startswith("pair") else {"ts_phi": 1e-9 + (0.3 * zm) ** 12, "ts_phi_jax": 1e-5 + (0.3 * zm) ** 12}.get(case["name"], 1e-9 if h <= 1 else 1e-5)
            sep = 1.0 if case["name"] != "exp_dd" else 1e3
            e = np.max(np.abs(got - want)) / np.exp(zm)
            if not e <= tol * sep:
                return True, f"{case['name']}(x={x.tolist()}, shift={a}, scale={b}, h={h}, k={k}) = {got.tolist()}, divided differences are {want.tolist()}"
    except Exception as e:
        return True, f"{fn} {case.get('name', '')} raised {type(e).__name__}: {e}"
    return False, "holds"
