"""P17: linear operators act as the matrices they stand for; Jacobian operators are the derivatives of the right-hand side."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax.experimental import sparse as jsp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.ode_sys as osys

V = scal.var
SHARDS = 8


def mat(pre, n, m):
    return np.array([[V(f"{pre}{i}{j}") for j in range(m)] for i in range(n)], dtype=object)


def vec(pre, n):
    return np.array([V(f"{pre}{i}") for i in range(n)], dtype=object)


def mv(A, v):
    out = []
    for i in range(A.shape[0]):
        t = F(0)
        for j in range(A.shape[1]):
            t = scal.add(t, scal.mul(A[i, j], v[j]))
        out.append(t)
    return np.array(out, dtype=object)


def diff(g, w, what):
    """violated equalities between g and w (arrays of scalars)"""
    g, w = np.asarray(g, dtype=object), np.asarray(w, dtype=object)
    if g.shape != w.shape:
        return [True]
    return [b for b in (scal.bnot(scal.eq(scal.expand(scal.sub(u, v)), 0)) for u, v in zip(g.reshape(-1), w.reshape(-1))) if b is not False]


def entries(lo, v, A, dense=True):
    """everything a user can ask of the operator, against the matrix A"""
    w = mv(A, v)
    sv = sym(v)
    bad = diff(vals(lo.matvec(sv)), w, "matvec") + diff(vals(lo(sv)), w, "call") + diff(vals(lo.matvec_npcompat(sv)), w, "npcompat")
    if dense:
        D = vals(lo.dense())
        bad += diff(D, A, "dense")
    return bad


SPARSE = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 1), (2, 0), (1, 1), (0, 1)], 4: [(3, 0), (0, 0), (2, 1), (1, 3), (3, 3)]}


def make(kind, n, A, d, p):
    if kind == "eye":
        return osys.EyeLinOp(n), np.array([[F(int(i == j)) for j in range(n)] for i in range(n)], dtype=object), True
    if kind == "diag":
        return osys.DiagLinOp(sym(d)), np.array([[d[i] if i == j else F(0) for j in range(n)] for i in range(n)], dtype=object), True
    if kind == "matrix":
        return osys.MatrixLinOp(sym(A)), A, True
    if kind == "sparse":
        idx = SPARSE[n]
        S = np.empty((n, n), dtype=object)
        S[...] = F(0)
        for k, (i, j) in enumerate(idx):
            S[i, j] = scal.add(S[i, j], V(f"s{k}"))
        return osys.MatrixLinOp(jsp.BCOO((sym(vec("s", len(idx))), jnp.array(idx)), shape=(n, n))), S, True
    B, K, dt = mat("B", n, p), mat("K", p, p), V("dt")
    lo = {"aug": osys.MatrixLinOp(sym(A)), "augdiag": osys.DiagLinOp(sym(d)), "augeye": osys.EyeLinOp(n)}[kind]
    M = {"aug": A, "augdiag": np.array([[d[i] if i == j else F(0) for j in range(n)] for i in range(n)], dtype=object),
         "augeye": np.array([[F(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)}[kind]
    W = np.empty((n + p, n + p), dtype=object)
    W[...] = F(0)
    for i in range(n):
        for j in range(n):
            W[i, j] = scal.mul(dt, M[i, j])
        for j in range(p):
            W[i, n + j] = B[i, j]
    W[n:, n:] = K
    return osys.AugMatrixLinOp(lo, sym(dt), sym(B), sym(K)), W, False


def run(ck):
    ck.bounds += ["constant operators: every matrix with n = 1..4 (sparse: every data on fixed patterns, with a repeated entry), augmented ones with p = 1..3 extra rows; every vector",
                  "Jacobian operators: every right-hand side given by its Taylor polynomial of degree " + ("4" if ck.thorough else "3") + " with n = 1..3, every time, state and vector, and right-hand sides with exp, sin, cos, sqrt, powers of t and u; "
                  "finite differences: every step eps as a formal variable (the derivative is the limit), and error at most 1e-6 relative to the second derivatives for the default step, n = 2, states of any sign pattern including 0"]
    ck.stubs += ["none of the linear operators' code is replaced; jax.linearize and vmap run for real on symbolic values"]
    jobs = []
    for n in (1, 2, 3, 4):
        jobs += [(const, k, n, 0) for k in ("eye", "diag", "matrix") + (("sparse",) if n > 1 else ())]
        jobs += [(const, k, n, p) for k in ("aug", "augdiag", "augeye") for p in (1, 2, 3) if n < 4 or p == 2]
    jobs += [(const_real, k) for k in ("eye", "diag", "matrix", "sparse", "aug")]
    deg = 4 if ck.thorough else 3
    for n in (1, 2, 3):
        for via in ("AdJac", "fjac", "Custom", "CustomFd", "OdeSysNp"):
            jobs.append((jac, via, n, deg if n < 3 else 2))
    for k in EXPRS:
        for via in ("AdJac", "fjac", "OdeSysNp"):
            jobs.append((expr, k, via))
    for signs in itertools.product((-1, 0, 1), repeat=2):
        jobs.append((fd, signs, "series"))
        jobs.append((fd, signs, "default"))
    jobs += [(fd_t, "CustomFd"), (fd_t, "FdJac"), (mass,), (inttime,)]
    ck.jobs(jobs, limit=120)


# ---- constant operators -------------------------------------------------------
def const(ck, lab, kind, n, p):
    A, d, v = mat("a", n, n), vec("d", n), vec("v", n + p)

    def go():
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            lo, W, dense = make(kind, n, A, d, p)
            return entries(lo, v, W, dense)
    case = lambda env: {"fn": "const", "kind": kind, "n": n, "p": p, "env": {k: float(env.get(k, 0.5)) for k in names(kind, n, p)}}
    for pi, (st, bad, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({bad})")
            continue
        ck.prove(f"{lab}/path{pi}", bad, conds, case)


def names(kind, n, p):
    r = [f"v{i}" for i in range(n + p)] + [f"a{i}{j}" for i in range(n) for j in range(n)] + [f"d{i}" for i in range(n)]
    r += [f"s{k}" for k in range(len(SPARSE.get(n, [])))]
    if p:
        r += [f"B{i}{j}" for i in range(n) for j in range(p)] + [f"K{i}{j}" for i in range(p) for j in range(p)] + ["dt"]
    return r


def const_real(ck, lab, kind):
    """encoder validation on floats"""
    n, p = 3, (2 if kind == "aug" else 0)
    rng = np.random.default_rng(5)
    b, msg = replay({"fn": "const", "kind": kind, "n": n, "p": p, "env": {k: float(rng.normal()) for k in names(kind, n, p)}})
    ck.validate(lab, (not b) or bool(ck.violations), msg)


# ---- Jacobian operators ----------------------------------------------------------
def operators(via, s, t, u, J=None, ft=None, eps=None):
    if via == "AdJac":
        return osys.AdJacLinOp(t, u, s.frhs)
    if via == "fjac":
        return s.fjac(t, u)
    if via == "OdeSysNp":
        return osys.OdeSysNp(s).fjac(t, u)
    if via == "Custom":
        return osys.CustomJacLinOp(t, u, s.frhs, J, ft)
    if via == "CustomFd":
        return osys.CustomJacLinOp(t, u, s.frhs, J, **({} if eps is None else {"eps": eps}))
    raise KeyError(via)


def jac(ck, lab, via, n, deg):
    spec = ode.PolySpec(n, deg)
    C = spec.symbols()
    t, u, v = V("t"), vec("u", n), vec("v", n)
    t0, y0 = F(1, 4), [F(1, 2)] * n

    def reference(order2=2):
        e = scal.mks(1, [F(1)], order2)
        f0 = ode.poly_rhs(n, C, t, list(u), t0, y0)
        fv = ode.poly_rhs(n, C, t, [scal.add(a, scal.mul(e, b)) for a, b in zip(u, v)], t0, y0)
        ft = ode.poly_rhs(n, C, scal.add(t, e), list(u), t0, y0)
        J = np.empty((n, n), dtype=object)
        for j in range(n):
            col = ode.poly_rhs(n, C, t, [scal.add(a, e) if i == j else a for i, a in enumerate(u)], t0, y0)
            for i in range(n):
                J[i, j] = scal.coef(col[i], 1)
        return f0, [scal.coef(x, 1) for x in fv], [scal.coef(x, 1) for x in ft], J

    def go():
        scal.Cfg.order = 3
        f0, jv, ft, J = reference()
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = ode.make_sys(n, {k: sym(c) for k, c in C.items()}, float(t0), [float(q) for q in y0])
            tt, uu = sym(t), sym(u)
            eps = sym(scal.series_var()) if via == "CustomFd" else None
            lo = operators(via, s, tt, uu, sym(J), sym(np.array(ft, dtype=object)), eps)
            bad = diff(vals(lo.matvec(sym(v))), jv, "Jv") + diff(vals(lo(sym(v))), jv, "call") + diff(vals(lo.dense()), J, "dense")
            g = vals(lo._fdt())
            if eps is not None:
                g = np.array([scal.coef(x, 0) for x in g], dtype=object)
            bad += diff(g, ft, "fdt") + diff(vals(lo._frhs_cached()), f0, "cached")
            bad += diff(vals(s.frhs(tt, uu)), f0, "frhs") + diff(vals(s(tt, uu)), f0, "call")
            if via == "OdeSysNp":
                bad += diff(vals(osys.OdeSysNp(s).frhs(tt, sym(np.reshape(u, (n, 1))))), f0, "np frhs")
            return bad
    case = lambda env: {"fn": "jac", "via": via, "n": n, "deg": deg, "t": float(env.get("t", 0.3)), "u": [float(env.get(f"u{i}", 0.7 - i)) for i in range(n)],
                        "v": [float(env.get(f"v{i}", 1.0 + i)) for i in range(n)], "coefs": {ode.key_str(k): float(env.get(spec.name(k), 0.5)) for k in C}}
    for pi, (st, bad, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({bad})")
            continue
        ck.prove(f"{lab}/path{pi}", bad, conds, case)
    if deg == 3 or n == 3:
        rng = np.random.default_rng(n)
        env = {spec.name(k): float(rng.normal()) for k in C}
        b, msg = replay(case({**env, **{f"u{i}": float(rng.normal()) for i in range(n)}}))
        ck.validate(lab, (not b) or bool(ck.violations), msg)


EXPRS = {
    "exp": (lambda t, u: jnp.stack([jnp.exp(u[0] * t), u[0] * jnp.exp(u[1])]),
            lambda m, t, u: [m.exp(u[0] * t), u[0] * m.exp(u[1])]),
    "sin": (lambda t, u: jnp.stack([jnp.sin(t * u[1]), jnp.cos(u[0]) * t]),
            lambda m, t, u: [m.sin(t * u[1]), m.cos(u[0]) * t]),
    "ratio": (lambda t, u: jnp.stack([u[0] / (1 + u[1] ** 2), t / (2 + u[0] ** 4)]),
              lambda m, t, u: [u[0] / (1 + u[1] ** 2), t / (2 + u[0] ** 4)]),
}


class Alg:
    """exp, sin and cos of series, for the reference"""
    exp = staticmethod(scal.exp)
    sin = staticmethod(lambda a: scal.uf("sin", a) if not isinstance(a, scal.S) else scal.s_uf("sin", a))
    cos = staticmethod(lambda a: scal.uf("cos", a) if not isinstance(a, scal.S) else scal.s_uf("cos", a))


def expr(ck, lab, k, via):
    fj, fr = EXPRS[k]
    t, u, v = V("t"), vec("u", 2), vec("v", 2)

    class Sys(osys.OdeSys):
        def _frhs(self, t, u, **kw):
            return fj(t, u)

    def go():
        scal.Cfg.order = 3
        e = scal.mks(1, [F(1)], 3)
        jv = [scal.coef(x, 1) for x in fr(Alg, t, [scal.add(a, scal.mul(e, b)) for a, b in zip(u, v)])]
        ft = [scal.coef(x, 1) for x in fr(Alg, scal.add(t, e), list(u))]
        f0 = fr(Alg, t, list(u))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = Sys()
            lo = operators(via, s, sym(t), sym(u))
            D = vals(lo.dense())
            return diff(vals(lo.matvec(sym(v))), jv, "") + diff(vals(lo._fdt()), ft, "") + diff(vals(lo._frhs_cached()), f0, "") + diff(mv(D, v), jv, "")
    case = lambda env: {"fn": "expr", "k": k, "via": via, "t": float(env.get("t", 0.3)), "u": [float(env.get(f"u{i}", 0.7 - i)) for i in range(2)],
                        "v": [float(env.get(f"v{i}", 1.0 + i)) for i in range(2)]}
    for pi, (st, bad, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({bad})")
            continue
        ck.prove(f"{lab}/path{pi}", bad, conds, case)


def quad(n=2):
    """a quadratic right-hand side with symbolic coefficients, and its derivatives"""
    spec = ode.PolySpec(n, 2)
    return spec, spec.symbols()


def fd(ck, lab, signs, mode):
    """FdJacLinOp: scale * J v + gamma * v up to O(eps)"""
    n = 2
    spec, C = quad(n)
    if mode == "default":       # the size of the step matters here: few coefficients
        C = {k: c for k, c in C.items() if k in ((0, (0, 2, 0)), (0, (0, 1, 0)), (1, (0, 1, 1)), (1, (1, 0, 0)))}
    t, v, sc, ga = V("t"), vec("v", n), V("scale"), V("gamma")
    u = np.array([scal.mul(q, V(f"m{i}")) if q else F(0) for i, q in enumerate(signs)], dtype=object)
    t0, y0 = F(1, 4), [F(1, 2), F(-1, 2)]

    def go():
        scal.Cfg.order = 3
        for i, q in enumerate(signs):
            if q:
                scal.PATH.assume(scal.lt(0, V(f"m{i}")))
        e = scal.mks(1, [F(1)], 3)
        fv = ode.poly_rhs(n, C, t, [scal.add(a, scal.mul(e, b)) for a, b in zip(u, v)], t0, y0)
        jv = [scal.coef(x, 1) for x in fv]
        h2 = [scal.coef(x, 2) for x in fv]        # v'Hv/2
        f0 = ode.poly_rhs(n, C, t, list(u), t0, y0)
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = ode.make_sys(n, {k: sym(c) for k, c in C.items()}, float(t0), [float(q) for q in y0])
            kw = {"eps": sym(scal.series_var())} if mode == "series" else {}
            lo = osys.FdJacLinOp(sym(t), sym(u), s.frhs, scale=sym(sc), gamma=sym(ga), **kw)
            g = vals(lo.matvec(sym(v)))
            g2 = vals(lo(sym(v)))
            fc = vals(lo._frhs_cached())
            shape = lo.shape
        w = [scal.add(scal.mul(sc, a), scal.mul(ga, b)) for a, b in zip(jv, v)]
        bad = diff(fc, f0, "") + ([True] if tuple(shape) != (n, n) else [])
        for x, x2, a, h in zip(g, g2, w, h2):
            if mode == "series":
                bad += diff([scal.coef(x, 0)], [a], "") + diff([scal.coef(x2, 0)], [a], "")
            else:
                # error <= 1e-6 |scale| |H|(1 + |u|): the step is 0.5e-8 |u|_1
                d = scal.expand(scal.sub(x, a))
                m = F(1)
                for uu in u:
                    m = scal.add(m, scal.absv(uu))
                bad.append(scal.lt(scal.mul(F(1, 10**6), scal.mul(m, scal.absv(scal.mul(sc, h)))), scal.absv(d)))
        return [b for b in bad if b is not False]
    case = lambda env: {"fn": "fd", "t": float(env.get("t", 0.3)), "u": [q * float(env.get(f"m{i}", 1.0)) for i, q in enumerate(signs)], "v": [float(env.get(f"v{i}", 1.0 + i)) for i in range(n)],
                        "scale": float(env.get("scale", 2.0)), "gamma": float(env.get("gamma", 0.5)), "coefs": {ode.key_str(k): float(env.get(spec.name(k), 0.5)) for k in C}}
    for pi, (st, bad, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({bad})")
            continue
        ck.prove(f"{lab}/path{pi}", bad, conds, case)
    if mode == "default":
        b, msg = replay(case({}))
        ck.validate(lab, (not b) or bool(ck.violations), msg)


def fd_t(ck, lab, via):
    """the default finite-difference time derivative: error at most 1e-7 |f_tt|; and its limit"""
    n = 2
    spec, C = quad(n)
    t, u = V("t"), vec("u", n)
    t0, y0 = F(1, 4), [F(1, 2), F(-1, 2)]
    for mode in ("series", "default"):
        def go():
            scal.Cfg.order = 3
            e = scal.mks(1, [F(1)], 3)
            fe = ode.poly_rhs(n, C, scal.add(t, e), list(u), t0, y0)
            if via == "FdJac":
                scal.PATH.assume(scal.lt(0, u[0]))
                scal.PATH.assume(scal.lt(0, u[1]))
            with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
                s = ode.make_sys(n, {k: sym(c) for k, c in C.items()}, float(t0), [float(q) for q in y0])
                kw = {"eps": sym(scal.series_var())} if mode == "series" else {}
                lo = osys.FdJacLinOp(sym(t), sym(u), s.frhs, **kw) if via == "FdJac" else osys.CustomJacLinOp(sym(t), sym(u), s.frhs, sym(mat("a", n, n)), **kw)
                g = vals(lo._fdt())
            bad = []
            for x, y in zip(g, fe):
                if mode == "series":
                    bad += diff([scal.coef(x, 0)], [scal.coef(y, 1)], "")
                else:
                    bad.append(scal.lt(scal.mul(F(1, 10**7), scal.absv(scal.coef(y, 2))), scal.absv(scal.expand(scal.sub(x, scal.coef(y, 1))))))
            return [b for b in bad if b is not False]
        case = lambda env: {"fn": "fdt", "via": via, "t": float(env.get("t", 0.3)), "u": [float(env.get(f"u{i}", 1.0)) for i in range(n)],
                            "coefs": {ode.key_str(k): float(env.get(spec.name(k), 0.5)) for k in C}}
        for pi, (st, bad, conds, _) in enumerate(scal.explore(go)):
            if st != "ok":
                ck.problems.append(f"{lab}/{mode}: cut ({bad})")
                continue
            ck.prove(f"{lab}/{mode}/path{pi}", bad, conds, case)


def mass(ck, lab):
    """the default mass operator is the identity"""
    for n in (1, 2, 3):
        v = vec("v", n)

        class Sys(osys.OdeSys):
            def _frhs(self, t, u, **kw):
                return u
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            lo = Sys().fm(sym(V("t")), sym(vec("u", n)))
            bad = entries(lo, v, np.array([[F(int(i == j)) for j in range(n)] for i in range(n)], dtype=object))
        ck.prove(f"{lab}/{n}", bad, [], lambda env: {"fn": "mass", "n": n})


def inttime(ck, lab):
    """an integer time is a time (concrete run: integers are not symbolic here)"""
    b, msg = replay({"fn": "inttime"})
    if b:
        ck.direct(lab, {"fn": "inttime"})
    else:
        ck.validate(lab, True, msg)


# ---- replay --------------------------------------------------------------------
def replay(case):
    fn = case["fn"]
    try:
        with ode.quiet():
            return REPLAY[fn](case)
    except Exception as e:
        return True, f"{fn} {case.get('kind') or case.get('via') or ''} raised {type(e).__name__}: {str(e)[:200]}"


def clip(x, m=50.0):
    return float(max(-m, min(m, x)))


def r_const(case):
    kind, n, p = case["kind"], case["n"], case["p"]
    E = {k: clip(v) for k, v in case["env"].items()}
    A = np.array([[E[f"a{i}{j}"] for j in range(n)] for i in range(n)])
    d, v = np.array([E[f"d{i}"] for i in range(n)]), np.array([E[f"v{i}"] for i in range(n + p)])
    M = {"eye": np.eye(n), "diag": np.diag(d), "matrix": A, "aug": A, "augdiag": np.diag(d), "augeye": np.eye(n)}.get(kind)
    lo = {"eye": lambda: osys.EyeLinOp(n), "diag": lambda: osys.DiagLinOp(jnp.asarray(d)), "matrix": lambda: osys.MatrixLinOp(jnp.asarray(A)), "aug": lambda: osys.MatrixLinOp(jnp.asarray(A)),
          "augdiag": lambda: osys.DiagLinOp(jnp.asarray(d)), "augeye": lambda: osys.EyeLinOp(n)}.get(kind, lambda: None)()
    if kind == "sparse":
        M = np.zeros((n, n))
        for k, (i, j) in enumerate(SPARSE[n]):
            M[i, j] += E[f"s{k}"]
        lo = osys.MatrixLinOp(jsp.BCOO((jnp.array([E[f"s{k}"] for k in range(len(SPARSE[n]))]), jnp.array(SPARSE[n])), shape=(n, n)))
    if p:
        B = np.array([[E[f"B{i}{j}"] for j in range(p)] for i in range(n)])
        K = np.array([[E[f"K{i}{j}"] for j in range(p)] for i in range(p)])
        M = np.block([[E["dt"] * M, B], [np.zeros((p, n)), K]])
        lo = osys.AugMatrixLinOp(lo, E["dt"], jnp.asarray(B), jnp.asarray(K))
    vv = [v, np.arange(1.0, n + p + 1), np.linspace(-1, 2, n + p)]
    for v in vv:
        w = M @ v
        for nm, g in (("matvec", lo.matvec(jnp.asarray(v))), ("__call__", lo(jnp.asarray(v))), ("matvec_npcompat", lo.matvec_npcompat(v))):
            g = np.asarray(g)
            if g.shape != w.shape or not np.max(np.abs(g - w)) <= 1e-10 * (1 + np.max(np.abs(M)) * np.max(np.abs(v))):
                return True, f"{kind} operator: {nm}({v.tolist()}) = {g.tolist()}, the matrix gives {w.tolist()}"
    if not p:
        D = np.asarray(lo.dense())
        if D.shape != M.shape or not np.max(np.abs(D - M)) <= 1e-10:
            return True, f"{kind} operator: dense() = {D.tolist()}, expected {M.tolist()}"
    return False, "operator and matrix agree"


def derivatives(n, C, t, u, v, t0, y0):
    """exact (rational) derivatives of the polynomial right-hand side"""
    Cq = {k: F(c) for k, c in C.items()}
    t, u, v = F(t), [F(x) for x in u], [F(x) for x in v]
    scal.Cfg.order = 3
    e = scal.mks(1, [F(1)], 3)
    fl = lambda xs: np.array([float(x) for x in xs])
    f0 = ode.poly_rhs(n, Cq, t, u, t0, y0)
    fv = ode.poly_rhs(n, Cq, t, [scal.add(a, scal.mul(e, b)) for a, b in zip(u, v)], t0, y0)
    ft = ode.poly_rhs(n, Cq, scal.add(t, e), u, t0, y0)
    J = np.array([[float(scal.coef(ode.poly_rhs(n, Cq, t, [scal.add(a, e) if i == j else a for i, a in enumerate(u)], t0, y0)[r], 1)) for j in range(n)] for r in range(n)])
    return fl(f0), fl([scal.coef(x, 1) for x in fv]), fl([scal.coef(x, 1) for x in ft]), J, fl([scal.coef(x, 2) for x in fv]), fl([scal.coef(x, 2) for x in ft])


def tame(case):
    C = {k: clip(c, 8) for k, c in ode.conc_coefs(case["coefs"]).items()}
    return C, clip(case["t"], 4), [clip(x, 4) for x in case["u"]], [clip(x, 4) for x in case.get("v", [])]


def r_jac(case):
    n, via = case["n"], case["via"]
    t0, y0 = F(1, 4), [F(1, 2)] * n
    C, t, u, v = tame(case)
    msg = ""
    for C_ in (C, {k: c if abs(c) > 1e-3 else 0.37 for k, c in C.items()}):
        f0, jv, ft, J, _, h = derivatives(n, C_, t, u, v, t0, y0)
        s = ode.make_sys(n, C_, 0.25, [0.5] * n)
        lo = operators(via, s, t, jnp.asarray(u), jnp.asarray(J), jnp.asarray(ft))
        big = 1 + 100 * max(abs(c) for c in C_.values()) * 5.0 ** case["deg"]
        for nm, g, w, tol in (("J v", lo.matvec(jnp.asarray(v)), jv, 1e-11), ("dense", lo.dense(), J, 1e-11), ("f_t", lo._fdt(), ft, 1e-11 if via != "CustomFd" else 1e-5),
                              ("cached f", lo._frhs_cached(), f0, 1e-11), ("frhs", s.frhs(t, jnp.asarray(u)), f0, 1e-11)):
            g = np.asarray(g)
            if g.shape != np.shape(w) or not np.max(np.abs(g - w)) <= tol * big:
                return True, f"{via} ({n} unknowns, t={t}, u={u}, v={v}): {nm} = {g.tolist()}, derivative of the right-hand side: {np.asarray(w).tolist()}"
        if via == "OdeSysNp":
            g = np.asarray(osys.OdeSysNp(s).frhs(t, jnp.asarray(u).reshape((n, 1))))
            if g.shape != (n,) or not np.max(np.abs(g - f0)) <= 1e-11 * big:
                return True, f"OdeSysNp.frhs = {g.tolist()}, inner {f0.tolist()}"
    return False, "derivatives agree"


def r_expr(case):
    import mpmath as mp
    mp.mp.dps = 40
    fj, fr = EXPRS[case["k"]]
    t, u, v = clip(case["t"], 2), [clip(x, 2) for x in case["u"]], [clip(x, 2) for x in case["v"]]

    class Sys(osys.OdeSys):
        def _frhs(self, t, u, **kw):
            return fj(t, u)
    lo = operators(case["via"], Sys(), t, jnp.asarray(u))
    jv = np.array([float(mp.diff(lambda e: fr(mp, mp.mpf(t), [mp.mpf(a) + e * b for a, b in zip(u, v)])[i], 0)) for i in range(2)])
    ft = np.array([float(mp.diff(lambda e: fr(mp, mp.mpf(t) + e, [mp.mpf(a) for a in u])[i], 0)) for i in range(2)])
    for nm, g, w in (("J v", lo.matvec(jnp.asarray(v)), jv), ("f_t", lo._fdt(), ft), ("dense", np.asarray(lo.dense()) @ np.array(v), jv)):
        if not np.max(np.abs(np.asarray(g) - w)) <= 1e-9 * (1 + np.max(np.abs(w))):
            return True, f"{case['via']} for {case['k']} at t={t}, u={u}, v={v}: {nm} = {np.asarray(g).tolist()}, derivative {w.tolist()}"
    return False, "derivatives agree"


def r_fd(case):
    t0, y0 = F(1, 4), [F(1, 2), F(-1, 2)]
    C, t, u, v = tame(case)
    sc, ga = clip(case["scale"], 4), clip(case["gamma"], 4)
    for C_ in (C, {k: c if abs(c) > 1e-3 else 0.37 for k, c in C.items()}):
        f0, jv, ft, J, h, _ = derivatives(2, C_, t, u, v, t0, y0)
        s = ode.make_sys(2, C_, 0.25, [0.5, -0.5])
        if 0 < sum(map(abs, u)) < 0.5:       # round-off grows like 1/|u|
            return r_fd({**case, "u": [x * (0.5 / sum(map(abs, u))) for x in u]})
        if abs(sc) < 1e-2 or max(map(abs, v)) < 0.1:
            return r_fd({**case, "scale": 1.5, "v": [1.0, -0.75]})
        lo = osys.FdJacLinOp(t, jnp.asarray(u), s.frhs, scale=sc, gamma=ga)
        w = sc * jv + ga * np.array(v)
        g = np.asarray(lo.matvec(jnp.asarray(v)))
        nu = sum(map(abs, u)) or 1.0
        big = max(abs(c) for c in C_.values()) * (1 + abs(t) + nu) ** 2 * (1 + max(abs(x) for x in v)) ** 2
        tol = 2e-6 * (1 + nu) * abs(sc) * np.max(np.abs(h)) + 1e-6 * (1 + abs(sc)) * big / nu + 1e-9 * (1 + abs(ga))
        if g.shape != w.shape or not np.max(np.abs(g - w)) <= tol:
            return True, f"FdJacLinOp at t={t}, u={u}: matvec({v}) = {g.tolist()}, scale*J v + gamma*v = {w.tolist()}"
        if tuple(lo.shape) != (2, 2) or not np.allclose(np.asarray(lo._frhs_cached()), f0, rtol=1e-9, atol=1e-9 * (1 + 100 * max(abs(c) for c in C_.values()))):
            return True, f"FdJacLinOp at t={t}, u={u}: shape {lo.shape}, cached f {np.asarray(lo._frhs_cached()).tolist()}, f = {f0.tolist()}"
    return False, "finite differences agree with the derivative"


def r_fdt(case):
    t0, y0 = F(1, 4), [F(1, 2), F(-1, 2)]
    C, t, u, _ = tame(case)
    for C_ in (C, {k: c if abs(c) > 1e-3 else 0.37 for k, c in C.items()}):
        f0, _, ft, J, _, h = derivatives(2, C_, t, u, [1.0, 1.0], t0, y0)
        s = ode.make_sys(2, C_, 0.25, [0.5, -0.5])
        lo = osys.FdJacLinOp(t, jnp.asarray(u), s.frhs) if case["via"] == "FdJac" else osys.CustomJacLinOp(t, jnp.asarray(u), s.frhs, jnp.asarray(J))
        g = np.asarray(lo._fdt())
        big = max(abs(c) for c in C_.values()) * (1 + abs(t) + sum(map(abs, u))) ** 2
        if not np.max(np.abs(g - ft)) <= 2e-7 * np.max(np.abs(h)) + 1e-6 * big + 1e-9:
            return True, f"{case['via']}._fdt at t={t}, u={u} = {g.tolist()}, f_t = {ft.tolist()}"
    return False, "time derivative agrees"


def r_mass(case):
    class Sys(osys.OdeSys):
        def _frhs(self, t, u, **kw):
            return u
    n = case["n"]
    v = jnp.arange(1.0, n + 1)
    lo = Sys().fm(0.0, v)
    return not (np.array_equal(np.asarray(lo.matvec(v)), np.asarray(v)) and np.array_equal(np.asarray(lo.dense()), np.eye(n))), "default mass operator"


def r_inttime(case):
    class Sys(osys.OdeSys):
        def _frhs(self, t, u, **kw):
            return jnp.stack([t * u[1], u[0] ** 2 + 3 * t])
    u, v = jnp.array([0.5, 2.0]), jnp.array([1.0, -1.0])
    a, b = Sys().fjac(2, u), Sys().fjac(2.0, u)
    for nm in ("matvec", "_fdt", "dense", "_frhs_cached"):
        x, y = (getattr(o, nm)(*([v] if nm == "matvec" else [])) for o in (a, b))
        if not np.array_equal(np.asarray(x), np.asarray(y)):
            return True, f"fjac(2, u).{nm} = {np.asarray(x).tolist()}, fjac(2.0, u).{nm} = {np.asarray(y).tolist()}"
    return False, "integer time behaves like a float"


REPLAY = {"const": r_const, "jac": r_jac, "expr": r_expr, "fd": r_fd, "fdt": r_fdt, "mass": r_mass, "inttime": r_inttime}
