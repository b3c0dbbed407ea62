"""P09: the dense phi-function evaluators compute phi_k."""
import math
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.matexp_phi as mp

V = scal.var
SHARDS = 8
OLD_QR, OLD_LOG2 = jsym.RULES["qr"], jsym.RULES["log2"]


def taylor(M, k, K):
    """coefficients of h^0..h^(K-1) of phi_k(h M)"""
    n = M.shape[0]
    P = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            P[i, j] = F(int(i == j))
    out = []
    for m in range(K):
        out.append(np.array([[scal.mul(x, F(1, math.factorial(m + k))) for x in r] for r in P], dtype=object).reshape(n, n))
        P = jsym.matmul(P, M)
    return out


def mat(n, name="m"):
    return np.array([[V(f"{name}{i}{j}") for j in range(n)] for i in range(n)], dtype=object).reshape(n, n)


def scale_h(M):
    h = scal.series_var()
    out = np.empty(M.shape, dtype=object)
    for i in np.ndindex(M.shape):
        out[i] = scal.mul(h, M[i])
    return out


def run(ck):
    jsym.install_library_contracts()
    scal.RAT_ULPS[0] = 64          # factorials come from exp(gammaln): 2! is 11 ulp off
    K = 7 if ck.thorough else 5
    kmax = 5 if ck.thorough else 4
    ck.bounds += [f"square matrices of size 1 and 2 with arbitrary real entries, k = 0..{kmax}: all coefficients of h^0..h^{K-1} of phi_k(h M) "
                  "(extension, inverse, and phi_k(hM)B for a vector and for a two-column B); scaling-and-squaring: coefficients up to h^(4-k), k=0..3, at 0..3 squarings",
                  "scalar scaling-and-squaring accuracy: every |z| < " + ("4" if ck.thorough else "2") + ", k=0..3",
                  "inverse formula: every nonsingular M of size 1; size 2: every upper triangular factor with one rotation and one reflection; squaring run: positive entries, first row sum the larger (polynomial identities, so no loss)"]
    ck.stubs += ["jax.scipy.linalg.expm: its Taylor series", "QR primitive: a factorisation M = QR with orthogonal Q",
                 "f_phi_k_sq(., 0) inside f_phi_k_appl: the exponential (decided on its own)", "log2 of the norm in the formal-series runs: any scaling level 0..3"]
    jobs = []
    for n in (1, 2):
        for k in range(kmax + 1):
            if n == 1 or k < 4:
                jobs += [(inv, n, k, K if n == 1 else 3), (phik, n, k, K if n == 1 else 2)]
            jobs += [(ext, n, k, K), (ext_all, n, k, K), (appl, n, k, 1, K), (appl, n, k, 2, K)]
        for k in range(4):
            jobs += [(poly, n, k, d) for d in (k + 1, k + 2, k + 3)] + [(sq, n, k)]
    jobs += [(inv2, 2, k, 3) for k in (1, 2, 3)]
    for k in range(4):
        for N in range(6 if ck.thorough else 5):
            jobs.append((accuracy, k, N))
    for j in ck.shard(jobs):
        jsym.RULES["qr"], jsym.RULES["log2"] = OLD_QR, OLD_LOG2
        lab = j[0].__name__ + "/" + "/".join(map(str, j[1:]))
        try:
            j[0](ck, lab, *j[1:])
        finally:
            jsym.RULES["qr"], jsym.RULES["log2"] = OLD_QR, OLD_LOG2
            jsym.EXPM_TERMS[0] = None


def paths(ck, lab, fn):
    for pi, (st, out, conds, dec) in enumerate(scal.explore(fn)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        yield f"{lab}/path{pi}" if pi else lab, out, conds, dec


def compare(ck, lab, got, want, conds, case, mult=None):
    """got: list of series matrices per output; want: list of coefficient lists"""
    bad = []
    n = 0
    for g, w in zip(got, want):
        g = vals(g)
        for m, W in enumerate(w):
            for i in np.ndindex(W.shape):
                n += 1
                d = scal.sub(ode.coef_or(g[i], m) if hasattr(ode, "coef_or") else scal.coef(g[i], m), W[i])
                bad.append(scal.bnot(scal.eq(d, 0)))
        lowest = min((x.val for x in g.reshape(-1) if isinstance(x, scal.S) and x.c), default=0)
        for m in range(lowest, 0):          # no negative powers may remain
            for x in g.reshape(-1):
                bad.append(scal.bnot(scal.eq(scal.coef(x, m), 0)))
    r = ck.prove(lab, bad, conds, case)
    if len(ck.samples) < 3:
        ck.samples.append({"obligation": lab, "identities": n, "verdict": str(r)})
    return r


def mkcase(fn, n, k, **kw):
    def case(env):
        return dict(kw, fn=fn, k=k, M=[[float(env.get(f"m{i}{j}", 0.3 + i - j)) for j in range(n)] for i in range(n)],
                    B=[[float(env.get(f"b{i}{j}", 0.5 + i)) for j in range(kw.get("m", 1))] for i in range(n)])
    return case


def validate(ck, lab, case):
    rng = {"m": [[0.3, -0.7], [0.9, 0.2]], "b": [[0.4, -1.1], [1.3, 0.6]]}
    c = case({f"{q}{i}{j}": rng[q][i][j] for q in "mb" for i in range(2) for j in range(2)})
    c["short"] = True
    b, msg = replay(c)
    ck.validate(lab, (not b) or bool(ck.violations), msg)


def ext(ck, lab, n, k, K, ret=False):
    def go():
        scal.Cfg.order = K
        jsym.EXPM_TERMS[0] = K + k + 2
        with jsym.symbolic(), ode.quiet():
            return mp.f_phi_k_ext(sym(scale_h(mat(n))), k, ret)
    case = mkcase("ext_all" if ret else "ext", n, k)
    for l, out, conds, _ in paths(ck, lab, go):
        if ret:
            out = vals(out)
            if out.shape != (k + 1, n, n):
                ck.direct(l, case({}))
                continue
            compare(ck, l, list(out), [taylor(mat(n), j, K) for j in range(k + 1)], conds, case)
        else:
            compare(ck, l, [out], [taylor(mat(n), k, K)], conds, case)
    validate(ck, lab, case)


def ext_all(ck, lab, n, k, K):
    ext(ck, lab, n, k, K, True)


def qr_input(n, mode=0):
    """M = Q R with orthogonal Q, and the qr rule that returns it.  n=2: mode 0
    has symbolic R and a fixed rotation, mode 1 symbolic R and a fixed reflection"""
    if n == 1:
        s, r = V("s"), V("r")
        Q, R = np.array([[s]], dtype=object), np.array([[r]], dtype=object)
        scal.PATH.assume(scal.eq(scal.mul(s, s), 1))
        scal.PATH.assume(scal.lt(0, r))
    else:
        c, s = (F(3, 5), F(4, 5)) if mode == 0 else (F(5, 13), F(-12, 13))
        g = 1 if mode == 0 else -1
        Q = np.array([[c, -g * s], [s, g * c]], dtype=object)
        R = np.array([[V("r11"), V("r12")], [F(0), V("r22")]], dtype=object)
        scal.PATH.assume(scal.lt(0, V("r22")))
        scal.PATH.assume(scal.lt(V("r22"), V("r11")))
    M = jsym.matmul(Q, R)
    H = scale_h(M)

    def same(a, b):
        d = scal.sub(a, b)
        return (isinstance(d, scal.S) and not d.c) or (scal.is_const(d) and d == 0)

    def rule(prim, args, params):
        A = jsym.to_obj(args[0])
        if A.shape == H.shape and all(same(a, b) for a, b in zip(A.flat, H.flat)):
            Rh = np.empty(R.shape, dtype=object)
            for i in np.ndindex(R.shape):
                Rh[i] = scal.mul(scal.series_var(), R[i]) if not (scal.is_const(R[i]) and R[i] == 0) else F(0)
            return [jsym.SA(Q, np.float64), jsym.SA(Rh, np.float64)]
        return OLD_QR(prim, args, params)
    jsym.RULES["qr"] = rule
    return M, H


def inv(ck, lab, n, k, K, top="inv", mode=0):
    store = {}

    def go():
        scal.Cfg.order = K + k + 1
        jsym.EXPM_TERMS[0] = K + k + 2
        with jsym.symbolic(), ode.quiet():
            M, H = qr_input(n, mode) if k else (mat(n), scale_h(mat(n)))
            store["M"] = M
            return mp.f_phi_k_inv(sym(H), k, 2.2e-16)[0] if top == "inv" else mp.f_phi_k(sym(H), k)

    def case(env):
        full = {"s": 1, "t": F(1, 2), "r": 1, "r11": 1, "r12": 0, "r22": 1, "m00": .3, "m01": -.4, "m10": .2, "m11": .7}
        full.update(env)
        return {"fn": top, "k": k, "M": [[float(scal.evalf(x, full)) for x in r] for r in store["M"]]}
    for l, out, conds, _ in paths(ck, lab, go):
        compare(ck, l, [out], [taylor(store["M"], k, K)], conds, case)
    validate(ck, lab, mkcase(top, n, k))


def inv2(ck, lab, n, k, K):
    if k:
        inv(ck, lab, n, k, K, "inv", 1)


def phik(ck, lab, n, k, K):
    inv(ck, lab, n, k, K, "f_phi_k")


def appl(ck, lab, n, k, m, K):
    B = mat(2, "b")[:n, :m]
    vec = m == 1

    def contract(z, kk, return_all=False):
        assert kk == 0 and not return_all
        return jax.scipy.linalg.expm(z)

    def go():
        scal.Cfg.order = K
        jsym.EXPM_TERMS[0] = K + k + 2
        with jsym.symbolic(), ode.quiet(), common.patched([(mp.f_phi_k_sq, lambda z, k, return_all=False: contract(z, k, return_all))]):
            return mp.f_phi_k_appl(sym(scale_h(mat(n))), sym(B[:, 0] if vec else B), k)
    case = mkcase("appl", n, k, m=m)
    for l, out, conds, _ in paths(ck, lab, go):
        o = vals(out)
        if o.shape != ((n,) if vec else (n, m)):
            ck.direct(l, case({}))
            continue
        want = [jsym.matmul(T, B) for T in taylor(mat(n), k, K)]
        compare(ck, l, [o.reshape(n, m)], [want], conds, case)
    validate(ck, lab, case)


def poly(ck, lab, n, k, deg):
    K = deg + 1

    def go():
        scal.Cfg.order = K
        with jsym.symbolic(), ode.quiet():
            return mp.f_phi_k_poly_all(sym(scale_h(mat(n))), k, deg)
    case = mkcase("poly", n, k, deg=deg)
    for l, out, conds, _ in paths(ck, lab, go):
        if len(out) != k + 1:
            ck.direct(l, case({}))
            continue
        compare(ck, l, list(out), [taylor(mat(n), j, deg - j + 1) for j in range(k + 1)], conds, case)
    validate(ck, lab, case)


def sq(ck, lab, n, k):
    st = {}

    def log2(prim, args, params):
        o = jsym.to_obj(args[0])
        if st.get("id") != id(scal.PATH.trace):        # one level per path
            st["id"], st["N"] = id(scal.PATH.trace), None
        if any(isinstance(x, scal.S) for x in o.flat):
            if st["N"] is None:
                st["N"] = F(scal.PATH.choose(4, "scaling"))
            return jsym.SA(jsym._arr(st["N"]), np.float64)
        return OLD_LOG2(prim, args, params)
    jsym.RULES["log2"] = log2

    def go():
        scal.Cfg.order = 5
        M = mat(n)
        for x in M.flat:             # one orthant, first row the heavier: fixes the norm's branch; the identities
            scal.PATH.assume(scal.lt(0, x))         # are polynomial, so they hold everywhere
        if n == 2:
            scal.PATH.assume(scal.lt(scal.add(M[1, 0], M[1, 1]), scal.add(M[0, 0], M[0, 1])))
        with jsym.symbolic(), ode.quiet():
            r = mp.f_phi_k_sq(sym(scale_h(M)), k, True)
            if n == 2:
                return r, vals(r)[-1] if vals(r).shape == (k + 1, n, n) else r
            return r, mp.f_phi_k_sq(sym(scale_h(M)), k)
    for l, (out, last), conds, dec in paths(ck, lab, go):
        o = vals(out)
        case = mkcase("sq", n, k)
        if o.shape != (k + 1, n, n):
            ck.direct(l, case({}))
            continue
        compare(ck, l, list(o) + [last], [taylor(mat(n), j, 5 - j) for j in range(k + 1)] + [taylor(mat(n), k, 5 - k)], conds, case)
    validate(ck, lab, mkcase("sq", n, k))


TOL = {0: F(1, 10**4), 1: F(1, 10**4), 2: F(1, 10**4), 3: F(1, 500)}


def accuracy(ck, lab, k, N):
    """scalar argument: |f_phi_k_sq(z) - phi_k(z)| <= tol phi_k(z) on the scaling level N"""
    lo, hi = (F(2) ** (N - 4) if N else F(0)), F(2) ** (N - 3)
    D = 14 + 4 * N
    z = V("z")
    ref = F(0)
    for m in range(D, -1, -1):
        ref = scal.add(F(1, math.factorial(m + k)), scal.mul(z, ref))
    rem = hi ** (D + 1) / math.factorial(D + 1 + k) * 2
    assert rem < F(1, 10**7)

    def log2(prim, args, params):
        # log2(x) of a symbolic x: case split on its integer part (exact)
        x = jsym.to_obj(args[0]).reshape(-1)[0]
        if scal.is_const(x):
            return OLD_LOG2(prim, args, params)
        if scal.PATH.decide(scal.lt(x, 1)):
            return jsym.SA(jsym._arr(F(-1)), np.float64)
        for m in range(0, 9):
            if scal.PATH.decide(scal.lt(x, F(2) ** (m + 1))):
                return jsym.SA(jsym._arr(F(2 * m + 1, 2)), np.float64)
        raise scal.BoundExceeded("norm")
    jsym.RULES["log2"] = log2
    for sgn in (1, -1):
        def go():
            with jsym.symbolic(), ode.quiet():
                a = z if sgn > 0 else scal.mul(-1, z)
                scal.PATH.assume(scal.lt(lo, a))
                scal.PATH.assume(scal.lt(a, hi))
                return mp.f_phi_k_sq(sym([[z]]), k)
        for l, out, conds, _ in paths(ck, f"{lab}/{'+' if sgn > 0 else '-'}", go):
            g = vals(out).reshape(-1)[0]
            # phi_k(z) is positive; |ref - phi_k(z)| <= rem
            tol = TOL[k] * (1 if N < 2 else 2 ** (N - 1))
            small = scal.sub(scal.mul(tol, ref), scal.mul(2, rem))
            d = scal.sub(g, ref)
            bad = scal.bor(scal.lt(small, d), scal.lt(small, scal.mul(-1, d)))
            case = lambda env: {"fn": "acc", "k": k, "M": [[float(env.get("z", sgn * float(lo + hi) / 2))]], "tol": float(tol)}
            ck.prove(l, [bad], conds, case)
    for f in (0.8,):
        zc = float(lo + (hi - lo) * F(str(f)))
        b, msg = replay({"fn": "acc", "k": k, "M": [[zc]], "tol": float(tol)})
        ck.validate(lab, (not b) or bool(ck.violations), msg)


def replay(case):
    """concrete run against phi_k from a high-precision Taylor evaluation"""
    import mpmath
    mpmath.mp.dps = 60
    fn, k = case["fn"], case["k"]
    M0 = np.array(case["M"], dtype=float)
    n = M0.shape[0]
    nrm = max(1e-300, np.max(np.sum(np.abs(M0), axis=1)))
    B = np.array(case.get("B", [[1.0]] * n), dtype=float)[:n]

    def phi(M, kk):
        A = mpmath.matrix(M.tolist())
        term = mpmath.eye(n) / mpmath.factorial(kk)
        acc = term.copy()
        for m in range(1, 160):
            term = term * A / (m + kk)
            acc = acc + term
        return np.array(acc.tolist(), dtype=float)
    if fn == "acc":
        e, r = float(mp.f_phi_k_sq(jnp.asarray(M0), k)[0, 0]), phi(M0, k)[0, 0]
        return (not abs(e - r) <= 0.99 * case["tol"] * abs(r), f"f_phi_k_sq({M0[0,0]}, k={k}) = {e!r}, phi_{k} = {r!r}")
    try:
        for target in (None, 0.4) if case.get("short") else (None, 0.07, 0.12, 0.2, 0.4, 0.8, 1.7, 3.1):
            M = M0 if target is None else M0 / nrm * target
            th = np.max(np.sum(np.abs(M), axis=1))
            if th > 20 or (fn in ("inv", "f_phi_k") and k and (th < 1e-2 or np.linalg.cond(M) > 1e3)):
                continue
            z = jnp.asarray(M)
            N = max(0, math.floor(math.log2(max(th * 16, 1e-9))))
            ref = {j: phi(M, j) for j in range(k + 1)}
            sc = np.exp(th)
            tol = 1e-8 * sc
            if fn in ("inv", "f_phi_k"):
                sv = np.min(np.abs(np.diag(np.linalg.qr(M)[1])))
                tol = 1e-10 * sc / min(1.0, sv) ** k
                with ode.quiet():
                    got = [(k, mp.f_phi_k(z, k) if fn == "f_phi_k" else mp.f_phi_k_inv(z, k, 2.2e-16)[0])]
            elif fn == "ext":
                got = [(k, mp.f_phi_k_ext(z, k))]
            elif fn == "ext_all":
                r = np.asarray(mp.f_phi_k_ext(z, k, True))
                if r.shape != (k + 1, n, n):
                    return True, f"f_phi_k_ext(return_all) has shape {r.shape}"
                got = [(j, r[j]) for j in range(k + 1)]
            elif fn == "poly":
                if th > 0.5:
                    continue
                deg = case["deg"]
                r = mp.f_phi_k_poly_all(z, k, deg)
                if len(r) != k + 1:
                    return True, f"f_phi_k_poly_all returned {len(r)} matrices"
                got = [(j, r[j]) for j in range(k + 1)]
            elif fn == "sq":
                r = np.asarray(mp.f_phi_k_sq(z, k, True))
                if r.shape != (k + 1, n, n):
                    return True, f"f_phi_k_sq(return_all) has shape {r.shape}"
                got = [(j, r[j]) for j in range(k + 1)] + [(k, mp.f_phi_k_sq(z, k))]
            elif fn == "appl":
                b = B[:, 0] if case["m"] == 1 else B
                r = np.asarray(mp.f_phi_k_appl(z, jnp.asarray(b), k))
                if r.shape != b.shape:
                    return True, f"f_phi_k_appl returned shape {r.shape}"
                e = np.max(np.abs(r - ref[k] @ b)) / (np.max(np.abs(b)) + 1e-300)
                if not e <= 2e-5 * (1 + th) * sc:
                    return True, f"f_phi_k_appl(k={k}) error {e:.2e} at M={M.tolist()}"
                got = []
            for j, g in got:
                e = np.max(np.abs(np.asarray(g) - ref[j]))
                t = tol
                if fn == "poly":
                    t = 1.5 * th ** (case["deg"] - j + 1) / math.factorial(case["deg"] + 1) + 1e-14
                if fn == "sq":
                    w = th / 2 ** N
                    t = 3 * 2 ** N * sc * w ** (5 - j) / math.factorial(5) + 1e-14
                if not e <= t:
                    return True, f"{fn}(k={k}): phi_{j} error {e:.2e} (limit {t:.1e}) at M={M.tolist()}"
    except Exception as e:
        return True, f"{fn}(k={k}) raised {type(e).__name__}: {e}"
    return False, "all evaluations within tolerance"
