"""P12: Krylov reductions compute phi-vector products (phi_linop, matexp_linop, kiops_fixedsteps, build_a_tilde)."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
from checks.p11 import cayley, hess, mm, Expanding
import ormatex_py.matexp_krylov as mk
import ormatex_py.matexp_phi as mp
import ormatex_py.arnoldi_jax as ar
import ormatex_py.matexp_leja as ml
from ormatex_py.ode_sys import MatrixLinOp, AugMatrixLinOp

V = scal.var
SHARDS = 8
REC = []


def fcoef(k, j):
    """coefficient j of the polynomial standing for phi_k"""
    return V(f"c{k}_{j}") if FREE[0] else F(1, math.factorial(j + k))


FREE, TERMS = [True], [4]


def apply_poly(H, U, k, nterms):
    out = np.array([scal.mul(fcoef(k, 0), x) for x in U.flat], dtype=object).reshape(U.shape)
    P = U
    for j in range(1, nterms):
        P = mm(H, P)
        out = np.array([scal.add(a, scal.mul(fcoef(k, j), b)) for a, b in zip(out.flat, P.flat)], dtype=object).reshape(U.shape)
    return out


def c_appl(z, b, k):
    return sym(apply_poly(vals(z), vals(b), int(k), TERMS[0]))


def c_phi(z, k, *a, **kw):
    n = z.shape[0]
    I = np.array([[F(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)
    return sym(apply_poly(vals(z), I, int(k), TERMS[0]))


def c_arnoldi(a_lo, a_scale, b, m, iom):
    """a basis of the whole space whose first vector is b/|b| (here: b and unit vectors; orthonormality is
    not used by any identity below) and the matrix of a_scale*A in that basis"""
    v = vals(b).reshape(-1)
    N = len(v)
    REC.append((N, int(m), int(iom)))
    s2 = F(0)
    for x in v:
        s2 = scal.add(s2, scal.mul(x, x))
    if not UNIT[0](s2):
        nb = scal.sqrt(s2)
        v = np.array([scal.div(x, nb) for x in v], dtype=object)
    Q = np.empty((N, N), dtype=object)
    for i in range(N):
        Q[i, 0] = v[i]
        for j in range(1, N):
            Q[i, j] = F(int(i == j - 1))
    # Q^-1 x: y0 = x_last/v_last, y_j = x_{j-1} - v_{j-1} y0
    H = np.empty((N, N), dtype=object)
    for j in range(N):
        with jsym.symbolic():
            w = vals(a_lo.matvec(sym(Q[:, j]))).reshape(-1)
        w = [scal.expand(scal.mul(vals(a_scale) if hasattr(a_scale, "shape") else a_scale, x), POS[0]) for x in w]
        y0 = scal.div(w[N - 1], v[N - 1])
        H[0, j] = scal.expand(y0, POS[0])
        for i in range(1, N):
            H[i, j] = scal.expand(scal.sub(w[i - 1], scal.mul(v[i - 1], y0)), POS[0])
    return sym(Q), sym(H)


TINY = F(1, 10**100)      # smallest norm of an input vector
UNIT, POS = [None], [frozenset()]


def is_unit(s2):
    """|b| = 1 for every input on this path (then b itself is the first basis vector)"""
    import z3
    conv = scal.PATH.conv
    c = [x for x in scal.PATH.conds() if isinstance(x, scal.E)]
    q = scal.bnot(scal.eq(s2, 1))
    if q is False:
        return True
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*[conv(x) for x in c], conv(q), *conv.sides(c + [q]))
    return str(s.check()) == "unsat"


def pairs():
    return [(mp.f_phi_k_appl, c_appl), (mp.f_phi_k, c_phi)]


def run(ck):
    jsym.install_library_contracts()
    UNIT[0] = is_unit
    K = 5 if ck.thorough else 4
    ck.bounds += [f"phi_linop/matexp_linop with the real Arnoldi: n = 2, 3, A = Q H Q^T, v0 = beta Q e1 (H any upper Hessenberg with subdiagonal >= 1/1000 or one exact breakdown; Q "
                  "identity or a dense rational orthogonal matrix), |v0| in [1e-100, 1000], dt in [1/1000, 1000], k = 0..3, Krylov dimension 1..n; phi_k replaced by a polynomial with arbitrary coefficients (degree 3)",
                  f"kiops_fixedsteps: n = 1, 2, p = 1..3, every A, dt, vectors; Krylov space of full dimension; Taylor terms of total degree below {K}",
                  "build_a_tilde: same sizes, every entry; zero vectors: all norms zero"]
    ck.stubs += ["f_phi_k_appl, f_phi_k: matrix polynomial (P09 decides them)", "kiops only: arnoldi_lop returns a basis of the whole space starting with b/|b| and the operator's matrix in it (P11 decides it)"]
    jobs = []
    for n in (2, 3):
        for qi in (0, 1):
            for m in range(1, n + 1):
                for brk in [None] + list(range(min(m, n) - 1)):
                    for k in ((0, 1, 2, 3) if qi == 0 else (1,)):
                        jobs.append((phi, n, qi, m, brk, k, "phi_linop"))
                    jobs.append((phi, n, qi, m, brk, 0, "matexp_linop"))
    for n in (1, 2):
        for p in (1, 2, 3):
            if n * p < 6 or ck.thorough:
                jobs.append((kiops, n, p, K))
                for z in range(p + 1):
                    jobs.append((kiops, n, p, K, z))
            jobs.append((atilde, n, p, K))
    jobs += [(zero, n, fn) for n in (1, 3) for fn in ("phi_linop", "matexp_linop", "kiops")]
    ck.jobs(jobs, limit=60)
    if ck.first:
        rng = np.random.RandomState(3)
        for fn in ("phi_linop", "matexp_linop", "kiops", "atilde"):
            c = {"fn": fn, "A": rng.randn(3, 3).tolist(), "dt": 0.7, "vb": rng.randn(3, 3).tolist(), "k": 2 if fn == "phi_linop" else 0, "m": 20, "iom": 100}
            b, msg = replay(c)
            ck.validate(f"real/{fn}", (not b) or bool(ck.violations), msg)


def each(ck, lab, fn, errcase=None):
    try:
        for pi, (st, out, conds, _) in enumerate(scal.explore(fn, max_paths=64)):
            if st != "ok":
                ck.problems.append(f"{lab}: cut ({out})")
                continue
            yield f"{lab}/path{pi}" if pi else lab, out, conds
    except (scal.Unsupported, scal.BoundExceeded):
        raise
    except Exception:
        if errcase is None or not replay(errcase)[0]:
            raise
        ck.direct(lab, errcase)


def phi(ck, lab, n, qi, m, brk, k, fname):
    FREE[0], TERMS[0] = True, 4
    Q = np.array([[F(int(i == j)) for j in range(n)] for i in range(n)], dtype=object) if qi == 0 else cayley(n, 10 * n + qi)
    H = hess(n, n, brk)
    A = mm(mm(Q, H), Q.T)
    A = np.array([scal.expand(x) for x in A.flat], dtype=object).reshape(n, n)
    s, beta = V("s"), V("beta")
    ex = [v for v in H.flat if isinstance(v, scal.E)] + [s, beta]
    pos = frozenset(v.args[0] for v in ex if v.args[0][0] in "psb")
    POS[0] = pos
    REC.clear()

    def go():
        for v in ex:
            if v.args[0] in pos:
                scal.PATH.assume(scal.le(TINY if v is beta else F(1, 1000), v))
                scal.PATH.assume(scal.le(v, 1000))
        with Expanding(pos), common.patched(pairs()), jsym.symbolic(), ode.quiet():
            b = sym([scal.mul(beta, Q[i, 0]) for i in range(n)])
            f = getattr(mk, fname)
            a = (MatrixLinOp(sym(A)), sym(s), b)
            return vals(f(*a, k, m, 100) if fname == "phi_linop" else f(*a, m, 100))
    kd = min(m, n) if brk is None else brk + 1
    exact = m >= n or brk is not None
    smp = {v.args[0]: 0.4 + 0.17 * i * (-1) ** i + (1.1 if v.args[0] in pos else 0) for i, v in enumerate(ex)}

    def case(env):
        e = {q: F(env[q]) if q in env and (TINY if q is beta.args[0] or q == beta.args[0] else 1e-3) <= abs(float(env[q])) <= 4 else F(smp[q]) for q in smp}
        An = [[float(scal.evalf(x, e)) for x in r] for r in A]
        c = {"fn": fname, "A": An, "dt": float(e["s"]), "vb": [[float(e["beta"] * Q[i, 0]) for i in range(n)]], "k": k, "m": m, "iom": 100}
        if not exact:
            c["Q"] = [[float(x) for x in r] for r in Q]
        return c
    for l, got, conds in each(ck, lab, go, case({})):
        e1 = np.array([F(int(i == 0)) for i in range(kd)], dtype=object)
        Hm = np.array([[scal.mul(s, H[i, j]) for j in range(kd)] for i in range(kd)], dtype=object)
        want = mm(Q[:, :kd], apply_poly(Hm, e1, k, TERMS[0]))
        if got.shape != (n,):
            ck.direct(l, case({}))
            continue
        bad = [scal.bnot(scal.eq(scal.expand(scal.sub(g, scal.mul(beta, w)), pos), 0)) for g, w in zip(got, want)]
        ck.prove(l, [b for b in bad if b is not False], conds, case, exprs=ex, hints=[[scal.le(F(1, 3), v) for v in ex] + [scal.le(v, 3) for v in ex]])
    if len(ck.samples) < 2:
        ck.samples.append({"obligation": lab})


def vecs(n, p, zero=None):
    return [[F(0) if zero == j else V(f"b{j}_{i}") for i in range(n)] for j in range(p + 1)]


def target(A, dt, vb, K):
    """sum_j phi_j(dt A) b_j, all terms A^m b_j with m + j < K"""
    n = len(A)
    out = [F(0)] * n
    for j, b in enumerate(vb):
        P = np.array(b, dtype=object)
        for m in range(K - j):
            c = F(1, math.factorial(m + j))
            out = [scal.add(o, scal.mul(c, x)) for o, x in zip(out, P)]
            P = np.array([scal.mul(dt, x) for x in mm(A, P)], dtype=object)
    return out


def mat(n):
    return np.array([[V(f"a{i}{j}") for j in range(n)] for i in range(n)], dtype=object)


def vcase(fn, n, p, zero=None, m=None):
    def case(env):
        g = lambda q, d: float(env[q]) if q in env and abs(float(env[q])) < 50 else d
        return {"fn": fn, "A": [[g(f"a{i}{j}", 0.3 + i - 0.6 * j) for j in range(n)] for i in range(n)], "dt": g("dt", 0.7),
                "vb": [[0.0 if zero == j else g(f"b{j}_{i}", 0.4 * j - i + 0.9) for i in range(n)] for j in range(p + 1)],
                "k": 0, "m": m or 30, "iom": 100}
    return case


def kiops(ck, lab, n, p, K, zero=None):
    FREE[0], TERMS[0] = False, K
    POS[0] = frozenset()
    A, dt, vb = mat(n), V("dt"), vecs(n, p, zero)
    ex = list(A.flat) + [dt] + [x for b in vb for x in b if isinstance(x, scal.E)]
    REC.clear()

    def go():
        with common.patched(pairs() + [(ar.arnoldi_lop, c_arnoldi)]), jsym.symbolic(), ode.quiet():
            return vals(mk.kiops_fixedsteps(MatrixLinOp(sym(A)), sym(dt), [sym(b) for b in vb], 9, iom=5))
    case = vcase("kiops", n, p, zero)
    want = target(A, dt, vb, K)
    nz = []
    for l, got, conds in each(ck, lab, go, case({})):
        if got.shape != (n,):
            ck.direct(l, case({}))
            continue
        bad = []
        for g, w in zip(got, want):
            d = scal.sub(g, w)
            x = scal.expand(d)
            bad.append(scal.bnot(scal.eq(x, 0)))
        ck.prove(l, [b for b in bad if b is not False], conds, case, exprs=ex, hints=[[scal.le(F(1, 4), v) for v in ex] + [scal.le(v, 2) for v in ex]])
    if any(r[1:] != (9, 5) for r in REC):
        ck.direct(lab + "/options", dict(case({}), options=True))


def atilde(ck, lab, n, p, K):
    A, dt, vb = mat(n), V("dt"), vecs(n, p)
    case = vcase("atilde", n, p)

    def go():
        with jsym.symbolic(), ode.quiet():
            lo, v, nn = ml.build_a_tilde(MatrixLinOp(sym(A)), sym(dt), [sym(b) for b in vb])
            P, out = v, vals(v) * F(1)
            for m in range(1, K):
                P = lo.matvec(P)
                out = np.array([scal.add(o, scal.mul(F(1, math.factorial(m)), x)) for o, x in zip(out, vals(P))], dtype=object)
        return out, int(nn)
    for l, (out, nn), conds in each(ck, lab, go, case({})):
        if nn != n or out.shape != (n + p,):
            ck.direct(l, case({}))
            continue
        bad = [scal.bnot(scal.eq(scal.sub(g, w), 0)) for g, w in zip(out[:n], target(A, dt, vb, K))]
        ck.prove(l, [b for b in bad if b is not False], conds, case)


def zero(ck, lab, n, fn):
    """zero input gives the zero vector of the right shape"""
    FREE[0], TERMS[0] = True, 4
    A, dt = mat(n), V("dt")

    def go():
        with common.patched(pairs()), jsym.symbolic(), ode.quiet():
            z = sym([F(0)] * n)
            lo = MatrixLinOp(sym(A))
            if fn == "kiops":
                return vals(mk.kiops_fixedsteps(lo, sym(dt), [z, z, z], 4))
            if fn == "phi_linop":
                return vals(mk.phi_linop(lo, sym(dt), z, 1, 4))
            return vals(mk.matexp_linop(lo, sym(dt), z, 4))
    case = lambda env: dict(vcase(fn, n, 2)(env), vb=[[0.0] * n] * 3, m=4)
    for l, got, conds in each(ck, lab, go, case({})):
        if got.shape != (n,):
            ck.direct(l, case({}))
            continue
        ck.prove(l, [scal.bnot(scal.eq(x, 0)) for x in got], conds, case)


def ref(A, dt, vb, k0=0):
    """sum_j phi_{k0+j}(dt A) b_j by the exponential of the augmented matrix"""
    import mpmath
    mpmath.mp.dps = 40
    n, p = len(A), k0 + len(vb) - 1
    if p == 0:
        M = mpmath.matrix(A) * dt
        return np.array([float(x) for x in mpmath.expm(M) * mpmath.matrix(vb[0])])
    bs = [[0.0] * n] * k0 + [list(b) for b in vb]
    M = mpmath.zeros(n + p)
    for i in range(n):
        for j in range(n):
            M[i, j] = mpmath.mpf(A[i][j]) * mpmath.mpf(dt)
        for j in range(1, p + 1):
            M[i, n + p - j] = bs[j][i]
    for j in range(p - 1):
        M[n + j, n + j + 1] = 1
    v = mpmath.zeros(n + p, 1)
    for i in range(n):
        v[i] = bs[0][i]
    v[n + p - 1] = 1
    w = mpmath.expm(M) * v
    return np.array([float(x) for x in w[:n]])


def replay(case):
    A, dt, vb = np.array(case["A"]), case["dt"], [np.array(b) for b in case["vb"]]
    n = len(A)
    lo = MatrixLinOp(jnp.asarray(A))
    fn = case["fn"]
    what = f"{fn}(A={case['A']}, dt={dt}, vectors={case['vb']}, k={case['k']}, krylov={case['m']})"
    if case.get("options"):
        seen = []
        old = mk.arnoldi_lop
        mk.arnoldi_lop = lambda a, s, b, m, iom: (seen.append((int(m), int(iom))), old(a, s, b, m, iom))[1]
        try:
            mk.kiops_fixedsteps(lo, dt, [jnp.asarray(b) for b in vb], 9, iom=5)
        finally:
            mk.arnoldi_lop = old
        return any(x != (9, 5) for x in seen), f"kiops_fixedsteps(max_krylov_dim=9, iom=5) runs Arnoldi with (dimension, depth) = {seen}"
    try:
        with ode.quiet():
            if fn == "phi_linop":
                got = mk.phi_linop(lo, dt, jnp.asarray(vb[0]), case["k"], case["m"], case["iom"])
            elif fn == "matexp_linop":
                got = mk.matexp_linop(lo, dt, jnp.asarray(vb[0]), case["m"], case["iom"])
            elif fn == "kiops":
                got = mk.kiops_fixedsteps(lo, dt, [jnp.asarray(b) for b in vb], case["m"], iom=case["iom"])
            else:
                al, v, nn = ml.build_a_tilde(lo, dt, [jnp.asarray(b) for b in vb])
                M = np.array([np.asarray(al.matvec(jnp.asarray(e))) for e in np.eye(v.shape[0])]).T
                import scipy.linalg
                got = (scipy.linalg.expm(M) @ np.asarray(v))[:int(nn)]
        got = np.asarray(got)
    except Exception as e:
        return True, f"{what} raised {type(e).__name__}: {e}"
    if fn in ("phi_linop", "matexp_linop"):
        vb = vb[:1]
        if "Q" in case:      # Krylov space cut at m: |v0| Q_m phi(H_m) e1
            Q = np.array(case["Q"])
            kd = case["m"]
            Hm = (Q.T @ A @ Q)[:kd, :kd]
            want = Q[:, :kd] @ ref(Hm.tolist(), dt, [np.linalg.norm(vb[0]) * np.eye(kd)[0]], case["k"])
        else:
            want = ref(A.tolist(), dt, vb, case["k"])
    else:
        want = ref(A.tolist(), dt, vb)
    if got.shape != want.shape:
        return True, f"{what} has shape {got.shape}"
    sc = np.max(np.abs(want)) + np.exp(min(np.linalg.norm(A * dt, 2), 300)) * max(np.max(np.abs(b)) for b in vb)
    e = np.max(np.abs(got - want))
    if not e <= 1e-8 * sc:
        return True, f"{what} = {got.tolist()}, exact {want.tolist()}"
    return False, f"holds (error {e:.2e})"
