"""P11: Arnoldi builds an orthonormal Krylov basis and the projected matrix."""
import itertools
import numpy as np
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.arnoldi_jax as ar
from ormatex_py.ode_sys import MatrixLinOp, DiagLinOp

V = scal.var
SHARDS = 8


def cayley(n, seed):
    """a rational orthogonal matrix"""
    rng = np.random.RandomState(seed)
    S = [[F(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            S[i][j] = F(int(rng.randint(-3, 4)), 2)
            S[j][i] = -S[i][j]
    I = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    import sympy
    A = sympy.Matrix(n, n, lambda i, j: sympy.Rational(I[i][j] - S[i][j]))
    B = sympy.Matrix(n, n, lambda i, j: sympy.Rational(I[i][j] + S[i][j]))
    Q = A * B.inv()
    return np.array([[F(int(Q[i, j].p), int(Q[i, j].q)) for j in range(n)] for i in range(n)], dtype=object)


def hess(n, band, brk):
    """upper Hessenberg matrix of symbols with `band` nonzero diagonals from the main one up, zero subdiagonal at brk"""
    H = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            H[i, j] = F(0)
            if 0 <= j - i < band:
                H[i, j] = V(f"h{i}{j}")
            elif i == j + 1 and j != brk:
                H[i, j] = V(f"p{j}")
    return H


def mm(A, B):
    return jsym.matmul(A, B)


class Expanding:
    """keep the algebra of norms and quotients in expanded form"""
    def __init__(self, pos):
        self.pos = frozenset(pos)

    def __enter__(self):
        self.old = {k: jsym.RULES[k] for k in ("sqrt", "div", "square", "rsqrt") if k in jsym.RULES}
        ex = lambda a: scal.expand(a, self.pos)
        jsym.RULES["sqrt"] = jsym.ew(lambda a: ex(scal.sqrt(ex(a))))
        jsym.RULES["rsqrt"] = jsym.ew(lambda a: ex(scal.div(1, ex(scal.sqrt(ex(a))))))
        jsym.RULES["div"] = jsym.ew(lambda a, b: ex(scal.div(ex(a), ex(b))))

    def __exit__(self, *a):
        jsym.RULES.update(self.old)


def call(A, s, b, m, iom):
    with jsym.symbolic(), ode.quiet():
        q, h = ar.arnoldi_lop(MatrixLinOp(sym(A)), sym(s), sym(b), m, iom)
    return vals(q), vals(h)


def run(ck):
    jsym.install_library_contracts()
    ck.bounds += ["n = 2, 3, 4 (thorough 5): every matrix Q H Q^T and start vector beta Q e1 with H any upper Hessenberg matrix (all entries arbitrary reals, subdiagonal >= 1/1000 "
                  "or exactly zero at one place), beta and the scale in [1/1000, 1000], Q from fixed rational orthogonal matrices (identity, two dense ones); every such pair (A,b) has this form for some Q",
                  "n = 2: every A, b, scale of either sign with breakdown norm >= 1e-6 or 0 (Q not fixed): start vector, orthonormality, first row of the projection",
                  "m = 1..n+1; full orthogonalisation, and depth iom = 1..n with H of at most iom nonzero diagonals on and above the main one (e.g. symmetric A from iom = 2); "
                  "any depth: unit columns, each new one orthogonal to its iom predecessors", "rounding is outside; breakdown norms in (0, 1e-12] are outside"]
    jobs = []
    nmax = 5 if ck.thorough else 4
    for n in range(2, nmax + 1):
        for qi in ((0, 1, 2) if n < 5 else (1,)):
            for m in range(1, n + 2):
                if n == 4 and not ck.thorough and m not in (2, 4) and qi:
                    continue
                for brk in [None] + list(range(min(m, n) - 1)):
                    jobs.append((exact, n, qi, m, n, brk, 100))
                for iom in range(1, n):
                    if m >= min(n, 3):
                        jobs.append((exact, n, qi, m, iom, None, iom))
    for m in (1, 2, 3):
        for sg in (1, -1):
            jobs.append((general, m, sg))
    for n, m, iom in ((3, 3, 1), (4, 4, 1), (4, 4, 2), (5, 4, 1), (5, 5, 2)):
        jobs.append((partial_, n, m, iom))
    ck.jobs(jobs, limit=60)
    if ck.first:
        for seed in range(4):
            rng = np.random.RandomState(seed)
            n = 3 + seed % 3
            c = {"fn": "real", "A": rng.randn(n, n).tolist(), "b": rng.randn(n).tolist(), "s": float(rng.rand() + 0.3), "m": n - seed % 2, "iom": 100, "rank": n - seed % 2}
            b, msg = replay(c)
            ck.validate(f"real/{seed}", (not b) or bool(ck.violations), msg)


def each(ck, lab, fn):
    for pi, (st, out, conds, _) in enumerate(scal.explore(fn, max_paths=64)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        yield f"{lab}/path{pi}" if pi else lab, out, conds


def exact(ck, lab, n, qi, m, band, brk, iom):
    Q = np.array([[F(int(i == j)) for j in range(n)] for i in range(n)], dtype=object) if qi == 0 else cayley(n, 10 * n + qi)
    H = hess(n, band, brk)
    A = mm(mm(Q, H), Q.T)
    s, beta = V("s"), V("beta")
    ex = [v for v in H.flat if isinstance(v, scal.E)] + [s, beta]
    pos = {v.args[0] for v in ex if v.args[0][0] in "psb"}
    A = np.array([scal.expand(x) for x in A.flat], dtype=object).reshape(n, n)

    def go():
        for v in ex:
            if v.args[0] in pos:
                scal.PATH.assume(scal.le(F(1, 1000), v))
                scal.PATH.assume(scal.le(v, 1000))
        b = [scal.mul(beta, Q[i, 0]) for i in range(n)]
        with Expanding(pos):
            return call(A, s, b, m, iom)
    kd = min(m, n) if brk is None else brk + 1
    smp = {"s": 0.7, "beta": 1.3, **{v.args[0]: 0.5 + 0.21 * i * (-1) ** i + (1.2 if v.args[0][0] == "p" else 0) for i, v in enumerate(ex[:-2])}}

    def case(env):
        e = {k: float(env[k]) if k in env and 1e-3 <= abs(float(env[k])) < 1e3 else smp[k] for k in smp}
        Hn = np.array([[float(scal.evalf(x, {k: F(v) for k, v in e.items()})) for x in r] for r in H])
        Qn = np.array([[float(x) for x in r] for r in Q])
        return {"fn": "real", "A": (Qn @ Hn @ Qn.T).tolist(), "b": (e["beta"] * Qn[:, 0]).tolist(), "s": e["s"], "m": m, "iom": iom, "rank": kd,
                "H": (e["s"] * Hn).tolist(), "Q": Qn.tolist()}
    try:
        for l, (q, h), conds in each(ck, lab, go):
            if q.shape != (n, kd) or h.shape != (kd, kd):
                ck.direct(l, case({}))
                continue
            bad = [scal.bnot(scal.eq(q[i, j], Q[i, j])) for i in range(n) for j in range(kd)]
            want = [[scal.mul(s, H[i, j]) for j in range(kd)] for i in range(kd)]
            bad += [scal.bnot(scal.eq(scal.expand(h[i, j], frozenset(pos)), want[i][j])) for i in range(kd) for j in range(kd)]
            bad = [x for x in bad if x is not False]
            hints = [[scal.le(F(1, 3), v) for v in ex] + [scal.le(v, 3) for v in ex]]
            ck.prove(l, bad, conds, case, hints=hints, exprs=ex)
    except Exception as e:
        if isinstance(e, (scal.Unsupported, scal.BoundExceeded)) or not _raises(ck, lab, case({})):
            raise
    if len(ck.samples) < 3:
        ck.samples.append({"obligation": lab, "n": n, "m": m, "breakdown_at": brk})


def _raises(ck, lab, c):
    b, msg = replay(c)
    if b:
        ck.direct(lab, c)
    return b


def general(ck, lab, m, sg):
    """n = 2, everything symbolic"""
    A = np.array([[V(f"a{i}{j}") for j in range(2)] for i in range(2)], dtype=object)
    b = [V("b0"), V("b1")]
    s = V("s")
    def go():
        scal.PATH.assume(scal.le(F(1, 100), scal.mul(sg, s)))
        scal.PATH.assume(scal.le(F(1, 100), scal.add(scal.mul(b[0], b[0]), scal.mul(b[1], b[1]))))
        # residual of the first step: |b x s A b| / |b|^2, zero or not small
        w = [scal.add(scal.mul(A[i, 0], b[0]), scal.mul(A[i, 1], b[1])) for i in range(2)]
        cr = scal.mul(s, scal.sub(scal.mul(b[0], w[1]), scal.mul(b[1], w[0])))
        nb = scal.add(scal.mul(b[0], b[0]), scal.mul(b[1], b[1]))
        scal.PATH.assume(scal.bor(scal.eq(cr, 0), scal.lt(scal.mul(F(1, 10**6), nb), scal.absv(cr))))
        q, h = call(A, s, b, m, 100)
        return q, h, cr

    def case(env):
        g = lambda k, d: float(env.get(k, d))
        Am, bm = [[g(f"a{i}{j}", 0.3 + i - 0.7 * j) for j in range(2)] for i in range(2)], [g("b0", 1.0), g("b1", -0.4)]
        return {"fn": "real", "A": Am, "b": bm, "s": g("s", 0.7 * sg), "m": m, "iom": 100,
                "rank": 1 if m == 1 or bm[0] * (Am[1][0] * bm[0] + Am[1][1] * bm[1]) == bm[1] * (Am[0][0] * bm[0] + Am[0][1] * bm[1]) else 2}
    for l, (q, h, cr), conds in each(ck, lab, go):
        kd = q.shape[1]
        if q.shape[0] != 2 or h.shape != (kd, kd) or kd < 1 or kd > min(m, 2):
            ck.direct(l, case({}))
            continue
        # full dimension unless the residual vanishes
        bad = [scal.bnot(scal.eq(cr, 0))] if kd == 1 and m > 1 else ([scal.eq(cr, 0)] if kd == 2 else [])
        nb2 = scal.add(scal.mul(b[0], b[0]), scal.mul(b[1], b[1]))
        for i in range(2):      # first column is b/|b|
            bad.append(scal.bnot(scal.eq(scal.mul(scal.mul(q[i, 0], q[i, 0]), nb2), scal.mul(b[i], b[i]))))
            bad.append(scal.lt(scal.mul(q[i, 0], b[i]), 0))
        boxes = [[scal.le(scal.absv(v), 2) for v in list(A.flat) + b + [s]]]
        ck.prove(l + "/start", bad, conds, case, hints=boxes)
        for i in range(kd):
            for j in range(i, kd):
                t = scal.add(scal.mul(q[0, i], q[0, j]), scal.mul(q[1, i], q[1, j]))
                ck.prove(f"{l}/qq{i}{j}", [scal.bnot(scal.eq(t, int(i == j)))], conds, case, hints=boxes)
        for i in range(kd):
            for j in range(kd):
                if i == 1:      # beyond z3 here; the recovery of Q H Q^T above decides it
                    continue
                t = F(0)
                for x in range(2):
                    for y in range(2):
                        t = scal.add(t, scal.mul(scal.mul(q[x, i], scal.mul(s, A[x, y])), q[y, j]))
                ck.prove(f"{l}/qaq{i}{j}", [scal.bnot(scal.eq(t, h[i, j]))], conds, case, hints=boxes)


def partial_(ck, lab, n, m, iom):
    """incomplete orthogonalisation of a full Hessenberg matrix: the new basis vectors are unit vectors orthogonal to their iom
    predecessors, and s A q_k = sum_j h_jk q_j"""
    H = hess(n, n, None)
    for i in range(n):
        for j in range(n):
            if isinstance(H[i, j], scal.E) and not (j == i + iom and j < 4):
                H[i, j] = F(3 * i - j + 2, 2) if i <= j else F(j + 2, 2)
    ex = [v for v in H.flat if isinstance(v, scal.E)]

    def go():
        for v in ex:
            scal.PATH.assume(scal.le(-4, v))
            scal.PATH.assume(scal.le(v, 4))
        return call(H, F(1, 2), [F(2)] + [F(0)] * (n - 1), m, iom)

    def case(env):
        e = {v.args[0]: F(env.get(v.args[0], F(7, 5))) for v in ex}
        return {"fn": "partial", "A": [[float(scal.evalf(x, e)) for x in r] for r in H], "b": [2.0] + [0.0] * (n - 1), "s": 0.5, "m": m, "iom": iom}
    for l, (q, h), conds in each(ck, lab, go):
        if q.shape != (n, min(n, m)):
            continue                    # breakdown of an incomplete basis is value dependent
        kd = q.shape[1]
        for k in range(kd):
            for j in range(max(0, k - iom), k + 1):
                t = F(0)
                for i in range(n):
                    t = scal.add(t, scal.mul(q[i, j], q[i, k]))
                ck.prove(f"{l}/q{j}{k}", [scal.bnot(scal.eq(t, int(j == k)))], conds, case)
        for k in range(kd - 1):
            bad = []
            for i in range(n):
                t = F(0)
                for j in range(n):
                    t = scal.add(t, scal.mul(scal.mul(F(1, 2), H[i, j]), q[j, k]))
                for j in range(kd):
                    t = scal.sub(t, scal.mul(q[i, j], h[j, k]))
                bad.append(scal.bnot(scal.eq(t, 0)))
            ck.prove(f"{l}/rel{k}", bad, conds, case)


def replay(case):
    A, b, s, m, iom = np.array(case["A"]), np.array(case["b"]), case["s"], case["m"], case["iom"]
    n = len(b)
    try:
        with ode.quiet():
            q, h = ar.arnoldi_lop(MatrixLinOp(jnp.asarray(A)), s, jnp.asarray(b), m, iom)
        q, h = np.asarray(q), np.asarray(h)
    except Exception as e:
        return True, f"arnoldi_lop raised {type(e).__name__}: {e} for A={case['A']}, b={case['b']}, m={m}"
    what = f"arnoldi_lop(A={case['A']}, scale={s}, b={case['b']}, m={m}, iom={iom})"
    kd = h.shape[0]
    if h.shape != (kd, kd) or q.shape != (n, kd):
        return True, f"{what}: shapes q {q.shape}, h {h.shape}"
    nA = np.max(np.abs(A)) * abs(s) + 1
    if case["fn"] == "partial":
        msgs = []
        for k in range(kd):
            for j in range(max(0, k - iom), k + 1):
                e = abs(q[:, j] @ q[:, k] - (j == k))
                if not e <= 1e-8:
                    msgs.append(f"basis vectors {j} and {k} have inner product {q[:, j] @ q[:, k]}")
        for k in range(kd - 1):
            e = np.max(np.abs(s * A @ q[:, k] - q @ h[:, k]))
            if not e <= 1e-8 * nA:
                msgs.append(f"scale*A*q_{k} differs from Q*h_{k} by {e}")
        return bool(msgs), f"{what}: " + "; ".join(msgs[:2]) if msgs else "holds"
    if kd != case["rank"]:
        return True, f"{what}: dimension {kd}, the Krylov space (cut at m) has dimension {case['rank']}"
    e = np.max(np.abs(q.T @ q - np.eye(kd)))
    if not e <= 1e-8:
        return True, f"{what}: basis not orthonormal, Q^T Q - I is {e}"
    e = np.max(np.abs(q[:, 0] - b / np.linalg.norm(b)))
    if not e <= 1e-10:
        return True, f"{what}: first basis vector {q[:, 0].tolist()} is not b/|b|"
    e = np.max(np.abs(s * q.T @ A @ q - h))
    if not e <= 1e-8 * nA:
        return True, f"{what}: projected matrix is off by {e}"
    return False, f"holds (dimension {kd})"
