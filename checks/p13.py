"""P13: Leja interpolation of exp(dt A) u: the polynomial, and what "converged" means."""
import itertools
import numpy as np
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.matexp_leja as ml
from ormatex_py.ode_sys import MatrixLinOp

V = scal.var
SHARDS = 8
CMP = ("lt", "le", "gt", "ge", "lt_to", "le_to")


def log_(a):
    if isinstance(a, scal.E) or a == 0:
        return scal.E("uf", ("log", a))
    return scal.E("uf", ("log", F(a)))


def exp_(a):
    """exp of a combination of logarithms with dyadic coefficients is a product of roots"""
    if isinstance(a, scal.E):
        c, ts = scal._terms(a)
        if c == 0 and all(n.op == "uf" and n.args[0] == "log" for n, _ in ts):
            D = 1
            for _, k in ts:
                while (F(k) * D).denominator != 1 and D < 64:
                    D *= 2
            if all((F(k) * D).denominator == 1 for _, k in ts):
                # pairwise nesting keeps the degrees low:  prod x^(k) = sqrt(prod_odd x * (rest)^...)
                ps = {n.args[1]: int(F(k) * D) for n, k in ts}
                return roots(ps, D)
    return OLD["exp"](a)


def roots(ps, D):
    """prod x^(p/D), D a power of two"""
    if all(p % D == 0 for p in ps.values()):
        out = F(1)
        for x, p in ps.items():
            out = scal.mul(out, scal.power(x, p // D))
        return out
    inner = F(1)
    half = {}
    for x, p in ps.items():     # x^(p/D) = (x^(2p/D))^(1/2)
        half[x] = 2 * p
    return scal.sqrt(roots(half, D))


OLD = {}


class Rules:
    def __init__(self, choices):
        self.choices = choices

    def __enter__(self):
        self.old = {k: jsym.RULES[k] for k in ("log", "exp") + CMP + ("eq",)}
        OLD["exp"] = scal.exp
        jsym.RULES["log"] = jsym.ew(log_)
        jsym.RULES["exp"] = jsym.ew(exp_)
        if self.choices:
            def mk(old):
                def one(a, b):
                    if isinstance(a, (scal.E, scal.C)) or isinstance(b, (scal.E, scal.C)):
                        CNT[0] += 1
                        return scal.var(f"choice_cmp{CNT[0]}", "B")
                    return old(a, b)
                return jsym.ew(one)
            CNT[0] = 0
            jsym.RULES["lt"] = jsym.RULES["lt_to"] = mk(scal.lt)
            jsym.RULES["le"] = jsym.RULES["le_to"] = mk(scal.le)
            jsym.RULES["gt"] = mk(lambda a, b: scal.lt(b, a))
            jsym.RULES["ge"] = mk(lambda a, b: scal.le(b, a))
            jsym.RULES["eq"] = mk(scal.eq)

    def __exit__(self, *a):
        jsym.RULES.update(self.old)


CNT = [0]


def chain(kind, nr, m, xs, r):
    """an operator for which the k-th Newton vector (for the given points) is (product of r_1..r_k) e_k times |u|: sizes arbitrary"""
    N = m + 2
    A = np.empty((N, N), dtype=object)
    A[:] = F(0)
    for i in range(1, N):
        A[i, i - 1] = r[i]
        if i < m and not (i <= nr or (i - nr) % 2 == 1):
            y = scal.cim(xs[i - 1])
            A[i - 2, i - 1] = scal.div(scal.mul(-1, scal.mul(y, y)), r[i - 1])
    return A


def points(nreal, npairs, n_odd=0):
    """symbolic points: nreal real ones and conjugate pairs; coefficients as divided differences of a conjugate symmetric function"""
    xs = [V(f"x{i}") for i in range(nreal)]
    cs = []
    for k in range(npairs):
        a, b = V(f"x{nreal + 2 * k}"), V(f"y{nreal + 2 * k}")
        xs += [scal.C(a, b), scal.C(a, scal.mul(-1, b))]
    m = len(xs)
    for i in range(m):
        # c_i belongs to points 0..i: complex exactly if the pair is split
        cs.append(scal.C(V(f"c{i}"), V(f"d{i}")) if i >= nreal and (i - nreal) % 2 == 0 else V(f"c{i}"))
    return xs, cs


def newton(A, dt, u, shift, scale, xs, cs, terms):
    """Re sum_{j<terms} c_j prod_{l<j} (dt A - shift - scale x_l)/scale u"""
    n = len(u)
    N = [scal.tocx(x) for x in u]
    out = [F(0)] * n
    for j in range(terms):
        out = [scal.add(o, scal.cre(scal.mul(cs[j], x))) for o, x in zip(out, N)]
        if j == terms - 1:
            break
        z = scal.add(shift, scal.mul(scale, xs[j]))
        R = jsym.matmul(A, np.array(N, dtype=object).reshape(n, 1)).reshape(-1)
        N = [scal.div(scal.sub(scal.mul(dt, r), scal.mul(z, x)), scale) for r, x in zip(R, N)]
    return out


def run(ck):
    L = 7 if ck.thorough else 6
    ck.bounds += [f"polynomial: every 2x2 companion matrix, vector, and point/coefficient sequences of length up to {L} (all symbolic; dt, shift, scale symbolic up to length 4, fixed rationals beyond), "
                  "every iteration count at which the loops can stop; real points, 0..3 real points followed by conjugate pairs, and the purely imaginary sequence",
                  "convergence: term sizes, coefficients, |u| and tol in (0,1] arbitrary reals, up to 4 polynomial terms beyond the first (operators whose Newton vectors are mutually orthogonal)",
                  "the coefficients are taken as given (P14 decides them); floating point overflow/NaN is outside"]
    ck.stubs += ["exp and log inside decay_fun: exp(sum k_i log x_i) = prod x_i^k_i", "comparisons in the polynomial runs: any outcome",
                 "operator in the convergence runs: the Newton vectors are mutually orthogonal of arbitrary sizes"]
    jobs = []
    for m in range(2, L + 1):
        jobs.append((ident, "real", m, 0))
    for nr in range(0, 4):
        for np_ in (1, 2) if nr + 4 <= L else (1,):
            jobs.append((ident, "conj", nr, np_))
    jobs.append((ident, "conj", 4, 0))
    jobs += [(ident, "imag", 1, k) for k in ((1, 2, 3) if ck.thorough else (1, 2))]
    jobs += [(sound, "real", m, 0) for m in (2, 3, 4, 5)]
    jobs += [(sound, "conj", nr, np_) for nr in (0, 1, 2) for np_ in (1, 2) if nr + 2 * np_ <= 5]
    jobs += [(sound, "imag", 1, k) for k in (1, 2)]
    jobs += [(zero, v, m) for v in ("real", "conj", "imag") for m in (1, 2)]
    ck.jobs(jobs, limit=150)
    if ck.first:
        rng = np.random.RandomState(5)
        for kind in ("real", "conj", "imag"):
            xs, cs = conc_points(kind, 1 if kind == "imag" else 2, 2, {})
            c = {"fn": "ident", "kind": kind, "nreal": 1 if kind == "imag" else 2, "A": rng.randn(2, 2).tolist(), "u": rng.randn(2).tolist(), "dt": 0.4, "shift": -0.3, "scale": 0.8,
                 "xs": xs, "cs": cs}
            b, msg = replay(c)
            ck.validate(f"real/{kind}", (not b) or bool(ck.violations), msg)


def call(kind, lo, dt, u, shift, scale, xs, nreal, cs, tol):
    if kind == "real":
        return ml.real_leja_expmv(lo, dt, u, shift, scale, xs, cs, tol)
    if kind == "conj":
        return ml.complex_conj_leja_expmv(lo, dt, u, shift, scale, xs, nreal, cs, tol)
    return ml.complex_conj_imag_leja_expmv(lo, dt, u, shift, scale, xs, cs, tol)


def data(kind, nr, np_):
    if kind == "real" or np_ == 0:
        return points(nr, 0)
    if kind == "imag":
        xs, cs = points(1, np_)
        xs[0] = F(0)
        return [xs[0]] + [scal.C(F(0), x.im) for x in xs[1:]], cs
    return points(nr, np_)


def arr(xs):
    cx = any(isinstance(x, scal.C) for x in xs)
    return sym(np.array([scal.tocx(x) if cx else x for x in xs] + [None], dtype=object)[:-1], np.complex128 if cx else np.float64)


def nterms(kind, it):
    return it - 1 if kind == "imag" else it


def ident(ck, lab, kind, nr, np_):
    xs, cs = data(kind, nr, np_)
    m = len(xs)
    A = np.array([[F(0), F(1)], [V("p"), V("q")]], dtype=object)
    u = [V("u0"), V("u1")]
    gen = m <= 4
    dt, shift, scale = (V("dt"), V("shift"), V("scale")) if gen else (F(2, 3), F(-3, 4), F(3, 2))

    def go():
        if gen:
            scal.PATH.assume(scal.le(F(1, 100), scale))
        with Rules(True), jsym.symbolic(), ode.quiet():
            pm, it, conv = call(kind, MatrixLinOp(sym(A)), sym(dt), sym(u), sym(shift), sym(scale), arr(xs), nr, arr(cs), F(1, 1000))
        return vals(pm), int(vals(it).reshape(-1)[0]) if hasattr(it, "shape") else int(it)

    def case(env):
        g = lambda k, d: float(env[k]) if k in env and abs(float(env[k])) < 20 else d
        x, c = conc_points(kind, nr, np_, env)
        f = lambda z, nm, d: g(nm, d) if isinstance(z, scal.E) else float(z)
        return {"fn": "ident", "kind": kind, "nreal": nr, "A": [[0.0, 1.0], [g("p", -0.6), g("q", 0.3)]], "u": [g("u0", 0.7), g("u1", -0.4)],
                "dt": f(dt, "dt", 0.6), "shift": f(shift, "shift", -0.2), "scale": max(f(scale, "scale", 0.8), 0.01), "xs": x, "cs": c}
    ex = [v for x in xs + cs for v in ((x.re, x.im) if isinstance(x, scal.C) else (x,)) if isinstance(v, scal.E) and v.op == "var"] + u + [V("p"), V("q")] + ([dt, shift, scale] if gen else [])
    seen = set()
    for pi, (st, out, conds, _) in enumerate(scal.explore(go, max_paths=400)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        pm, it = out
        t = nterms(kind, it)
        key = (it, tuple(pm))
        if key in seen:
            continue
        seen.add(key)
        if not 1 <= t <= m:
            ck.direct(f"{lab}/{it}", case({}))
            continue
        want = newton(A, dt, u, shift, scale, xs, cs, t)
        bad = []
        for a, b in zip(pm, want):
            if isinstance(a, scal.C):
                bad.append(scal.bnot(scal.eq(a.im, 0)))
                a = a.re
            bad.append(scal.bnot(scal.eq(scal.expand(scal.sub(a, b)), 0)))
        ck.prove(f"{lab}/terms{t}/{len(seen)}", [b for b in bad if b is not False], [c for c in conds if isinstance(c, scal.E) and not str(c).count("choice")], case, exprs=ex,
                 hints=[[scal.le(F(1, 4), v) for v in ex] + [scal.le(v, 2) for v in ex]], reach=False)
    if not seen:
        ck.problems.append(f"{lab}: no path")
    if len(ck.samples) < 3:
        ck.samples.append({"obligation": lab, "iteration_counts": sorted(k[0] for k in seen)})


def conc_points(kind, nr, np_, env):
    """[re, im] lists for points and coefficients"""
    g = lambda k, d: float(env[k]) if k in env and abs(float(env[k])) < 20 else d
    if kind == "real" or np_ == 0:
        m = nr if kind == "real" or np_ == 0 else nr + 2 * np_
        if kind == "real":
            m = max(nr, 2)
        return [[g(f"x{i}", 1.5 - 0.8 * i), 0.0] for i in range(m)], [[g(f"c{i}", 0.9 / (1 + i)), 0.0] for i in range(m)]
    xs, cs = [], []
    for i in range(nr):
        xs.append([0.0 if kind == "imag" else g(f"x{i}", 1.5 - 0.8 * i), 0.0])
    for k in range(np_):
        j = nr + 2 * k
        a, b = (0.0 if kind == "imag" else g(f"x{j}", 0.4 - 0.3 * k)), g(f"y{j}", 1.1 - 0.5 * k)
        xs += [[a, b], [a, -b]]
    for i in range(len(xs)):
        cx = i >= nr and (i - nr) % 2 == 0
        cs.append([g(f"c{i}", 0.9 / (1 + i)), g(f"d{i}", 0.3 / (1 + i)) if cx else 0.0])
    return xs, cs


def sound(ck, lab, kind, nr, np_):
    """converged is only reported if some computed term c_k N_k u is below tol |u|, or u = 0"""
    m = nr + 2 * np_ if kind != "real" else nr
    u, tol = V("u"), V("tol")
    npz = (m - nr) // 2
    if kind == "real" or npz == 0:
        xs, cs = [F(0)] * m, [V(f"c{i}") for i in range(m)]
    else:
        xs = [F(0)] * nr + [scal.C(F(0), F(1)), scal.C(F(0), F(-1))] * npz
        cs = points(nr, npz)[1]
    r = [F(1)] + [V(f"r{i}") for i in range(1, m + 2)]
    r[m:] = [F(1)] * (m + 2 - m)
    A = chain(kind, nr, m, xs, r)

    def go():
        for v in [u, tol] + [x for x in r if isinstance(x, scal.E)]:
            scal.PATH.assume(scal.lt(0, v))
        scal.PATH.assume(scal.le(tol, 1))
        with Rules(False), jsym.symbolic(), ode.quiet():
            pm, it, conv = call(kind, MatrixLinOp(sym(A)), F(1), sym([u] + [F(0)] * (m + 1)), F(0), F(1), arr(xs), nr, arr(cs), sym(tol))
        it = int(vals(it).reshape(-1)[0]) if hasattr(it, "shape") else int(it)
        return it, vals(conv).reshape(-1)[0] if hasattr(conv, "shape") else conv

    def case(env):
        g = lambda k, d: float(env.get(k, d))
        e = {k: F(env.get(k, 1)) for k in [f"r{i}" for i in range(m)]}
        return {"fn": "sound", "kind": kind, "nreal": nr, "u": g("u", 1.0), "tol": g("tol", 0.1),
                "A": [[float(scal.evalf(x, e)) for x in row] for row in A],
                "xs": [[float(scal.cre(x)), float(scal.cim(x))] for x in xs], "cs": [[g(f"c{i}", 0.5), g(f"d{i}", 0.0)] for i in range(m)]}
    ex = [x for x in r if isinstance(x, scal.E)] + [u, tol] + [V(f"c{i}") for i in range(m)]
    for pi, (st, out, conds, _) in enumerate(scal.explore(go, max_paths=200)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        it, cv = out
        if not isinstance(cv, scal.E) and not cv:
            continue
        bad = cv if isinstance(cv, scal.E) else True
        size = u
        for k in range(1, nterms(kind, it)):      # every computed term at least tol |u| (with a margin for rounding)
            size = scal.mul(size, r[k])
            bad = scal.band(bad, scal.le(scal.mul(F(1001, 1000), scal.mul(tol, u)), scal.mul(scal.absv(scal.cre(cs[k])), size)))
        hint = [scal.le(F(1, 50), scal.absv(v)) for v in ex] + [scal.le(scal.absv(v), 3) for v in ex]
        ck.prove(f"{lab}/path{pi}", [bad], conds, case, exprs=ex, hints=[hint])


def zero(ck, lab, kind, m):
    """u = 0 gives 0, reported as converged (real, conj)"""
    nr = {"real": 3, "conj": m, "imag": 1}[kind]
    xs, cs = data(kind, nr, 0 if kind == "real" else 1)
    A = np.array([[V("a00"), V("a01")], [V("a10"), V("a11")]], dtype=object)

    def go():
        with Rules(False), jsym.symbolic(), ode.quiet():
            pm, it, conv = call(kind, MatrixLinOp(sym(A)), sym(V("dt")), sym([F(0), F(0)]), F(0), F(1), arr(xs), nr, arr(cs), F(1, 1000))
        return vals(pm), vals(conv).reshape(-1)[0] if hasattr(conv, "shape") else conv

    def case(env):
        x, c = conc_points(kind, nr, 0 if kind == "real" else 1, env)
        return {"fn": "zero", "kind": kind, "nreal": nr, "A": [[float(env.get(f"a{i}{j}", 0.3 * i - 0.5 * j + 0.1)) for j in range(2)] for i in range(2)], "u": [0.0, 0.0],
                "dt": float(env.get("dt", 1.0)), "shift": 0.0, "scale": 1.0, "xs": x, "cs": c}
    for pi, (st, out, conds, _) in enumerate(scal.explore(go, max_paths=20)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        pm, cv = out
        bad = [scal.bnot(scal.eq(scal.cre(x), 0)) for x in pm]
        if kind != "imag":
            bad.append(scal.bnot(cv) if isinstance(cv, scal.E) else not bool(cv))
        ck.prove(f"{lab}/path{pi}", [b for b in bad if b is not False], conds, case)


def cnewton(A, dt, u, shift, scale, xs, cs, terms):
    N = np.array(u, dtype=complex)
    out = np.zeros(len(u))
    for j in range(terms):
        out = out + np.real(cs[j] * N)
        N = (dt * A @ N - (shift + scale * xs[j]) * N) / scale
    return out


def replay(case):
    kind, nr = case["kind"], case["nreal"]
    cxs, ccs = np.array([complex(*x) for x in case["xs"]]), np.array([complex(*x) for x in case["cs"]])
    realonly = not (np.any(cxs.imag) or np.any(ccs.imag)) and kind != "imag"
    xs, cs = (jnp.asarray(cxs.real), jnp.asarray(ccs.real)) if realonly else (jnp.asarray(cxs), jnp.asarray(ccs))
    m = len(cxs)
    fn = {"real": "real_leja_expmv", "conj": "complex_conj_leja_expmv", "imag": "complex_conj_imag_leja_expmv"}[kind]
    if case["fn"] == "sound":
        u, A = case["u"], np.array(case["A"])
        uu = np.zeros(len(A))
        uu[0] = u
        with ode.quiet():
            pm, it, conv = call(kind, MatrixLinOp(jnp.asarray(A)), 1.0, jnp.asarray(uu), 0.0, 1.0, xs, nr, cs, case["tol"])
        t = nterms(kind, int(it))
        V_ = uu.astype(complex)
        e = []
        for j in range(t):
            if j:
                e.append(float(np.linalg.norm(np.real(ccs[j]) * V_)))
            V_ = A @ V_ - cxs[j] * V_
        what = f"{fn}(A={A.tolist()}, u={u}*e0, points={case['xs']}, coeffs={case['cs']}, tol={case['tol']})"
        if bool(conv) and (not e or min(e) >= case["tol"] * abs(u)):
            return True, f"{what} reports convergence after {int(it)} iterations although every term is at least tol*|u|: {e} >= {case['tol'] * abs(u)}"
        return False, f"holds (converged={bool(conv)}, terms {e})"
    A, u = np.array(case["A"]), np.array(case["u"])
    dt, shift, scale = case["dt"], case["shift"], case["scale"]
    for tol in (1e-300, 1e-8, 1e-3, 1e-1, 1.0, 10.0):
        try:
            with ode.quiet():
                pm, it, conv = call(kind, MatrixLinOp(jnp.asarray(A)), dt, jnp.asarray(u), shift, scale, xs, nr, cs, tol)
        except Exception as e:
            return True, f"{fn} raised {type(e).__name__}: {e}"
        pm = np.asarray(pm)
        t = nterms(kind, int(it))
        what = f"{fn}(A={case['A']}, dt={dt}, u={case['u']}, shift={shift}, scale={scale}, points={case['xs']}, coeffs={case['cs']}, tol={tol})"
        if case["fn"] == "zero":
            if np.any(pm != 0) or (kind != "imag" and not bool(conv)):
                return True, f"{what} = {pm.tolist()}, converged={bool(conv)}"
            continue
        if not 1 <= t <= m:
            return True, f"{what}: reports {int(it)} iterations with {m} points"
        want = cnewton(A, dt, u, shift, scale, cxs, ccs, t)
        sc = 1 + np.max(np.abs(want))
        V_ = np.array(u, dtype=complex)
        for j in range(t):
            sc += np.max(np.abs(ccs[j] * V_))
            V_ = (dt * A @ V_ - (shift + scale * cxs[j]) * V_) / scale
        if np.iscomplexobj(pm) or not np.max(np.abs(pm - want)) <= 1e-9 * sc:
            return True, f"{what} = {pm.tolist()} after {int(it)} iterations; the interpolant with {t} terms is {want.tolist()}"
    return False, "holds"
