"""P16: Leja substepping covers exactly the unit interval with converged substeps, or fails loudly."""
import inspect
import numpy as np
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode, abstr
from vf.jsym import sym, vals
import ormatex_py.matexp_leja as ml
import ormatex_py.ode_exp as oe
from ormatex_py.ode_sys import MatrixLinOp

V = scal.var
SHARDS = 8
ORIG = {"re": ml.real_leja_expmv, "im": ml.complex_conj_leja_expmv}
SUB = {"re": ml.real_leja_expmv_substep, "im": ml.complex_conj_leja_expmv_substep}
SIG = {k: inspect.signature(f) for k, f in ORIG.items()}
NIL = np.array([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]])


class Script:
    """stands for the interpolation routine: exact flow of the nilpotent operator when it says converged, garbage otherwise"""

    def __init__(self, kind, choose, alo, shift, scale, tol, leja_x, nreal, zeros):
        self.kind, self.choose, self.a = kind, choose, alo
        self.exp = dict(shift=shift, scale=scale, tol=tol)
        self.x, self.nreal, self.zeros = np.asarray(leja_x), nreal, zeros
        self.bad, self.calls, self.checked = [], 0, False

    def check(self, b):
        for k, v in self.exp.items():
            if not (isinstance(b[k], (int, float)) or hasattr(b[k], "shape")) or float(b[k]) != float(v):
                self.bad.append(f"{k}={b[k]}, given {v}")
        if b["a_lo"] is not self.a:
            self.bad.append("another operator")
        if self.checked:
            return
        self.checked = True
        x, c = np.asarray(b["leja_x"]), np.asarray(b["coeffs"])
        if len(c) != len(x) or len(x) != len(self.x) + self.zeros or not np.allclose(x[self.zeros:], self.x, atol=1e-9) or np.max(np.abs(x[:self.zeros]), initial=0) > 1e-9:
            self.bad.append(f"points {x} for the given {self.x} and {self.zeros} zeros")
            return
        if self.kind == "im" and int(b["n_leja_real"]) != self.zeros + self.nreal:
            self.bad.append(f"n_leja_real={b['n_leja_real']} for {self.zeros} zeros and {self.nreal} real points")
        z = float(b["shift"]) + float(b["scale"]) * x
        for j in range(len(x)):
            p, t = 0.0, 1.0
            for l in range(len(x)):
                p += c[l] * t
                t *= x[j] - x[l]
            if not abs(p - np.exp(z[j])) <= 1e-5 * (1 + abs(np.exp(z[j]))):
                self.bad.append(f"the interpolant is {p} at the point {z[j]}, where exp is {np.exp(z[j])}")
                return

    def __call__(self, *a, **k):
        b = SIG[self.kind].bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        self.check(b)
        self.calls += 1
        dt, u = b["dt"], b["u"]
        if self.choose(self.calls):
            w = jnp.stack([u[0] + dt * u[1] + dt * dt * u[2] / 2, u[1] + dt * u[2], u[2]])
            return w, 3, True
        return u * 0 + 77.0 + self.calls, 5, False


def points(kind):
    x = np.array([2.0, -2.0, 0.0, 1.1, -1.2]) if kind == "re" else np.array([1.0, -1.0, 1j, -1j, 0.6 + 0.5j, 0.6 - 0.5j])
    return x, (len(x) if kind == "re" else 2)


def drive(kind, script, tau, v, x, nreal, zeros, substep, dd):
    with common.patched([(ORIG[kind], script)]), ode.quiet():
        if kind == "re":
            return SUB[kind](script.a, tau, v, jnp.asarray(x), 2, script.exp["shift"], script.exp["scale"], script.exp["tol"], substep, dd_method=dd)
        return SUB[kind](script.a, tau, v, jnp.asarray(x), nreal, 2, script.exp["shift"], script.exp["scale"], script.exp["tol"], substep, leja_n_zeros=zeros, dd_method=dd)


def run(ck):
    D = 5 if ck.thorough else 3
    ck.bounds += [f"initial substep size any real in [1/3, 1.1], every pattern of converged and failed substeps with at most {D} failures (1 with padding or pade coefficients), any start vector; both substep drivers, with and without substepping, "
                  "dd_method taylor, pade (and recursive without padding), 0..3 padded zeros",
                  "20, 45 or only failures before convergence, so that the substep limit is reached: the driver must raise or be right (one run each); integrators: the evaluator's verdict is a free choice, every method"]
    ck.stubs += ["interpolation routine (P13): converged = the exact flow of a nilpotent operator for the substep it was given, not converged = garbage; the points, coefficients, tolerance and operator it is handed are checked",
                 "float formatting in prints"]
    jobs = []
    for kind in ("re", "im"):
        for zeros in ((0,) if kind == "re" else (0, 1, 2, 3)):
            for dd in ("taylor", "pade") + (("recursive",) if not zeros else ()):
                jobs.append((sub, kind, zeros, dd, D if dd == "taylor" and not zeros else 1))
                jobs.append((nosub, kind, zeros, dd))
        jobs += [(never, kind, 10**9), (never, kind, 45), (never, kind, 20)]
    for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im"):
        for hist in (False, True):
            jobs.append((integ, m, hist))
    ck.jobs(jobs, limit=200)
    if ck.first:
        for seed in range(3):
            rng = np.random.RandomState(seed)
            c = {"fn": "real", "A": (rng.randn(3, 3) * 2).tolist(), "v": rng.randn(3).tolist(), "seed": seed}
            b, msg = replay(c)
            ck.validate(f"real/{seed}", (not b) or bool(ck.violations), msg)


def sub(ck, lab, kind, zeros, dd, D):
    x, nreal = points(kind)
    v = [V(f"v{i}") for i in range(3)]
    tau = V("tau")

    def go():
        scal.PATH.assume(scal.le(F(1, 3), tau))
        scal.PATH.assume(scal.le(tau, F(11, 10)))
        pat = []

        def choose(i):
            if pat.count(False) >= D:
                pat.append(True)
            else:
                pat.append(scal.PATH.choose(2, "conv") == 0)
            return pat[-1]
        s = Script(kind, choose, MatrixLinOp(jnp.asarray(NIL)), -0.7, 1.3, 1e-6, x, nreal, zeros)
        with jsym.symbolic():
            w, it, conv, mx = drive(kind, s, sym(tau), sym(v), x, nreal, zeros, True, dd)
        return vals(w), it, conv, s.bad, pat
    mkc = lambda pat: (lambda env: {"fn": "sub", "kind": kind, "zeros": zeros, "dd": dd, "pattern": pat, "tau": float(env.get("tau", 0.8)), "v": [float(env.get(f"v{i}", 1.0 + i)) for i in range(3)]})
    npaths = 0
    for pi, (st, out, conds, _) in enumerate(scal.explore(go, max_paths=3000)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        npaths += 1
        w, it, conv, bad_, pat = out
        if bad_:
            ck.direct(f"{lab}/args", mkc(pat)({}))
            return
        want = [scal.add(scal.add(v[0], v[1]), scal.mul(F(1, 2), v[2])), scal.add(v[1], v[2])]
        if w.shape != (2,) or not conv:
            ck.direct(f"{lab}/path{pi}", mkc(pat)({}))
            continue
        # the constants of a substep clipped to 1.0 are floats: allow for their rounding (the claim is linear in v)
        diff = [scal.expand(scal.sub(a, b)) for a, b in zip(w, want)]
        bad = [scal.lt(F(1, 10**10), scal.absv(d)) for d in diff]
        ck.prove(f"{lab}/path{pi}", [b for b in bad if b is not False], [c for c in conds if "choice" not in str(c)] + [scal.le(scal.absv(x_), 1) for x_ in v], mkc(pat),
                 hints=[[scal.le(F(1, 2), x_) for x_ in v + [tau]]], reach=pi < 3)
    if len(ck.samples) < 3:
        ck.samples.append({"obligation": lab, "convergence_patterns_times_paths": npaths})


def nosub(ck, lab, kind, zeros, dd):
    x, nreal = points(kind)
    v = [V(f"v{i}") for i in range(3)]

    def go():
        c = scal.PATH.choose(2, "conv") == 0
        s = Script(kind, lambda i: c, MatrixLinOp(jnp.asarray(NIL)), -0.7, 1.3, 1e-6, x, nreal, zeros)
        with jsym.symbolic():
            w, it, conv, mx = drive(kind, s, 0.4, sym(v), x, nreal, zeros, False, dd)
        return vals(w), bool(conv), s.bad, c
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        w, conv, bad_, c = out
        case = lambda env: {"fn": "nosub", "kind": kind, "zeros": zeros, "dd": dd, "pattern": [c], "tau": 0.4, "v": [float(env.get(f"v{i}", 1.0 + i)) for i in range(3)]}
        if bad_ or conv != c:
            ck.direct(f"{lab}/path{pi}", case({}))
            continue
        if c:
            want = [scal.add(scal.add(v[0], v[1]), scal.mul(F(1, 2), v[2])), scal.add(v[1], v[2])]
            bad = [scal.bnot(scal.eq(a, b)) for a, b in zip(w, want)]
            ck.prove(f"{lab}/path{pi}", [b for b in bad if b is not False], [], case)


def never(ck, lab, kind, fails):
    c = {"fn": "never", "kind": kind, "fails": fails}
    b, msg = replay(c)
    ck.validate(lab, (not b) or bool(ck.direct(lab, c) is False), msg)


METH = {"epi2_leja_re": "re", "epi2_leja_im": "im", "epi3_leja_im": "im"}


def integ(ck, lab, method, hist):
    """a step whose evaluation did not converge is never returned"""
    kind = METH[method]

    def go():
        c = scal.PATH.choose(2, "conv") == 0
        sy, it = None, None

        def fake(alo, tau, v, *a, **k):
            return v[:2] * 0 + 0.25, 9, c, 1.0
        with abstr.env(), common.patched([(abstr.a_leja, fake)]):
            s = abstr.abstract_sys(ft0=2.0)
            it = ode.build_integrator("leja", method, s, sym(V("t0")), sym([V("y0"), V("y1")]), n_leja=12)
            if hist:
                ode.push_history(it, sym(V("tp")), sym([V("yp0"), V("yp1")]))
            try:
                r = it.step(sym(V("dt")))
                return c, "returned", None
            except RuntimeError as e:
                return c, "raised", str(e)
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        c, what, _ = out
        bad = (what == "returned") != c
        # the verdict bit is the only unknown: state it as an obligation over the path condition
        ck.prove(f"{lab}/path{pi}", [bad] if bad else [], conds, lambda env: {"fn": "integ", "method": method, "hist": hist, "conv": c})


def replay(case):
    fn = case["fn"]
    if fn in ("sub", "nosub"):
        kind = case["kind"]
        x, nreal = points(kind)
        pat = list(case["pattern"])
        s = Script(kind, lambda i: pat[i - 1] if i <= len(pat) else True, MatrixLinOp(jnp.asarray(NIL)), -0.7, 1.3, 1e-6, x, nreal, case["zeros"])
        what = f"{SUB[kind].__name__}(tau_dt={case['tau']}, v={case['v']}, substep={fn == 'sub'}, dd_method={case['dd']}, zeros={case['zeros']}) with substep convergence pattern {pat}"
        try:
            w, it, conv, mx = drive(kind, s, case["tau"], jnp.asarray(case["v"]), x, nreal, case["zeros"], fn == "sub", case["dd"])
        except Exception as e:
            return True, f"{what} raised {type(e).__name__}: {e}"
        if s.bad:
            return True, f"{what}: interpolation called with {s.bad[0]}"
        v = np.array(case["v"])
        want = np.array([v[0] + v[1] + v[2] / 2, v[1] + v[2]])
        if fn == "nosub" and bool(conv) != pat[0]:
            return True, f"{what} reports converged={conv}"
        if fn == "nosub" and not pat[0]:
            return False, "holds"
        w = np.asarray(w)
        if w.shape != (2,) or not bool(conv) or not np.max(np.abs(w - want)) <= 1e-9 * (1 + np.max(np.abs(v))):
            return True, f"{what} = {w.tolist()} (converged={conv}), exp(A)v is {want.tolist()}"
        return False, "holds"
    if fn == "never":
        kind = case["kind"]
        x, nreal = points(kind)
        s = Script(kind, lambda i: i > case["fails"], MatrixLinOp(jnp.asarray(NIL)), -0.7, 1.3, 1e-6, x, nreal, 0)

        def limited(*a, **k):
            if s.calls > 20000:
                raise MemoryError("no end after 20000 substeps")
            return s(*a, **k)
        what = f"{SUB[kind].__name__} with an evaluator that fails {case['fails']} times first"
        try:
            with common.patched([(ORIG[kind], limited)]), ode.quiet():
                a = (s.a, 1.0, jnp.ones(3), jnp.asarray(x))
                r = SUB[kind](*a, 2, -0.7, 1.3, 1e-6) if kind == "re" else SUB[kind](*a, nreal, 2, -0.7, 1.3, 1e-6, leja_n_zeros=0)
        except RuntimeError as e:
            return False, f"raises RuntimeError: {e}"
        except BaseException as e:
            return True, f"{what}: {type(e).__name__} {e}"
        if bool(r[2]) and not np.allclose(np.asarray(r[0]), [2.5, 2.0], atol=1e-9):
            return True, f"{what} returns {np.asarray(r[0]).tolist()} for exp(A)v = [2.5, 2.0], converged={r[2]}"
        return False, "holds"
    if fn == "integ":
        from checks.p07 import RealSys
        kind = METH[case["method"]]
        fake = lambda alo, tau, v, *a, **k: (v[:2] * 0 + 0.25, 9, case["conv"], 1.0)
        with common.patched([(SUB[kind], fake)]), ode.quiet():
            it = ode.build_integrator("leja", case["method"], RealSys(), 0.3, jnp.asarray([0.4, -0.2]), n_leja=12)
            if case["hist"]:
                ode.push_history(it, 0.2, jnp.asarray([0.38, -0.21]))
            try:
                r = it.step(0.1)
                got = "returned"
            except RuntimeError as e:
                got = "raised"
        if (got == "returned") != case["conv"]:
            return True, f"{case['method']}: evaluation with converged={case['conv']}: step {got}"
        return False, "holds"
    # real evaluators end to end
    A, v = np.array(case["A"]), np.array(case["v"])
    import scipy.linalg
    lo = MatrixLinOp(jnp.asarray(A))
    r = np.max(np.abs(np.linalg.eigvals(A))) + 1
    want = (scipy.linalg.expm(A) @ v)[:2]
    with ode.quiet():
        x, nreal, sc, sh = ml.gen_leja_conjugate(n=40, a=-r, b=r, c=r)
        w, it, conv, mx = ml.complex_conj_leja_expmv_substep(lo, 1.0, jnp.asarray(v), jnp.asarray(x), nreal, 2, sh, sc, 1e-10)
    e = np.max(np.abs(np.asarray(w) - want)) / np.max(np.abs(scipy.linalg.expm(np.abs(A)) @ np.abs(v)))
    return not e <= 1e-6, f"complex_conj_leja_expmv_substep off by {e} for A={case['A']}"
