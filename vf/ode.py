"""Harness for the time integrators: generic smooth systems with symbolic
Taylor coefficients, Taylor-series reference solutions, and the contracts that
stand for the phi-function evaluators (verified separately, P09-P13)."""
import builtins, itertools, contextlib, math
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax._src import core
from jax.interpreters import mlir
from . import scal, jsym, common
from .scal import E, S, add, sub, mul, div, coef
from .jsym import SymTracer, SA, sym, vals, symbolic, to_obj, dtype_of

import ormatex_py.ode_sys as ode_sys
import ormatex_py.ode_exp as ode_exp
import ormatex_py.ode_explicit as ode_explicit
import ormatex_py.matexp_krylov as mk
import ormatex_py.matexp_phi as mphi
import ormatex_py.matexp_leja as mleja
import ormatex_py.integrate_wrapper as iw


# ---- shims for Python-level numerics --------------------------------------
class FloatShim(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SymTracer, E, S))


class float_(metaclass=FloatShim):
    def __new__(cls, x=0.0):
        if isinstance(x, (SymTracer, E, S)):
            return x
        return builtins.float(x)


class NpJaxProxy:
    """numpy as seen by the /repo modules: symbolic operands go to jax.numpy"""

    def __getattr__(self, name):
        f = getattr(np, name)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **k):
            if _has_sym(a) or _has_sym(k.values()):
                if name in ("asarray", "array", "ascontiguousarray") and isinstance(a[0], SymTracer):
                    return a[0]
                return getattr(jnp, name)(*a, **k)
            return f(*a, **k)
        return g


def _has_sym(xs):
    for x in xs:
        if isinstance(x, (SymTracer, E, S)):
            return True
        if isinstance(x, (list, tuple)) and _has_sym(x):
            return True
    return False


NPP = NpJaxProxy()


# ---- contracts -------------------------------------------------------------
def phi_coeffs(k, n):
    return [Fraction(1, math.factorial(j + k)) for j in range(n)]


def _lin_comb(cs, vs):
    out = None
    for c, v in zip(cs, vs):
        t = v * c
        out = t if out is None else out + t
    return out


def _is_zero(v):
    return all(jsym._zero(x) for x in vals(v).reshape(-1))


EXTRA_TERMS = [0]


def phi_series(matvec, dt, v, k):
    """sum_j (dt A)^j v/(j+k)!   (terminates: terms are O(h^j))"""
    acc, term = None, v
    n = scal.Cfg.order + 3 + EXTRA_TERMS[0]
    for j in range(n):
        c = Fraction(1, math.factorial(j + k))
        t = _scale(term, c)
        acc = t if acc is None else acc + t
        term = dt * matvec(term)
        if _is_zero(term):
            break
    return acc


def _scale(v, c):
    if c == 1:
        return v
    a = vals(v)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = mul(a[i], c)
    return sym(out)


CALLS = {}


def _count(n):
    CALLS[n] = CALLS.get(n, 0) + 1


def c_phi_linop(a_lo, dt, v0, k, max_krylov_dim=None, iom=100):
    _count("phi_linop")
    return phi_series(lambda x: _mv(a_lo, x), dt, v0, int(k))


def _mv(lo, x):
    """apply a linear operator, drop higher-precision noise"""
    return lo(x) if callable(lo) else lo.matvec(x)


def c_matexp_linop(a_lo, dt, v0, max_krylov_dim=None, iom=100):
    return c_phi_linop(a_lo, dt, v0, 0)


def c_kiops(a_lo, dt, vb, max_krylov_dim=None, iom=100, n_steps=1):
    _count("kiops_fixedsteps")
    acc = None
    for j, b in enumerate(vb):
        if j and _is_zero(b) or (j == 0 and _is_zero(b)):
            continue
        t = phi_series(lambda x: _mv(a_lo, x), dt, b, j)
        acc = t if acc is None else acc + t
    return acc if acc is not None else jnp.zeros_like(vb[0])


# dense contracts are JAX primitives so that they survive jit
phi_all_p = core.Primitive("vf_phi_all")
phi_all_p.multiple_results = True
phi_all_p.def_abstract_eval(lambda z, *, k: [core.ShapedArray(z.shape, z.dtype)] * (k + 1))
phi_all_p.def_impl(lambda z, *, k: (_ for _ in ()).throw(scal.Unsupported("phi contract on concrete data")))


@jsym.rule("vf_phi_all")
def _r_phi_all(prim, args, params):
    _count("dense phi")
    z, k = to_obj(args[0]), params["k"]
    n = z.shape[0]
    pw = [np.array([[Fraction(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)]
    for _ in range(scal.Cfg.order + 2):
        nx = jsym.matmul(pw[-1], z)
        if all(jsym._zero(x) for x in nx.reshape(-1)):
            break
        pw.append(nx)
    out = []
    for kk in range(k + 1):
        m = np.empty((n, n), dtype=object)
        for i in np.ndindex(n, n):
            acc = Fraction(0)
            for j, p in enumerate(pw):
                acc = add(acc, mul(p[i], Fraction(1, math.factorial(j + kk))))
            m[i] = acc
        out.append(SA(m, dtype_of(args[0])))
    return out


def c_phi_all(z, k):
    return phi_all_p.bind(jnp.asarray(z), k=int(k))


def c_phi_sq(z, k, return_all=False):
    r = c_phi_all(z, k)
    return jnp.stack(r) if return_all else r[k]


def c_phi(z, k):
    return c_phi_all(z, k)[k]


def c_phi_inv(z, k, eps=None):
    return c_phi_all(z, k)[k], 0.0


def c_phi_ext(z, k, return_all=False):
    r = c_phi_all(z, k)
    return jnp.stack(r) if return_all else r[k]


def c_phi_appl(z, b, k):
    return (c_phi_all(z, k)[k] @ b).reshape(b.shape)


def c_phi_pfd(z, b, k, method=None):
    return (c_phi_all(z, k)[k] @ b).reshape(b.shape)


def c_leja_re(a_tilde_lo, tau_dt, v, leja_x, n, shift, scale, leja_tol=None, leja_substep=None, **kw):
    _count("leja substep driver")
    EXTRA_TERMS[0] = 4
    try:
        w = phi_series(lambda x: _mv(a_tilde_lo, x), 1, v, 0)
    finally:
        EXTRA_TERMS[0] = 0
    return w[0:n], 7, True, 1.0


def c_leja_im(a_tilde_lo, tau_dt, v, leja_x, n_leja_real, n, shift, scale, leja_tol=None, leja_substep=None, **kw):
    return c_leja_re(a_tilde_lo, tau_dt, v, leja_x, n, shift, scale)


class SyncExecutor:
    """ThreadPoolExecutor stand-in: each submitted task runs either at submit
    time or when a result is first asked for, in a symbolically chosen order."""
    mode = "fifo"
    log = None

    def __init__(self, max_workers=None, *a, **k):
        self.pending = []

    def submit(self, fn, *a, **k):
        f = _Fut(self, fn, a, k)
        self.pending.append(f)
        if SyncExecutor.mode == "choose":
            if scal.PATH.choose(2, "run_now") == 0:
                self.drain_one()
        return f

    def drain_one(self):
        i = 0
        if SyncExecutor.mode == "choose" and len(self.pending) > 1:
            i = scal.PATH.choose(len(self.pending), "task")
        f = self.pending.pop(i)
        if SyncExecutor.log is not None:
            SyncExecutor.log.append(f.seq)
        try:
            f.res = f.fn(*f.a, **f.k)
        except BaseException as e:      # surfaces at result(), as in a real pool
            f.exc = e
        f.done_ = True

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *x) for x in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, *a, **k):
        while self.pending:
            self.drain_one()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class _Fut:
    n = 0

    def __init__(self, ex, fn, a, k):
        self.ex, self.fn, self.a, self.k = ex, fn, a, k
        self.done_, self.exc, self.res = False, None, None
        _Fut.n += 1
        self.seq = _Fut.n

    def result(self, timeout=None):
        while not self.done_:
            self.ex.drain_one()
        if self.exc is not None:
            raise self.exc
        return self.res

    def done(self):
        return self.done_


CONTRACTS = {
    "phi_linop": "phi_linop(A,dt,v,k) = sum_j (dt A)^j v/(j+k)!  (its reduction and evaluators: P09, P11, P12)",
    "matexp_linop": "matexp_linop = phi_linop with k=0",
    "kiops_fixedsteps": "kiops_fixedsteps(A,dt,[b0..bp]) = sum_j phi_j(dt A) b_j (P12)",
    "dense": "f_phi_k_* (dense evaluators, incl. partial fractions) = exact phi_k (P09, P10)",
    "leja": "leja substep drivers return exp(A_tilde)v restricted to n components (P13, P16)",
    "executor": "ThreadPoolExecutor = scheduler that runs tasks in symbolically chosen order",
}


def contract_pairs():
    p = [(mk.phi_linop, c_phi_linop), (mk.matexp_linop, c_matexp_linop), (mk.kiops_fixedsteps, c_kiops),
         (mphi.f_phi_k_sq_all, c_phi_all), (mphi.f_phi_k_sq, c_phi_sq), (mphi.f_phi_k, c_phi),
         (mphi.f_phi_k_inv, c_phi_inv), (mphi.f_phi_k_ext, c_phi_ext), (mphi.f_phi_k_appl, c_phi_appl),
         (mphi.f_phi_k_pfd, c_phi_pfd),
         (mleja.real_leja_expmv_substep, c_leja_re), (mleja.complex_conj_leja_expmv_substep, c_leja_im),
         (ThreadPoolExecutor, SyncExecutor), (np, NPP)]
    return p


@contextlib.contextmanager
def sym_env(contracts=True, extra=(), quiet=True):
    """run /repo code symbolically: contracts substituted, floats/np shimmed"""
    jax.clear_caches()
    pairs = list(extra) + (contract_pairs() if contracts else [(ThreadPoolExecutor, SyncExecutor), (np, NPP)])
    g = {"float": float_}
    if quiet:
        g["print"] = lambda *a, **k: None
    with common.patched(pairs, g):
        with symbolic():
            try:
                yield
            finally:
                pass
    jax.clear_caches()


# ---- generic systems --------------------------------------------------------
def monos(nv, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=nv) if sum(e) <= deg]


class PolySpec:
    """f_i(t,y) = sum_{a,alpha} c_i[a,alpha] (t-t0)^a (y-y0)^alpha, total degree <= deg"""

    def __init__(self, n, deg, autonomous=False, pre="f"):
        self.n, self.deg, self.auto, self.pre = n, deg, autonomous, pre
        self.keys = [(i, e) for i in range(n) for e in monos(n + 1, deg) if not (autonomous and e[0] > 0)]

    def name(self, k):
        return f"{self.pre}{k[0]}_" + "".join(map(str, k[1]))

    def symbols(self):
        return {k: scal.var(self.name(k)) for k in self.keys}


def poly_rhs(n, coefs, t, u, t0, y0):
    """works on tracers, series and floats alike"""
    out = []
    x = [t - t0] + [u[i] - y0[i] for i in range(n)]
    pw = {}

    def p(i, e):
        if (i, e) not in pw:
            pw[(i, e)] = x[i] if e == 1 else p(i, e - 1) * x[i]
        return pw[(i, e)]
    mono = {}
    for i in range(n):
        acc = None
        for (ii, e), c in coefs.items():
            if ii != i:
                continue
            if e not in mono:
                m = None
                for j, ee in enumerate(e):
                    if ee:
                        m = p(j, ee) if m is None else m * p(j, ee)
                mono[e] = m
            m = mono[e]
            term = c if m is None else c * m
            acc = term if acc is None else acc + term
        out.append(acc if acc is not None else u[i] * 0)
    return out


def make_sys(n, coefs, t0, y0, lmat=None, base=None):
    """an OdeSys/OdeSplitSys user subclass with this right-hand side"""
    class PolySys(base or (ode_sys.OdeSplitSys if lmat is not None else ode_sys.OdeSys)):
        def _frhs(self, t, u, **kw):
            return jnp.stack([jnp.asarray(c) for c in poly_rhs(n, coefs, t, u, t0, y0)])

        if lmat is not None:
            def _fl(self, t, u, **kw):
                return ode_sys.MatrixLinOp(lmat)
    return PolySys()


def exact_series(n, coefs, nterms, sgn=1):
    """Taylor coefficients of the solution with y(t0)=y0, relative to y0, as
    scalars; d[i][k] = coefficient of s^k of y_i(t0+s) - y0_i"""
    d = [[Fraction(0)] for _ in range(n)]
    for k in range(nterms):
        save = scal.Cfg.order
        scal.Cfg.order = k + 1
        try:
            ys = [scal.mks(0, list(c), k + 1) for c in d]
            tt = scal.mks(1, [Fraction(1)], k + 1)
            f = poly_rhs(n, coefs, tt, ys, Fraction(0), [Fraction(0)] * n)
            for i in range(n):
                fi = f[i]
                d[i].append(div(coef(fi, k), k + 1))
        finally:
            scal.Cfg.order = save
    return d


def series_from(d, scale=1):
    out, pw = [], Fraction(1)
    for c in d:
        out.append(mul(c, pw))
        pw = mul(pw, scale if isinstance(scale, E) else Fraction(scale))
    return scal.mks(0, out, len(d))


# ---- concrete side ------------------------------------------------------------
def conc_coefs(case_coefs):
    return {(int(k.split("|")[0]), tuple(int(x) for x in k.split("|")[1].split(","))): float(v) for k, v in case_coefs.items()}


def key_str(k):
    return f"{k[0]}|" + ",".join(map(str, k[1]))


def ref_solution(n, coefs, t0, y0, s):
    """high-accuracy local solution y(t0+s): mpmath Taylor series of the
    polynomial ODE (order 30)"""
    import mpmath as mp
    mp.mp.dps = 40
    N = 30
    c = {k: mp.mpf(v) for k, v in coefs.items() if v != 0}
    d = [[mp.mpf(0)] * (N + 1) for _ in range(n)]

    def smul(a, b, m):
        return [mp.fsum(a[i] * b[q - i] for i in range(q + 1)) for q in range(m)]
    for k in range(N):
        m = k + 1
        tt = [mp.mpf(0)] * m
        if m > 1:
            tt[1] = mp.mpf(1)
        xs = [tt] + [d[i][:m] for i in range(n)]
        memo = {}

        def mono(e):
            if e in memo:
                return memo[e]
            r = [mp.mpf(0)] * m
            r[0] = mp.mpf(1)
            for j, ee in enumerate(e):
                for _ in range(ee):
                    r = smul(r, xs[j], m)
            memo[e] = r
            return r
        for i in range(n):
            d[i][k + 1] = mp.fsum(v * mono(e)[k] for (ii, e), v in c.items() if ii == i) / (k + 1)
    s = mp.mpf(s)
    return np.array([float(mp.mpf(y0[i]) + mp.fsum(d[i][k] * s ** k for k in range(N + 1))) for i in range(n)])


def c_gen_leja_conjugate(n=64, a=-1., b=1., c=1.):
    pts = np.linspace(-1, 1, n).astype(complex)
    return pts, 2, 1.0, 0.0


def c_leja_shift_scale(a_tilde_lo, dim, max_power_iter=20, b0=None, scale_factor=1.0):
    return 0.0, 1.0, 1.0, b0, 3


def leja_pairs():
    return [(mleja.gen_leja_conjugate, c_gen_leja_conjugate), (mleja.leja_shift_scale, c_leja_shift_scale)]


# ---- integrator construction (same code symbolically and concretely) -----------
def build_integrator(kind, method, sys_, t0, y0, **kw):
    cls = {"rb": ode_exp.ExpRBIntegrator, "leja": ode_exp.ExpLejaIntegrator, "split": ode_exp.ExpSplitIntegrator,
           "rk": ode_explicit.RKIntegrator}[kind]
    return cls(sys_, t0, y0, method=method, **kw)


def push_history(integ, t_prev, y_prev):
    """put an earlier accepted state behind the current one, through the public
    protocol: restart at the earlier state and accept a step to the current one"""
    t, y = integ.t, integ.y_hist[0]
    integ.reset_ic(t_prev, y_prev)
    integ.accept_step(ode_sys.StepResult(t, t - t_prev, y, -1.0))


def sym_local_error(kind, method, order, deg, n=2, auto=False, hist=False, split_L=False, nterms=None, kw=None,
                    prehook=None):
    """run one real step symbolically.  Returns list of
    (err coefficients [i][k], conds) per path plus the symbols."""
    scal.Cfg.order = nterms or (order + 2)
    K = scal.Cfg.order
    spec = PolySpec(n, deg, auto)
    syms = spec.symbols()
    out = []

    def run():
        with sym_env(extra=leja_pairs()):
            t0 = scal.var("t0")
            y0 = [scal.var(f"y{i}") for i in range(n)]
            cs = {k: sym(v) for k, v in syms.items()}
            lm = None
            if split_L:
                lm = sym([[scal.var(f"L{i}{j}") for j in range(n)] for i in range(n)])
            T0, Y0 = sym(t0), sym(y0)
            if kind in ("rb",) and not auto:
                fts = [syms[(i, (1,) + (0,) * n)] for i in range(n)]
                z = True
                for f in fts:
                    z = scal.band(z, scal.eq(f, 0))
                big = False
                for f in fts:
                    big = scal.bor(big, scal.lt(Fraction(1, 10**6), scal.absv(f)))
                scal.PATH.assume(scal.bor(z, big))
            s = make_sys(n, cs, T0, Y0, lmat=lm)
            h = sym(scal.series_var())
            integ = build_integrator(kind, method, s, T0, Y0, **(kw or {}))
            if hist:
                dm = exact_series(n, syms, K)
                rho = Fraction(1)
                if hist == "rho":
                    rho = scal.var("rho")
                    scal.PATH.assume(scal.le(Fraction(1, 8), rho))
                    scal.PATH.assume(scal.le(rho, 8))
                yprev = [add(y0[i], series_from(dm[i], mul(-1, rho))) for i in range(n)]
                push_history(integ, T0 - sym(rho) * h if hist == "rho" else T0 - h, sym(yprev))
            res = integ.step(h)
            tn = scal.sub(scal.scalar_t(res.t) if hasattr(scal, "scalar_t") else jsym.scalar(res.t), add(t0, jsym.scalar(h)))
            yv = vals(res.y)
            assert yv.shape == (n,), f"step returned shape {yv.shape}"
            return [[coef_or(sub(yv[i], y0[i]), k) for k in range(K)] for i in range(n)], tn

    ex = exact_series(n, syms, K)
    jax.clear_caches()
    for status, res, conds, _ in scal.explore(run):
        if status != "ok":
            out.append((status, None, conds, None))
            continue
        cf, tn = res
        err = [[sub(cf[i][k], ex[i][k]) for k in range(K)] for i in range(n)]
        out.append(("ok", err, conds, tn))
    return out, syms, spec


def coef_or(x, k):
    if isinstance(x, S) and k >= x.prec:
        raise scal.Unsupported(f"series precision lost (O(h^{x.prec}))")
    if scal.is_special(x):
        raise scal.Unsupported("inf/nan in the symbolic result")
    return coef(x, k)


def order_obligation(ck, label, kind, method, order, deg, n=2, auto=False, hist=False, split_L=False, kw=None):
    paths, syms, spec = sym_local_error(kind, method, order, deg, n, auto, hist, split_L, kw=kw)
    ok = True
    for pi, (status, err, conds, tn) in enumerate(paths):
        lab = f"{label}/path{pi}"
        if status != "ok":
            ck.problems.append(f"{lab}: path cut at a bound")
            continue
        bad = []
        for i in range(n):
            for k in range(order + 1):
                bad.append(scal.bnot(scal.eq(err[i][k], 0)))
        tb = [scal.bnot(scal.eq(coef(tn, k), 0)) for k in range(2)]
        allsym = list(syms.values()) + [scal.var("t0")] + [scal.var(f"y{i}") for i in range(n)]
        if hist == "rho":
            allsym.append(scal.var("rho"))
        if split_L:
            allsym += [scal.var(f"L{i}{j}") for i in range(n) for j in range(n)]
        box = [scal.le(scal.absv(v), 2) for v in allsym] + [scal.le(Fraction(1, 4), scal.absv(scal.var(f"y{i}"))) for i in range(n)]
        hints = []
        for thr in (Fraction(1, 4), Fraction(1, 50), Fraction(1, 1000)):
            for k in range(order + 1):
                big = False
                for i in range(n):
                    big = scal.bor(big, scal.le(thr, scal.absv(err[i][k])))
                hints.append(box + [big])

        def case(env, err=err):
            c = {"type": "order", "kind": kind, "method": method, "order": order, "n": n, "hist": hist, "kw": kw or {},
                 "coefs": {key_str(k): float(env.get(spec.name(k), 0)) for k in syms},
                 "t0": float(env.get("t0", 0)), "y0": [float(env.get(f"y{i}", 0)) for i in range(n)]}
            if hist == "rho":
                c["rho"] = float(env.get("rho", 0.5))
            if split_L:
                c["L"] = [[float(env.get(f"L{i}{j}", 0)) for j in range(n)] for i in range(n)]
            full = {v.args[0]: Fraction(0) for v in allsym}
            full.update(env)
            try:
                c["predicted"] = [[float(scal.evalf(err[i][k], full)) for k in range(len(err[i]))] for i in range(n)]
            except Exception:
                pass
            return c
        r = ck.prove(lab, bad + tb, conds, case, hints, exprs=allsym)
        ok = ok and r
        if len(ck.samples) < 12:
            ck.samples.append({"method": method, "autonomous": auto, "n": n, "taylor_degree": deg,
                               "error_coefficients_zero_up_to": order, "dag_nodes": scal.nodes([e for r_ in err for e in r_]),
                               "verdict": str(r)})
    return ok, paths, syms, spec


# ---- concrete replay of order claims ---------------------------------------------
def real_step(case, h, y0=None):
    """one real step at step size h from exact data"""
    n = case["n"]
    cf = conc_coefs(case["coefs"])
    t0 = case["t0"]
    y0 = np.array(case["y0"])
    L = np.array(case["L"]) if "L" in case else None
    s = make_sys(n, cf, t0, y0, lmat=jnp.asarray(L) if L is not None else None)
    kw = dict(case.get("kw") or {})
    integ = build_integrator(case["kind"], case["method"], s, t0, jnp.asarray(y0), **kw)
    if case.get("hist"):
        hp = h * case.get("rho", 1.0)
        push_history(integ, t0 - hp, jnp.asarray(ref_solution(n, cf, t0, y0, -hp)))
    with quiet():
        r = integ.step(h)
    return np.asarray(r.y, dtype=float), float(r.t)


@contextlib.contextmanager
def quiet():
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def replay_order(case):
    """does the real local error fall like h^(order+1)?  Measured on the real
    floating-point code against a 40-digit reference."""
    n, p = case["n"], case["order"]
    cf = conc_coefs(case["coefs"])
    errs = []
    hs = [2.0 ** -k for k in range(2, 9)]
    try:
        for h in hs:
            y, tn = real_step(case, h)
            ref = ref_solution(n, cf, case["t0"], case["y0"], h)
            if abs(tn - (case["t0"] + h)) > 1e-12:
                return True, f"step of size {h} from t={case['t0']} reported time {tn}"
            errs.append(float(np.max(np.abs(y - ref))))
    except Exception as e:
        return True, f"{case['method']}: step raised {type(e).__name__}: {e}"
    if not all(np.isfinite(errs)):
        return True, f"{case['method']}: non-finite result, errors {errs}"
    # observed rate over the pairs that are above round-off
    floor = 1e-12
    rates = [math.log2(a / b) for a, b in zip(errs, errs[1:]) if b > floor and a > floor]
    if not rates:
        return False, f"{case['method']}: errors at round-off {errs}"
    r = rates[-1]
    bad = r < p + 1 - 0.5
    return bad, (f"{case['method']}: local error {errs[0]:.3e} (dt={hs[0]}) ... {errs[-1]:.3e} (dt={hs[-1]}), observed rate "
                 f"{r:.2f}, order {p} needs {p + 1}; t0={case['t0']}, y0={case['y0']}, coefficients={case['coefs']}")


def validate_step(ck, label, paths, syms, spec, kind, method, n, hist, split_L, kw, seed=1):
    """encoder validation: a concrete system through the real code and through
    the encoding; the truncated series must match to its truncation error"""
    import random
    rng = random.Random(seed * 1000 + len(label))
    env = {spec.name(k): Fraction(rng.randint(-8, 8), 8) for k in syms}
    env["t0"] = Fraction(3, 8)
    y0 = [Fraction(5, 8), Fraction(-3, 4), Fraction(1, 2)][:n]
    for i in range(n):
        env[f"y{i}"] = y0[i]
    if hist == "rho":
        env["rho"] = Fraction(3, 4)
    if split_L:
        for i in range(n):
            for j in range(n):
                env[f"L{i}{j}"] = Fraction(rng.randint(-8, 8), 8)
    sel = None
    for st, err, conds, tn in paths:
        if st == "ok" and all(scal.evalf(c, env) for c in conds if isinstance(c, E)):
            sel = err
    if sel is None:
        ck.validate(label, False, "no path covers the validation input")
        return
    case = {"kind": kind, "method": method, "n": n, "hist": hist, "kw": kw or {},
            "coefs": {key_str(k): float(env[spec.name(k)]) for k in syms}, "t0": float(env["t0"]),
            "y0": [float(v) for v in y0], "rho": float(env.get("rho", 1))}
    if split_L:
        case["L"] = [[float(env[f"L{i}{j}"]) for j in range(n)] for i in range(n)]
    h = 2.0 ** -7
    y, tn = real_step(case, h)
    ref = ref_solution(n, conc_coefs(case["coefs"]), case["t0"], case["y0"], h)
    K = len(sel[0])
    pred = np.array([sum(float(scal.evalf(sel[i][k], env)) * h ** k for k in range(K)) for i in range(n)])
    real = y - ref
    tol = 200 * h ** K + 1e-11
    ck.validate(label, bool(np.max(np.abs(real - pred)) <= tol), f"predicted {pred} real {real}")
