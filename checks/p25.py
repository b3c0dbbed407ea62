"""P25: what the before-step callback returns reaches every right-hand side evaluation of that step, and of no other step."""
import inspect
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction as F
from vf import ode, abstr, scal, common, jsym
from vf.jsym import sym, vals
from checks.p07 import METHODS
from checks.p17 import vec, mat, diff
import ormatex_py.integrate_wrapper as iw
import ormatex_py.ode_sys as osys

V = scal.var
SHARDS = 8
C0 = 0.35                     # the control a real system uses when it gets none


def controls(kw, default):
    k = kw.get("frhs_kwargs")
    return k["c"] if isinstance(k, dict) and "c" in k else default


def abs_ctrl(fixed, split, default):
    """uninterpreted system with a control; fixed: the control is built in"""
    J = lambda t, u, c: abstr.uf("J", (2, 2), t, u, c)
    L = sym(mat("L", 2, 2))
    base = osys.OdeSplitSys if split else osys.OdeSys

    class Ctrl(base):
        def _frhs(self, t, u, **kw):
            return abstr.uf("F", (2,), t, u, controls(kw, default) if fixed is None else fixed)

        def _fjac(self, t, u, **kw):
            c = controls(kw, default) if fixed is None else fixed
            ft = abstr.uf("Ft", (2,), t, u, c)
            ft = jnp.concatenate([jnp.full((1,), 2.0), ft[1:]])
            return osys.CustomJacLinOp(t, u, self.frhs, J(t, u, c), f_dt=ft, frhs_kwargs=kw)

        def _fl(self, t, u, **kw):
            return osys.MatrixLinOp(L)
    return Ctrl()


MODES = {"values": lambda cs: [{"c": c} for c in cs], "empty": lambda cs: [{}, {"c": cs[1]}, {}][:len(cs)], "none": lambda cs: [None] * len(cs)}


def stepwise(build, T0, Y0, dt, results, i):
    """step i of an integrator that has accepted the given results"""
    a = build(i, T0, Y0)
    for j in range(i):
        a.accept_step(osys.StepResult(results[0][j + 1], dt, results[1][j + 1], -1.0))
    return a.step(dt)


def run(ck):
    N = 4 if ck.thorough else 3
    ck.bounds += [f"{N} steps, a different control value in every step (one numeric entry), or callbacks returning an empty dict or None in some steps; n=2; every t0, dt>0, y0, every system (uninterpreted functions of t, u and the control); "
                  "all native method names", "the control arrives at the system as keyword frhs_kwargs (the convention of the pinned code); the linear part of split systems gets no controls; diffrax and Rust methods take none",
                  "Jacobian operators: right-hand sides with 10 symbolic coefficients per component, n=2, every t, u, v and control"]
    ck.stubs += ["phi evaluators, Leja drivers: uninterpreted functions of all their mathematical arguments", "history before a step: accepted results of the run itself"]
    jobs = []
    for kind, method, kw in METHODS:
        for mode in MODES:
            if mode == "values" or ck.thorough or method in ("epi3", "exp3_dense", "rk4", "epi3_leja_im"):
                jobs.append((through, kind, method, kw, mode, N))
    for via in ("call", "fjac", "AdJac", "FdJac", "Custom", "CustomFd", "np"):
        jobs.append((operator, via))
    for m in MODELS:
        jobs.append((model, m))
    ck.jobs(jobs, limit=300)


# ---- the steps -----------------------------------------------------------------
def through(ck, lab, kind, method, kw, mode, N):
    def go():
        with abstr.env():
            T0, Y0, dt = sym(V("t0")), sym([V("y0"), V("y1")]), sym(V("dt"))
            scal.PATH.assume(scal.lt(0, V("dt")))
            cs, cd = [sym(V(f"c{i}")) for i in range(N)], sym(V("cdef"))
            ret = MODES[mode](cs)
            it = iter(ret)
            s = abs_ctrl(None, kind == "split", cd)
            r = iw.integrate(s, Y0, T0, dt, N, method, callback_before_step=lambda s_, t_, y_: next(it), **kw)
            eff = [x["c"] if x else cd for x in ret]
            build = lambda i, t, y: ode.build_integrator(kind, method, abs_ctrl(eff[i], kind == "split", cd), t, y, **kw)
            out = []
            for i in range(N):
                w = stepwise(build, T0, Y0, dt, (r.t_res, r.y_res), i)
                out.append(list(zip(vals(r.y_res[i + 1]).reshape(-1), vals(w.y).reshape(-1))) + list(zip(vals(r.t_res[i + 1]).reshape(-1), vals(w.t).reshape(-1))))
            same = len(r.cb.get("callback_before_step", [])) == N and all(a is b for a, b in zip(r.cb["callback_before_step"], ret))
            return out, same
    case = {"fn": "through", "kind": kind, "method": method, "kw": kw, "mode": mode, "n": N}
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}/path{pi}: cut ({out})")
            continue
        eqs, same = out
        found = len(ck.violations)
        for i, e in enumerate(eqs):
            bad = [] if same else [True]
            bad += [b for b in (scal.bnot(scal.eq(a, w)) for a, w in e if a is not w) if b is not False]
            ck.prove(f"{lab}/path{pi}/step{i}", bad, conds, lambda env: case)
            if len(ck.violations) > found:      # the later steps start from this one
                break
        if len(ck.samples) < 6:
            ck.samples.append({"method": method, "mode": mode, "equalities": sum(map(len, eqs))})
    b, msg = replay(case)
    ck.validate(f"{lab} real controlled run vs runs with the control built in", (not b) or bool(ck.violations), msg)


class RealCtrl(osys.OdeSplitSys):
    """fixed < 0: reads the control, else the control is built in"""
    fixed: float

    def __init__(self, fixed=None):
        self.fixed = fixed

    def _frhs(self, t, u, **kw):
        c = controls(kw, C0) if self.fixed is None else self.fixed
        return jnp.stack([-u[0] + c * u[1] ** 2 + 0.3 * u[1], -2 * u[1] + c * jnp.sin(2 * t) - 0.4 * c * u[0] * u[1]])

    def _fl(self, t, u, **kw):
        return osys.MatrixLinOp(jnp.asarray([[-1.0, 0.3], [0.1, -2.0]]))


def r_through(case):
    kind, method, kw, n = case["kind"], case["method"], case["kw"], case["n"]
    cs = [1.5, 0.2, 2.1, -0.7][:n]
    ret = MODES[case["mode"]](cs)
    it = iter(ret)
    dt, t0, y0 = 0.11, 0.3, jnp.asarray([0.7, -0.4])
    r = iw.integrate(RealCtrl(), y0, t0, dt, n, method, callback_before_step=lambda s, t, y: next(it), **kw)
    eff = [x["c"] if x else C0 for x in ret]
    build = lambda i, t, y: ode.build_integrator(kind, method, RealCtrl(eff[i]), t, y, **kw)
    tol = 1e-7 if kind == "leja" else 1e-10
    if len(r.cb.get("callback_before_step", [])) != n or any(a is not b for a, b in zip(r.cb["callback_before_step"], ret)):
        return True, f"{method}: callback results recorded as {r.cb.get('callback_before_step')}"
    for i in range(n):
        w = stepwise(build, t0, y0, dt, (r.t_res, r.y_res), i)
        e = float(np.max(np.abs(np.asarray(r.y_res[i + 1]) - np.asarray(w.y))))
        if not e <= tol:
            return True, (f"{method}: callback returned {ret}; step {i} gives {np.asarray(r.y_res[i + 1]).tolist()}, the same step of the system with "
                          f"control {eff[i]} built in gives {np.asarray(w.y).tolist()}")
    return False, "controls reach the steps"


# ---- Jacobian operators and systems ----------------------------------------------
def rhs(K, t, u, c):
    """generic controlled right-hand side (K: 2 x 10 coefficients)"""
    m = jnp.stack([jnp.ones(()) * 1.0, t * 1.0, u[0], u[1], c * 1.0, c * u[0], c * u[1], c * t, u[0] * u[1], c * c * u[0] * u[0]])
    return K @ m


def make(K, fixed, split=False):
    class Poly(osys.OdeSys):
        def _frhs(self, t, u, **kw):
            return rhs(K, t, u, controls(kw, C0) if fixed is None else fixed)
    return Poly()


def observe(via, K, t, u, v, c, ctrl, A):
    """everything a step uses of the operator; ctrl: pass the control (else it is built in)"""
    s = make(K, None if ctrl else c)
    fk = {"frhs_kwargs": {"c": c}} if ctrl else {}
    if via == "call":
        return [s.frhs(t, u, **fk), s(t, u, **fk), s(t, u, None, **fk)]
    if via == "np":
        # OdeSysNp converts to numpy: only its Jacobian stays in JAX
        lo = osys.OdeSysNp(s).fjac(t, u.reshape((2, 1)), **fk)
    elif via == "fjac":
        lo = s.fjac(t, u, **fk)
    else:
        kw = {"frhs_kwargs": fk}
        lo = {"AdJac": lambda: osys.AdJacLinOp(t, u, s.frhs, **kw), "FdJac": lambda: osys.FdJacLinOp(t, u, s.frhs, **kw),
              "Custom": lambda: osys.CustomJacLinOp(t, u, s.frhs, A, v, **kw), "CustomFd": lambda: osys.CustomJacLinOp(t, u, s.frhs, A, **kw)}[via]()
    return [lo.matvec(v), lo(v), lo._fdt(), lo._frhs_cached()] + ([] if via == "FdJac" else [lo.dense()])


def operator(ck, lab, via):
    def go():
        if via == "FdJac":          # the base case of the finite difference step (P17 covers the others)
            for i in range(2):
                scal.PATH.assume(scal.lt(0, V(f"u{i}")))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            args = sym(mat("k", 2, 10)), sym(V("t")), sym(vec("u", 2)), sym(vec("v", 2)), sym(V("c"))
            A = sym(mat("a", 2, 2))
            g, w = observe(via, *args, True, A), observe(via, *args, False, A)
            return [b for x, y in zip(g, w) for b in diff(vals(x), vals(y), "")]
    case = lambda env: {"fn": "operator", "via": via, "env": {k: float(x) for k, x in env.items() if isinstance(x, (int, float, F))}}
    for pi, (st, bad, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({bad})")
            continue
        ck.prove(f"{lab}/path{pi}", bad, conds, case)
    b, msg = replay(case({}))
    ck.validate(lab, (not b) or bool(ck.violations), msg)


def r_operator(case):
    K = jnp.asarray(np.array([[0.4, -0.3, 0.7, 0.2, 1.1, -0.6, 0.5, 0.9, -0.8, 0.35], [-0.2, 0.6, -0.5, 0.8, -0.7, 0.45, 1.2, -0.4, 0.3, 0.55]]))
    t, u, v, A = 0.4, jnp.asarray([0.7, 1.3]), jnp.asarray([0.5, -1.1]), jnp.asarray([[0.1, -0.2], [0.3, 0.4]])
    names = ["f", "call", "call with args"] if case["via"] == "call" else ["matvec", "call", "time derivative", "cached f", "dense"]
    for c in (1.5, -0.8, 0.0):
        g, w = observe(case["via"], K, t, u, v, c, True, A), observe(case["via"], K, t, u, v, c, False, A)
        for nm, x, y in zip(names, g, w):
            if not np.max(np.abs(np.asarray(x) - np.asarray(y))) <= 1e-12:
                return True, f"{case['via']}: {nm} with control {c} is {np.asarray(x).tolist()}; with the control built in it is {np.asarray(y).tolist()}"
    return False, "operators see the control"


# ---- the models that define their own Jacobian --------------------------------------
def m_lotka():
    import ormatex_py.progression.lotka_volterra as lv
    return lv.LotkaVolterra, {"alpha": 1.1, "beta": 0.4, "delta": 0.3, "gamma": 0.7}, ()


def m_lotka_t():
    import ormatex_py.progression.lotka_volterra as lv
    return lv.LotkaVolterraNonauto, {"alpha": 1.1, "beta": 0.4, "delta": 0.3, "gamma": 0.7}, ()


def m_bateman():
    import ormatex_py.progression.bateman_sys as bs
    return bs.TestBatemanSysJac, {}, (["s0", "s1"], {"s0": ("s1", 0.3), "s1": ("none", 0.1)})


MODELS = {"LotkaVolterra": m_lotka, "LotkaVolterraNonauto": m_lotka_t, "TestBatemanSysJac": m_bateman}


def controlled(m, c=None):
    """the model plus a source switched by the control (its Jacobian is the model's own)"""
    cls, kw, a = MODELS[m]()

    class Sub(cls):
        def _frhs(self, t, u, **k):
            return cls._frhs(self, t, u, **k) + jnp.stack([1.0 * (controls(k, C0) if c is None else c), 0.5 * (controls(k, C0) if c is None else c)])
    return Sub(*a, **kw)


def model(ck, lab, m):
    def go():
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            t, u, c = sym(V("t")), sym(vec("u", 2)), sym(V("c"))
            s, b = controlled(m), controlled(m, c)
            fk = {"frhs_kwargs": {"c": c}}
            g, w = s.fjac(t, u, **fk), b.fjac(t, u)
            v = sym(vec("v", 2))
            return [x for p, q in ((g._frhs_cached(), w._frhs_cached()), (g._frhs_cached(), s.frhs(t, u, **fk)), (g._fdt(), w._fdt()), (g(v), w(v))) for x in diff(vals(p), vals(q), "")]
    case = {"fn": "model", "m": m}
    for pi, (st, bad, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({bad})")
            continue
        ck.prove(f"{lab}/path{pi}", bad, conds, lambda env: case)
    b, msg = replay(case)
    ck.validate(lab, (not b) or bool(ck.violations), msg)


def r_model(case):
    t, u, v = 0.4, jnp.asarray([0.7, 1.3]), jnp.asarray([0.5, -1.1])
    for c in (1.5, -0.8):
        s, b = controlled(case["m"]), controlled(case["m"], c)
        g, w = s.fjac(t, u, frhs_kwargs={"c": c}), b.fjac(t, u)
        for nm, x, y in (("cached f", g._frhs_cached(), w._frhs_cached()), ("time derivative", g._fdt(), w._fdt()), ("matvec", g(v), w(v))):
            if not np.max(np.abs(np.asarray(x) - np.asarray(y))) <= 1e-12:
                return True, f"{case['m']} with a controlled source: {nm} of fjac with control {c} is {np.asarray(x).tolist()}, with the control built in {np.asarray(y).tolist()}"
    return False, "model Jacobian sees the control"


REPLAY = {"through": r_through, "operator": r_operator, "model": r_model}


def replay(case):
    try:
        with ode.quiet():
            return REPLAY[case["fn"]](case)
    except Exception as e:
        return True, f"{case.get('method') or case.get('via') or case.get('m')}: raised {type(e).__name__}: {str(e)[:200]}"
