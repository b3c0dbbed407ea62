"""P20: the shipped models' right-hand sides, Jacobians, time derivatives, linear parts and mass operators belong together."""
import math
import numpy as np
import jax.numpy as jnp
import equinox as eqx
from jax.experimental import sparse as jsp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.progression.lotka_volterra as lv
import ormatex_py.progression.bateman_sys as bs
import ormatex_py.progression.advection_diffusion_1d as ad
from checks.p17 import mat, vec, mv, diff

V = scal.var
SHARDS = 8
PARS = ("alpha", "beta", "delta", "gamma")


class Assembler:
    """stands for AdDiffSEM: any stiffness matrix, lumped mass, source and Dirichlet set"""

    def __init__(self, A, Ml, b, D, xs=None):
        self.A, self.Ml, self.b, self.dirichlet_bd, self.xs = A, Ml, b, D, xs

    def assemble(self, **kw):
        n = self.A.shape[0]
        idx = np.array([(i, j) for i in range(n) for j in range(n)])
        wrap = sym if self.A.dtype == object else jnp.asarray
        return jsp.BCOO((wrap(self.A.reshape(-1)), jnp.asarray(idx)), shape=(n, n)), wrap(self.Ml), wrap(self.b)

    def collocation_points(self):
        return sym(self.xs) if self.xs.dtype == object else jnp.asarray(self.xs)


def run(ck):
    ck.bounds += ["Lotka-Volterra: every parameter, state, direction and time (autonomous and hunted)",
                  "Bateman test system: every 3x3 matrix; finite element systems: every 3x3 stiffness matrix, positive lumped mass, source and state, Dirichlet set {} / {0} / {0,2}",
                  "time-dependent boundary data: every time in [-1/2,5/2] away from the kinks of the torus distance; torus distance for points in [-1, 3/2]"]
    ck.stubs += ["AdDiffSEM.assemble: any matrices (P22 decides what it assembles)", "sin, cos, exp: uninterpreted functions with their derivatives"]
    jobs = [(lotka, "LotkaVolterra"), (lotka, "LotkaVolterraNonauto"), (hunt,), (bateman,)]
    jobs += [(sem, c, D) for c in ("AffineLinearSEM", "NonautonomousSEM") for D in ((), (0,), (0, 2))] + [(torus,)]
    ck.jobs(jobs, limit=200)


def both(s, t, u, v):
    """value, J v, f_t, by evaluating the real right-hand side on series"""
    e = scal.mks(1, [F(1)], 2)
    f0 = vals(s.frhs(sym(t), sym(u)))
    fv = vals(s.frhs(sym(t), sym(np.array([scal.add(a, scal.mul(e, b)) for a, b in zip(u, v)], dtype=object))))
    ft = vals(s.frhs(sym(scal.add(t, e)), sym(u)))
    return f0, [scal.coef(x, 1) for x in fv], [scal.coef(x, 1) for x in ft]


def operators(s, t, u, v, jv, ft, f0):
    lo = s.fjac(sym(t), sym(u))
    D = vals(lo.dense())
    return diff(vals(lo.matvec(sym(v))), jv, "") + diff(mv(D, v), jv, "") + diff(vals(lo._fdt()), ft, "") + diff(vals(lo._frhs_cached()), f0, "")


# ---- Lotka-Volterra -----------------------------------------------------------
def lotka(ck, lab, cls):
    t, u, v, P = V("t"), vec("u", 2), vec("v", 2), [V(p) for p in PARS]
    t2, u2 = V("t2"), vec("z", 2)

    def go():
        scal.Cfg.order = 2
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = getattr(lv, cls)(**{k: sym(p) for k, p in zip(PARS, P)})
            f0, jv, ft = both(s, t, u, v)
            al, be, de, ga = P
            if cls == "LotkaVolterraNonauto":
                ga = scal.add(ga, scal.mul(F(2, 5), scal.add(scal.uf("sin", scal.mul(F(1, 5), t)), 1)))
            xy = scal.mul(u[0], u[1])
            w = [scal.sub(scal.mul(al, u[0]), scal.mul(be, xy)), scal.sub(scal.mul(de, xy), scal.mul(ga, u[1]))]
            L1, L2 = (vals(s.fl(sym(a), sym(b)).dense()) for a, b in ((t, u), (t2, u2)))
            I = np.array([[F(int(i == j)) for j in range(2)] for i in range(2)], dtype=object)
            return diff(f0, w, "") + operators(s, t, u, v, jv, ft, f0) + diff(L1, L2, "") + diff(vals(s.fm(sym(t), sym(u)).dense()), I, "")
    case = lambda env: {"fn": "lotka", "cls": cls, "env": {k: float(env.get(k, d)) for k, d in DEF.items()}}
    paths(ck, lab, go, case)


DEF = {"t": 0.7, "t2": -0.3, "u0": 0.8, "u1": 1.3, "z0": 0.2, "z1": -0.4, "v0": 1.0, "v1": -0.5, "alpha": 1.1, "beta": 0.9, "delta": 0.75, "gamma": 1.3}


def hunt(ck, lab):
    """the hunting rate lies in [0, 0.8] and its hand-written derivative is its derivative"""
    t = V("t")

    def go():
        scal.Cfg.order = 2
        e = scal.mks(1, [F(1)], 2)
        s = scal.uf("sin", scal.mul(F(1, 5), t))
        scal.PATH.assume(scal.le(scal.absv(s), 1))
        with jsym.symbolic(), ode.quiet():
            h = vals(lv.f_pred_hunt(sym(t))).reshape(-1)[0]
            d = vals(lv.f_pred_hunt_dt(sym(t))).reshape(-1)[0]
            he = vals(lv.f_pred_hunt(sym(scal.add(t, e)))).reshape(-1)[0]
        return diff([scal.coef(he, 1)], [d], "") + [scal.lt(h, 0), scal.lt(F(4, 5), h)]
    paths(ck, lab, go, lambda env: {"fn": "hunt", "t": float(env.get("t", 0.3))})


def paths(ck, lab, go, case, validate=True):
    common.paths(ck, lab, go, case, replay, validate)


# ---- Bateman test system ---------------------------------------------------------
def bateman(ck, lab):
    n = 3
    A, t, u, v = mat("a", n, n), V("t"), vec("u", n), vec("v", n)
    with ode.quiet():
        s0 = bs.TestBatemanSysJac(list(bs.decay_lib_test), bs.decay_lib_test)

    def go():
        scal.Cfg.order = 2
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = eqx.tree_at(lambda q: q.bat_mat, s0, sym(A))
            f0, jv, ft = both(s, t, u, v)
            return diff(f0, mv(A, u), "") + operators(s, t, u, v, jv, ft, f0) + diff(vals(s.fl(sym(t), sym(u)).dense()), A, "") + diff(vals(s.fl(sym(t), sym(u)).matvec(sym(v))), jv, "")
    case = lambda env: {"fn": "bateman", "A": [[float(env.get(f"a{i}{j}", 1 + i - 2 * j)) for j in range(n)] for i in range(n)], "t": float(env.get("t", 0.1)),
                        "u": [float(env.get(f"u{i}", 1 + i)) for i in range(n)], "v": [float(env.get(f"v{i}", 1 - i)) for i in range(n)]}
    paths(ck, lab, go, case)


# ---- finite element systems --------------------------------------------------------
def torus_ref(alg, t):
    """d(0, 0.3 + t/2) on the circle; alg decides comparisons"""
    z = scal.add(F(3, 10), scal.mul(F(1, 2), t))
    for k in range(-3, 4):
        if alg(scal.band(scal.le(k, z), scal.lt(z, k + 1))):
            r = scal.sub(z, k)
            return (scal.sub(1, r), -1) if alg(scal.lt(F(1, 2), r)) else (r, 1)
    raise scal.BoundExceeded("time")


def sem(ck, lab, cls, D):
    n = 3
    A, M, b, t, u, v = mat("a", n, n), vec("m", n), vec("b", n), V("t"), vec("u", n), vec("v", n)
    dset = np.array(D, dtype=int)

    def go():
        scal.Cfg.order = 2
        P = scal.PATH
        for x in M:
            P.assume(scal.lt(0, x))
        data = F(0)
        if cls == "NonautonomousSEM":
            P.assume(scal.le(F(-1, 2), t))
            P.assume(scal.le(t, F(5, 2)))
        if cls == "NonautonomousSEM" and D:
            d, sg = torus_ref(P.decide, t)
            P.assume(scal.lt(0, d))
            P.assume(scal.lt(d, F(1, 2)))
            # d/dt exp(-(d/0.1)^2)
            data = scal.mul(scal.exp(scal.mul(F(-100), scal.mul(d, d))), scal.mul(F(-100) * sg, d))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = getattr(ad, cls)(Assembler(A, M, b, dset if D else None))
            f0, jv, ft = both(s, t, u, v)
            w, wj, L = [], [], np.empty((n, n), dtype=object)
            Au, Av = mv(A, u), mv(A, v)
            for i in range(n):
                for j in range(n):
                    L[i, j] = scal.div(scal.mul(-1, A[i, j]), M[i])
                w.append(data if i in D else scal.div(scal.sub(b[i], Au[i]), M[i]))
                wj.append(F(0) if i in D else scal.div(scal.mul(-1, Av[i]), M[i]))
            bad = diff(f0, w, "") + diff(jv, wj, "")
            lo = s.fjac(sym(t), sym(u))
            bad += diff(vals(lo.matvec(sym(v))), jv, "") + diff(vals(lo._fdt()), ft, "") + diff(vals(lo._frhs_cached()), f0, "")
            fl = s.fl(sym(t), sym(u))
            keep = [i for i in range(n) if i not in D]
            bad += diff([vals(fl.matvec(sym(v)))[i] for i in keep], [wj[i] for i in keep], "") + diff(vals(fl.dense())[keep], L[keep], "")
            bad += diff(vals(s.fm(sym(t), sym(u)).matvec(sym(v))), [scal.mul(a, c) for a, c in zip(M, v)], "")
        return bad
    case = lambda env: {"fn": "sem", "cls": cls, "D": list(D), "A": [[float(env.get(f"a{i}{j}", 1 + i - 2 * j)) for j in range(n)] for i in range(n)],
                        "M": [float(env.get(f"m{i}", 1 + 0.5 * i)) for i in range(n)], "b": [float(env.get(f"b{i}", i)) for i in range(n)], "t": float(env.get("t", 0.1)),
                        "u": [float(env.get(f"u{i}", 1 + i)) for i in range(n)], "v": [float(env.get(f"v{i}", 1 - i)) for i in range(n)]}
    paths(ck, lab, go, case)


def torus(ck, lab):
    """torus_distance is the distance on the circle: the least |x - y - k|"""
    x, y = V("x"), V("y")

    def go():
        P = scal.PATH
        for z in (x, y):
            P.assume(scal.le(-1, z))
            P.assume(scal.le(z, F(3, 2)))
        with jsym.symbolic(), ode.quiet():
            d = vals(ad.torus_distance(sym(x), sym(y))).reshape(-1)[0]
        bad, hit = [], []
        for k in range(-3, 4):
            a = scal.absv(scal.sub(scal.sub(x, y), k))
            bad.append(scal.lt(a, d))
            hit.append(scal.eq(a, d))
        none = hit[0]
        for h in hit[1:]:
            none = scal.bor(none, h)
        return bad + [scal.bnot(none)]
    paths(ck, lab, go, lambda env: {"fn": "torus", "x": float(env.get("x", 0.3)), "y": float(env.get("y", -0.4))})


# ---- replay ---------------------------------------------------------------------
def clip(x, m=20.0):
    return float(max(-m, min(m, x)))


def replay(case):
    try:
        with ode.quiet():
            return {"lotka": r_lotka, "hunt": r_hunt, "bateman": r_bateman, "sem": r_sem, "torus": r_torus}[case["fn"]](case)
    except Exception as e:
        return True, f"{case['fn']} {case.get('cls', '')} raised {type(e).__name__}: {str(e)[:200]}"


def near(g, w, tol=1e-9):
    g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
    return g.shape == w.shape and (w.size == 0 or bool(np.max(np.abs(g - w)) <= tol * (1 + np.max(np.abs(w)))))


def compare(what, pairs):
    for nm, g, w in pairs:
        if not near(g, w):
            return True, f"{what}: {nm} = {np.asarray(g).tolist()}, expected {np.asarray(w).tolist()}"
    return False, "agree"


def r_lotka(case):
    E = {k: clip(x) for k, x in case["env"].items()}
    cls = case["cls"]
    for E in (E, DEF):
        t, x, y = E["t"], E["u0"], E["u1"]
        al, be, de, ga = (E[p] for p in PARS)
        s = getattr(lv, cls)(**{p: E[p] for p in PARS})
        u, v = jnp.array([x, y]), np.array([E["v0"], E["v1"]])
        g, gt = (ga, 0.0) if cls == "LotkaVolterra" else (ga + 0.4 * (math.sin(0.2 * t) + 1), 0.08 * math.cos(0.2 * t))
        f = [al * x - be * x * y, de * x * y - g * y]
        J = np.array([[al - be * y, -be * x], [de * y, de * x - g]])
        lo = s.fjac(t, u)
        r = compare(f"{cls} with {E}", [("f", s.frhs(t, u), f), ("J v", lo.matvec(jnp.asarray(v)), J @ v), ("J", lo.dense(), J), ("f_t", lo._fdt(), [0.0, -gt * y]), ("cached f", lo._frhs_cached(), f),
                                         ("L at another state", s.fl(E["t2"], jnp.array([E["z0"], E["z1"]])).dense(), s.fl(t, u).dense()), ("mass", s.fm(t, u).dense(), np.eye(2))])
        if r[0]:
            return r
    return False, "agree"


def r_hunt(case):
    for t in (clip(case["t"], 50), 1.0, 5.0, 20.0):
        r = compare(f"t={t}", [("hunting rate", lv.f_pred_hunt(t), 0.4 * (math.sin(0.2 * t) + 1)), ("its derivative", lv.f_pred_hunt_dt(t), 0.08 * math.cos(0.2 * t))])
        if r[0]:
            return r
    return False, "agree"


def r_bateman(case):
    A = np.clip(np.array(case["A"]), -20, 20)
    s0 = bs.TestBatemanSysJac(list(bs.decay_lib_test), bs.decay_lib_test)
    for A in (A, np.arange(9.0).reshape(3, 3) ** 1.5):
        s = eqx.tree_at(lambda q: q.bat_mat, s0, jnp.asarray(A))
        for u, v in ((case["u"], case["v"]), ([1.0, 2.0, -1.0], [0.5, -2.0, 3.0])):
            u, v = np.clip(u, -20, 20), np.clip(v, -20, 20)
            t = clip(case["t"])
            lo, fl = s.fjac(t, jnp.asarray(u)), s.fl(t, jnp.asarray(u))
            r = compare(f"TestBatemanSysJac with matrix {A.tolist()}", [("f", s.frhs(t, jnp.asarray(u)), A @ u), ("J v", lo.matvec(jnp.asarray(v)), A @ v), ("J", lo.dense(), A), ("f_t", lo._fdt(), 0 * u),
                                                                       ("L", fl.dense(), A), ("L v", fl.matvec(jnp.asarray(v)), A @ v), ("cached f", lo._frhs_cached(), A @ u)])
            if r[0]:
                return r
    return False, "agree"


def g_dirichlet(t):
    z = (0.3 + 0.5 * t) % 1
    d, sg = (1 - z, -1) if z > 0.5 else (z, 1)
    return -100 * sg * d * math.exp(-100 * d * d), -50 * (1 - 200 * d * d) * math.exp(-100 * d * d)


def r_sem(case):
    D = list(case["D"])
    for k in range(2):
        c = case if not k else {**case, "A": [[1.5, -0.4, 0.3], [0.2, 2.5, -1.0], [-0.7, 0.1, 0.9]], "M": [0.5, 1.5, 2.0], "b": [1.0, -2.0, 0.5], "u": [0.3, 1.0, -1.2], "v": [1.0, 0.2, -0.5]}
        A, M, b, u, v = (np.clip(np.array(c[q], dtype=float), -20, 20) for q in ("A", "M", "b", "u", "v"))
        M = np.maximum(M, 1e-3)
        for t in (clip(c["t"], 3), 0.1, 1.2):
            s = getattr(ad, c["cls"])(Assembler(A, M, b, np.array(D, dtype=int) if D else None))
            f, J, ft = (b - A @ u) / M, -A / M[:, None], np.zeros(3)
            f[D], JD, LD = 0.0, J.copy(), [i for i in range(3) if i not in D]
            JD[D] = 0
            if c["cls"] == "NonautonomousSEM":
                f[D], ft[D] = g_dirichlet(t)
            uu, vv = jnp.asarray(u), jnp.asarray(v)
            lo, fl = s.fjac(t, uu), s.fl(t, uu)
            r = compare(f"{c['cls']} with Dirichlet set {D}, t={t}, A={A.tolist()}, M={M.tolist()}", [("f", s.frhs(t, uu), f), ("J v", lo.matvec(vv), JD @ v), ("f_t", lo._fdt(), ft), ("cached f", lo._frhs_cached(), f),
                        ("L v (free rows)", np.asarray(fl.matvec(vv))[LD], (J @ v)[LD]), ("L (free rows)", np.asarray(fl.dense())[LD], J[LD]), ("mass", s.fm(t, uu).matvec(vv), M * v)])
            if r[0]:
                return r
    return False, "agree"


def r_torus(case):
    for x, y in ((clip(case["x"], 2), clip(case["y"], 2)), (0.1, 0.9), (-0.3, 1.4)):
        w = min(abs(x - y - k) for k in range(-6, 7))
        if not near(ad.torus_distance(x, y), w):
            return True, f"torus_distance({x}, {y}) = {float(ad.torus_distance(x, y))}, distance on the circle {w}"
    return False, "agree"
