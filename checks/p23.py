"""P23: the spectral interval handed to the Leja methods: Rayleigh quotients of the power iteration, never NaN, never empty."""
import inspect
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode, abstr
from vf.jsym import sym, vals
from vf.scal import add, sub, mul, expand
import ormatex_py.matexp_leja as ml
from ormatex_py.ode_sys import MatrixLinOp
from checks.p17 import mat, vec, mv

V = scal.var
SHARDS = 8
TOL = F(1, 16)


def dot(a, b):
    t = F(0)
    for x, y in zip(a, b):
        t = add(t, mul(x, y))
    return t


class Choose:
    """the termination test of the iteration may go either way (comparisons with the tolerance only)"""
    def __enter__(self):
        self.old = {k: jsym.RULES[k] for k in ("lt", "le", "gt", "ge", "lt_to", "le_to")}
        n = [0]

        def mk(old):
            def one(a, b):
                if any(not isinstance(x, (scal.E, scal.C)) and x == TOL for x in (a, b)):
                    n[0] += 1
                    return scal.var(f"choice_tol{n[0]}", "B")
                return old(a, b)
            return jsym.ew(one)
        for k, f in (("lt", scal.lt), ("lt_to", scal.lt), ("le", scal.le), ("le_to", scal.le), ("gt", lambda a, b: scal.lt(b, a)), ("ge", lambda a, b: scal.le(b, a))):
            jsym.RULES[k] = mk(f)

    def __exit__(self, *a):
        jsym.RULES.update(self.old)


class Fork:
    """a division splits on its denominator being zero"""
    def __enter__(self):
        self.old, scal.Cfg.div_mode = scal.Cfg.div_mode, "fork"

    def __exit__(self, *a):
        scal.Cfg.div_mode = self.old


def call(A, b, it, tol=TOL):
    with jsym.symbolic(), ode.quiet():
        e, v, k = ml.power_iter(MatrixLinOp(sym(A)), sym(b), it, float(tol))
    return vals(e).reshape(-1)[0], vals(v), int(vals(k).reshape(-1)[0]) if hasattr(k, "shape") else int(k)


def krylov(A, b, k):
    for _ in range(k):
        b = mv(A, b)
    return b


def case_of(fn, A, b, **kw):
    def mk(env):
        g = lambda x: float(scal_eval(x, env))
        return dict(kw, fn=fn, A=[[g(x) for x in r] for r in A], b=[g(x) for x in b])
    return mk


def scal_eval(x, env):
    if isinstance(x, scal.E):
        assert x.op == "var"
        return env.get(x.args[0], F(7, 10))
    return x


def run(ck):
    D = 6 if ck.thorough else 4
    ck.bounds += [f"one iteration: every 2x2 and 3x3 matrix and diagonal 4x4 matrix, every start vector; up to {D} iterations are that iteration repeated, every outcome of the termination test",
                  "termination: every diagonal 2x2 operator with eigenvalues in [-4,4], every start vector with components (1, [1/4,4]), at most 2 iterations; 3 (thorough: 4) iterations with first eigenvalue 2 or -3 and start vector (1,1) or (1,2), tolerance 1/16",
                  "degenerate operators: every strictly upper triangular 2x2 and 3x3 (and zero) operator, every start vector with last component 1, division by zero followed exactly",
                  "interval: every 2x2 operator, scale factor any real in [1/2,4], 2 iterations; steps: every dt, leja_a, leja_c in the ranges stated with each job"]
    ck.stubs += ["Rayleigh runs: the comparison with the tolerance has any outcome", "step runs: the Leja evaluator (P13, P16) is replaced by a recorder of its arguments, the power iteration by a symbolic estimate"]
    jobs = [(rayleigh, "full", 2), (rayleigh, "full", 3), (rayleigh, "diag", 4)] + [(iterate, n, k) for n in (2, 3) for k in range(1, D + 1)]
    jobs += [(stops, k) for k in (1, 2)] + [(stops, k, l0, b1) for k in ((3, 4) if ck.thorough else (3,)) for l0 in (2, -3) for b1 in (1, 2)]
    jobs += [(null, n, zero) for n in (2, 3) for zero in (False, True)]
    jobs += [(interval, "full"), (interval, "null"), (guess,)]
    for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im"):
        for given in ("none", "a", "ac"):
            jobs.append((steps, m, given))
    ck.jobs(jobs, limit=150)
    if ck.first:
        rng = np.random.RandomState(3)
        for n in (2, 4):
            c = {"fn": "rayleigh", "A": rng.randn(n, n).tolist(), "b": rng.randn(n).tolist(), "iter": 6, "tol": 1e-3}
            b, msg = replay(c)
            ck.validate(f"power_iter/{n}", (not b) or bool(ck.violations), msg)
        for A in ([[0.0, 0.0], [0.0, 0.0]], [[0.0, 1.0], [0.0, 0.0]]):
            c = {"fn": "flow", "A": A, "b": [2.0, 1.0]}
            b, msg = replay(c)
            ck.validate(f"flow/{A}", (not b) or bool(ck.direct(f"flow/{A}", c) is False), msg)


def rayleigh(ck, lab, kind, n):
    """one iteration: the Rayleigh quotient of the start vector, and the normalised image of it"""
    A = {"full": lambda: mat("a", n, n), "diag": lambda: np.array([[V(f"l{i}") if i == j else F(0) for j in range(n)] for i in range(n)], dtype=object)}[kind]()
    b = vec("b", n)

    def go():
        with Choose():
            return call(A, b, 1)
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        e, v, k = out
        case = case_of("rayleigh", A, b, iter=1, tol=float(TOL))
        if k != 1:
            ck.direct(f"{lab}/iters", case({}))
            continue
        Aw = mv(A, b)
        bad = [scal.bnot(scal.eq(expand(sub(mul(e, dot(b, b)), dot(b, Aw))), 0)), scal.bnot(scal.eq(expand(sub(dot(v, v), 1)), 0))]
        for i in range(n - 1):
            bad.append(scal.bnot(scal.eq(expand(sub(mul(v[i], Aw[i + 1]), mul(v[i + 1], Aw[i]))), 0)))
        bad += [scal.lt(mul(v[i], Aw[i]), 0) for i in range(n)]
        cs = [c for c in conds if "choice" not in str(c)]
        for x, y in enumerate(bad):
            if y is not False:
                ck.prove(f"{lab}/path{pi}/{x}", [y], cs, case, hints=[[scal.le(F(1, 2), scal.absv(x)) for x in scal.fvars([dot(b, Aw)]).values()]], reach=x == 0)


def iterate(ck, lab, n, it):
    """k iterations are k times one iteration, each started from the vector the one before returned, whichever k the termination test stops at"""
    A, b = mat("a", n, n), vec("b", n)
    seen = set()

    def go():
        with Choose():
            e, v, k = call(A, b, it)
            w, one = np.array(b, dtype=object), None
            for _ in range(k):
                one = call(A, list(w), 1)
                w = one[1]
            return e, v, k, one
    mk = case_of("rayleigh", A, b, iter=it, tol=float(TOL))
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        e, v, k, one = out
        if k < 1 or k > it or one[2] != 1:
            ck.direct(f"{lab}/path{pi}", mk({}))
            continue
        seen.add(k)
        bad = [scal.bnot(scal.eq(x, y)) for x, y in zip([e] + list(v), [one[0]] + list(one[1]))]
        ck.prove(f"{lab}/path{pi}", [x for x in bad if x is not False], [c for c in conds if "choice" not in str(c)], mk, reach=False)
    if it > 1 and not {it} < seen:
        ck.problems.append(f"{lab}: only {seen} iterations explored")


def stops(ck, lab, it, l0=None, b1=None):
    """the iteration goes on exactly while the estimate still changes by more than the tolerance"""
    l, b = [V("l0") if l0 is None else F(l0), V("l1")], [F(1), V("b1") if b1 is None else F(b1)]
    A = np.array([[l[0], F(0)], [F(0), l[1]]], dtype=object)

    def go():
        for x in l:
            scal.PATH.assume(scal.le(F(1, 8), scal.absv(x)))
            scal.PATH.assume(scal.le(scal.absv(x), 4))
        scal.PATH.assume(scal.le(F(1, 4), b[1]))
        scal.PATH.assume(scal.le(b[1], 4))
        return call(A, b, it)
    rho = []
    w = np.array(b, dtype=object)
    for k in range(it):
        rho.append(scal.div(dot(w, mv(A, w)), dot(w, w)))
        w = mv(A, w)
    mk = case_of("stops", A, b, iter=it, tol=float(TOL))
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        e, v, k = out
        if k < 1 or k > it:
            ck.direct(f"{lab}/path{pi}", mk({}))
            continue
        # margin keeps rounding out of the replay
        bad = [scal.lt(scal.absv(sub(rho[j], rho[j - 1])), mul(TOL, F(9, 10))) for j in range(1, k - 1)]
        if k < it:
            bad += [scal.lt(mul(TOL, F(11, 10)), scal.absv(sub(rho[k - 1], rho[k - 2])))] if k > 1 else [True]
        ck.prove(f"{lab}/path{pi}", bad, conds, mk, reach=False)


def null(ck, lab, n, zero):
    """operators that annihilate the iterate: the estimate and the vector stay finite"""
    A = np.array([[V(f"a{i}{j}") if j > i and not zero else F(0) for j in range(n)] for i in range(n)], dtype=object)
    b = [V("b0"), V("b1"), F(1)][-n:]

    def go():
        with Fork():
            scal.PATH.assume(scal.lt(0, dot(b, b)))
            return call(A, b, 2 + n)
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        e, v, k = out
        bad = [True for x in [e] + list(v) if scal.is_special(x)]
        mk = case_of("finite", A, b, iter=2 + n)
        ck.prove(f"{lab}/path{pi}", bad, conds, mk, reach=True)


def interval(ck, lab, kind):
    A = mat("a", 2, 2) if kind == "full" else np.array([[F(0), V("a01")], [F(0), F(0)]], dtype=object)
    b, f = vec("b", 2), V("f")
    rec = []
    sig = inspect.signature(ml.power_iter)

    def go():
        del rec[:]
        scal.PATH.assume(scal.lt(0, dot(b, b)))
        scal.PATH.assume(scal.le(F(1, 2), f))
        scal.PATH.assume(scal.le(f, 4))
        real = ml.power_iter

        def spy(*a, **k):
            r = real(*a, **k)
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            rec.append((ba.arguments, r))
            return r
        with Fork(), common.patched([(ml.power_iter, spy)]), jsym.symbolic(), ode.quiet():
            sh, sc, me, v, k = ml.leja_shift_scale(MatrixLinOp(sym(A)), 2, max_power_iter=2, b0=sym(b), scale_factor=sym(f))
        (args, (e, v1, k1)), = rec
        return [vals(x).reshape(-1)[0] for x in (sh, sc, me, e)], vals(v), vals(v1), int(vals(k).reshape(-1)[0]), vals(args["b0"]), int(args["iter"])
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        (sh, sc, me, e), v, v1, k, b0, it = out
        mk0 = case_of("interval", A, b)
        mk = lambda env: dict(mk0(env), f=float(env.get("f", 1.2)))
        if any(scal.is_special(x) for x in (sh, sc, me, e)) or it != 2:
            ck.direct(f"{lab}/path{pi}", mk({}))
            continue
        al = mul(f, e)
        two = mul(2, sc)
        ends = [sub(sh, two), add(sh, two)]
        cover = scal.bor(scal.band(scal.eq(ends[0], al), scal.eq(ends[1], 0)), scal.band(scal.eq(ends[0], 0), scal.eq(ends[1], al)))
        bad = [scal.bnot(scal.lt(0, sc)), scal.bnot(scal.bor(scal.eq(e, 0), cover)), scal.bnot(scal.bor(scal.eq(e, 0), scal.eq(me, al)))]
        bad += [scal.bnot(scal.eq(x, y)) for x, y in list(zip(v, v1)) + list(zip(b0, b))]
        ck.prove(f"{lab}/path{pi}", [x for x in bad if x is not False], conds, mk, reach=pi < 3)


def guess(ck, lab):
    c = {"fn": "guess"}
    b, msg = replay(c)
    ck.validate(lab, (not b) or bool(ck.direct(lab, c) is False), msg)


SUB = {"re": ml.real_leja_expmv_substep, "im": ml.complex_conj_leja_expmv_substep}
GEN, SHS = ml.gen_leja_conjugate, ml.leja_shift_scale
SIGS = {f: inspect.signature(f) for f in (SUB["re"], SUB["im"], GEN, SHS)}
PTS = np.array([1.0, -1.0, 1j, -1j, 0.6 + 0.5j, 0.6 - 0.5j, 0.1 + 0.9j, 0.1 - 0.9j, 0.2 + 0.3j, 0.2 - 0.3j, -0.4 + 0.5j, -0.4 - 0.5j])


def bind(f, a, k):
    b = SIGS[f].bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def record(kind, method, opts, hist, dt, est, symbolic):
    """one step with the evaluator, the point generator and the estimate replaced by recorders"""
    got = {}

    def ev(*a, **k):
        got["ev"] = bind(SUB[kind], a, k)
        v = got["ev"]["v"]
        return v[:2] * 0 + 0.25, 9, True, 1.0

    def gen(*a, **k):
        got["gen"] = bind(GEN, a, k)
        return PTS, 2, 1.5, -0.25

    def shs(*a, **k):
        got["shs"] = bind(SHS, a, k)
        return est / 2, abs(est) / 4, est, jnp.ones(4), 3
    if symbolic:
        with abstr.env(), common.patched([(abstr.a_leja, ev), (ode.c_gen_leja_conjugate, gen), (ode.c_leja_shift_scale, shs)]):
            it = ode.build_integrator("leja", method, abstr.abstract_sys(ft0=2.0), sym(V("t0")), sym([V("y0"), V("y1")]), **opts)
            if hist:
                ode.push_history(it, sym(V("tp")), sym([V("yp0"), V("yp1")]))
            it.step(dt)
    else:
        from checks.p07 import RealSys
        with common.patched([(SUB[kind], ev), (GEN, gen), (SHS, shs)]), ode.quiet():
            it = ode.build_integrator("leja", method, RealSys(), 0.3, jnp.asarray([0.4, -0.2]), **opts)
            if hist:
                ode.push_history(it, 0.2, jnp.asarray([0.38, -0.21]))
            it.step(dt)
    return got


def plain(x):
    """float of something concrete, or None"""
    try:
        y = vals(x).reshape(-1) if hasattr(x, "shape") else np.asarray([x], dtype=object)
        return None if len(y) != 1 or isinstance(y[0], scal.E) else float(y[0])
    except Exception:
        return None


def wrong(kind, opts, got):
    """what does not depend on dt and the estimate"""
    e = got["ev"]
    bad = []
    if e["tol"] != opts["leja_tol"] or e["n"] != 2 or bool(e["substep"]) != opts["leja_substep"] or e["dd_method"] != opts["dd_method"]:
        bad.append(f"evaluator called with tol={e['tol']}, n={e['n']}, substep={e['substep']}, dd_method={e['dd_method']} for options {opts}")
    x = np.asarray(e["leja_x"])
    if kind == "re":
        if len(x) != opts["n_leja"] or np.max(x) != 2 or np.min(x) != -2:
            bad.append(f"points {x}")
        return bad
    if not np.array_equal(x, PTS) or e["n_leja_real"] != 2 or plain(e["scale"]) != 1.5 or plain(e["shift"]) != -0.25 or e["leja_n_zeros"] != opts["leja_n_zeros"]:
        bad.append(f"points, n_leja_real={e['n_leja_real']}, scale={e['scale']}, shift={e['shift']}, leja_n_zeros={e['leja_n_zeros']} passed on for generated (points, 2, 1.5, -0.25) and {opts}")
    if got["gen"]["n"] != opts["n_leja"] or plain(got["gen"]["b"]) != 0:
        bad.append(f"{got['gen']['n']} points up to {got['gen']['b']} asked for")
    return bad


def steps(ck, lab, method, given):
    """what the integrators hand to the evaluator: points, shift and scale of the interval (ellipse) asked for"""
    kind = "re" if method == "epi2_leja_re" else "im"
    opts = {"n_leja": 12, "leja_tol": 1e-9, "leja_substep": True, "dd_method": "pade", "leja_n_zeros": 3, "leja_max_re_eig_scale": 1.5}
    for hist in (False, True):
        def go():
            for x, l in (("dt", F(1, 100)), ("la", F(1, 100)), ("lc", F(0)), ("est", F(1, 100))):
                scal.PATH.assume(scal.le(l, V(x)))
                scal.PATH.assume(scal.le(V(x), 100))
            o = dict(opts)
            if given != "none":
                o["leja_a"] = sym(mul(-1, V("la")))
            if given == "ac":
                o["leja_c"] = sym(V("lc"))
            return record(kind, method, o, hist, sym(V("dt")), sym(mul(-1, V("est"))), True)
        mk = lambda env: {"fn": "steps", "method": method, "given": given, "opts": opts, "hist": hist, **{k: float(env.get(k, d)) for k, d in (("dt", 0.5), ("la", 3), ("lc", 2), ("est", 1.75))}}
        for pi, (st, got, conds, _) in enumerate(scal.explore(go)):
            if st != "ok":
                ck.problems.append(f"{lab}: cut ({got})")
                continue
            bad = [True] if wrong(kind, opts, got) else []
            lo = mul(-1, mul(V("dt"), V("la"))) if given != "none" else mul(-1, V("est"))
            g = lambda x: vals(x).reshape(-1)[0] if hasattr(x, "shape") else F(x)
            if kind == "re":
                sh, sc = g(got["ev"]["shift"]), g(got["ev"]["scale"])
                bad += [scal.bnot(scal.lt(0, sc)), scal.bnot(scal.eq(sub(sh, mul(2, sc)), lo)), scal.bnot(scal.eq(add(sh, mul(2, sc)), 0))]
            else:
                bad += [scal.bnot(scal.eq(g(got["gen"]["a"]), lo)), scal.bnot(scal.eq(g(got["gen"]["c"]), mul(V("dt"), V("lc")) if given == "ac" else 0))]
            if given == "none":
                s = got.get("shs")
                if s is None or s["dim"] != 4 or plain(s["scale_factor"]) != 1.5:
                    bad.append(True)
            ck.prove(f"{lab}/hist{hist}/path{pi}", [x for x in bad if x is not False], conds, mk)


def rayleigh_ref(A, b, k):
    w = np.array(b, dtype=float)
    for _ in range(k - 1):
        w = A @ w
        w = w / np.linalg.norm(w)
    return float(w @ A @ w / (w @ w)), A @ w


def replay(case):
    import contextlib
    fn = case["fn"]
    if fn in ("rayleigh", "stops", "finite", "interval"):
        A, b = np.array(case["A"], dtype=float), np.array(case["b"], dtype=float)
        lo = MatrixLinOp(jnp.asarray(A))
    if fn == "finite":
        with ode.quiet():
            e, v, k = ml.power_iter(lo, jnp.asarray(b), case["iter"])
        if not np.all(np.isfinite([float(e)] + list(np.asarray(v)))):
            return True, f"power_iter on A={case['A']} from {case['b']}: estimate {float(e)}, vector {np.asarray(v).tolist()}"
        return False, "holds"
    if fn in ("rayleigh", "stops"):
        for tol in (case["tol"], 1e-9, 1e3):
            with ode.quiet():
                e, v, k = ml.power_iter(lo, jnp.asarray(b), case["iter"], tol)
            e, v, k = float(e), np.asarray(v), int(k)
            what = f"power_iter(A={case['A']}, b0={case['b']}, iter={case['iter']}, tol={tol}) = {e}, {v.tolist()}, {k} iterations"
            if k < 1 or k > case["iter"]:
                return True, what
            es = [rayleigh_ref(A, b, j) for j in range(1, case["iter"] + 1)]
            r, w = es[k - 1]
            m = 1 + np.max(np.abs(A))
            if not abs(e - r) <= 1e-9 * m:
                return True, f"{what}: the Rayleigh quotient of the last iterate is {r}"
            if not np.max(np.abs(v - w / np.linalg.norm(w))) <= 1e-6 and np.linalg.norm(w) > 1e-3 * m:
                return True, f"{what}: the normalised iterate is {(w / np.linalg.norm(w)).tolist()}"
            for j in range(2, k):
                if abs(es[j - 1][0] - es[j - 2][0]) < 0.99 * tol:
                    return True, f"{what}: settled to the tolerance after {j} iterations already"
            if k < case["iter"] and (k < 2 or k >= 2 and abs(es[k - 1][0] - es[k - 2][0]) > 1.01 * tol):
                return True, f"{what}: stopped before the estimate settled: {[x[0] for x in es]}"
        return False, "holds"
    if fn == "interval":
        f = case["f"]
        with ode.quiet():
            sh, sc, me, v, k = ml.leja_shift_scale(lo, 2, 2, jnp.asarray(b), f)
            e, v1, k1 = ml.power_iter(lo, jnp.asarray(b), 2)
        sh, sc, me, e = (float(x) for x in (sh, sc, me, e))
        what = f"leja_shift_scale(A={case['A']}, b0={case['b']}, scale_factor={f}): shift {sh}, scale {sc}, estimate {me} (power iteration: {e})"
        if not (np.isfinite(sh) and sc > 0 and np.isfinite(me)):
            return True, what
        ends = sorted([sh - 2 * sc, sh + 2 * sc])
        want = sorted([0.0, f * e])
        m = 1e-9 * (1 + abs(f * e))
        if e != 0 and not (abs(ends[0] - want[0]) <= m and abs(ends[1] - want[1]) <= m and abs(me - f * e) <= m):
            return True, f"{what}: the interval is {ends}"
        if int(k) != int(k1) or not np.array_equal(np.asarray(v), np.asarray(v1)):
            return True, f"{what}: vector or iteration count are not those of the power iteration"
        return False, "holds"
    if fn == "guess":
        A = jnp.asarray([[-2.0, 0.5], [0.5, -1.0]])
        try:
            with ode.quiet():
                ml.leja_shift_scale(MatrixLinOp(A), 2, b0=jnp.ones(3))
            return True, "leja_shift_scale accepts a start vector of the wrong length"
        except Exception:
            pass
        with ode.quiet():
            me = float(ml.leja_shift_scale(MatrixLinOp(A), 2, 200)[2])
        return not abs(me + 2.2071) < 0.1, f"leja_shift_scale without a start vector: estimate {me} for the dominant eigenvalue -2.2071"
    if fn == "steps":
        kind = "re" if case["method"] == "epi2_leja_re" else "im"
        o = dict(case["opts"])
        if case["given"] != "none":
            o["leja_a"] = -case["la"]
        if case["given"] == "ac":
            o["leja_c"] = case["lc"]
        got = record(kind, case["method"], o, case["hist"], case["dt"], -case["est"], False)
        bad = wrong(kind, case["opts"], got)
        what = f"{case['method']} step dt={case['dt']} with leja_a={o.get('leja_a')}, leja_c={o.get('leja_c')}, estimate {-case['est']}, history={case['hist']}"
        if bad:
            return True, f"{what}: {bad[0]}"
        lo = -case["dt"] * case["la"] if case["given"] != "none" else -case["est"]
        near = lambda a, b: abs(float(a) - b) <= 1e-9 * (1 + abs(b))
        if kind == "re":
            sh, sc = float(got["ev"]["shift"]), float(got["ev"]["scale"])
            if not (sc > 0 and near(sh - 2 * sc, lo) and near(sh + 2 * sc, 0.0)):
                return True, f"{what}: points on [{sh - 2 * sc}, {sh + 2 * sc}], not [{lo}, 0]"
        else:
            a, c = got["gen"]["a"], got["gen"]["c"]
            if not (near(a, lo) and near(c, case["dt"] * case["lc"] if case["given"] == "ac" else 0.0)):
                return True, f"{what}: points for [{float(a)}, 0] x {float(c)}i"
        if case["given"] == "none" and (got["shs"]["dim"] != 4 or got["shs"]["scale_factor"] != 1.5):
            return True, f"{what}: estimate asked with {got['shs']['dim']} rows, factor {got['shs']['scale_factor']}"
        return False, "holds"
    # u' = A u + c with nilpotent A: the Leja integrators are exact
    from ormatex_py import integrate_wrapper as iw
    from ormatex_py.ode_sys import OdeSys
    A, c = jnp.asarray(case["A"]), jnp.asarray(case["b"])

    class S(OdeSys):
        def _frhs(self, t, u, **kw):
            return A @ u + c
    want = np.asarray(c) * 0.5 + np.asarray(A @ c) * 0.125
    for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im"):
        try:
            with ode.quiet():
                r = np.asarray(iw.integrate(S(), jnp.zeros(2), 0.0, 0.1, 5, m).y_res[-1])
        except Exception as e:
            return True, f"{m} on u' = A u + c, A={case['A']}, c={case['b']}: {type(e).__name__}: {e}"
        if not np.max(np.abs(r - want)) <= 1e-9:
            return True, f"{m} on u' = A u + c, A={case['A']}, c={case['b']}: {r.tolist()}, exact {want.tolist()}"
    return False, "holds"
