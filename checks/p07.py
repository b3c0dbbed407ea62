"""P07: the stepping protocol (time, state, history, rejected steps, restarts)."""
import itertools
import numpy as np
import jax.numpy as jnp
from fractions import Fraction
from vf import ode, abstr, scal, common
from vf.jsym import sym, vals

KWL = {"n_leja": 60, "leja_tol": 1e-14}
METHODS = [("rb", m, {}) for m in ("exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd")] + \
          [("leja", m, KWL) for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im")] + \
          [("split", m, {}) for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense")] + [("rk", "rk4", {})]
SHARDS = 8
OPS = ("try", "adv", "put", "reset")


def drive(integ, seq, d, put, rst):
    """run the operations; returns the model: restart point and accepted steps"""
    hist = []
    base = None
    obs = []
    for i, op in enumerate(seq):
        if op == "try":
            integ.step(d[i])
        elif op == "adv":
            r = integ.step(d[i])
            integ.accept_step(r)
            hist.append(("adv", i, r))
        elif op == "put":        # the caller accepts a step it corrected (e.g. a projection)
            t0 = integ.time
            r = ode.ode_sys.StepResult(t0 + d[i], d[i], put[i], -1.0)
            integ.accept_step(r)
            hist.append(("put", i, r))
        else:
            integ.reset_ic(*rst[i])
            base, hist = i, []
        obs.append((op, i, integ.time, integ.state))
    return base, hist, obs


def fresh(build, base, hist, d, put, rst, ic):
    integ = build(*(ic if base is None else rst[base]))
    for op, i, _ in hist:
        if op == "adv":
            integ.accept_step(integ.step(d[i]))
        else:
            integ.accept_step(ode.ode_sys.StepResult(integ.time + d[i], d[i], put[i], -1.0))
    return integ


def sequences(n):
    out = []
    for s in itertools.product(OPS, repeat=n):
        if s[-1] == "reset" and n > 2:
            continue
        out.append(s)
    return out


def run(ck):
    N = 3 if ck.thorough else 2
    seqs = sequences(N)
    extra = [] if ck.thorough else [("adv", "try", "adv"), ("adv", "adv", "try"), ("try", "reset", "adv"), ("adv", "reset", "adv"),
                                    ("adv", "adv", "put"), ("put", "try", "put"), ("adv", "put", "reset")]
    seqs = seqs + extra
    ck.bounds += [f"{len(seqs)} operation sequences of length <= 3 over (rejected step, accepted step, accepted corrected state, restart), "
                  "followed by one more step; every step size >0 (pairwise equal or not), restart point, corrected state",
                  "n=2; every right-hand side, Jacobian and time derivative (uninterpreted functions of t and y; time derivative zero, or with first component 2); split methods: "
                  "constant linear part (as documented: it may be evaluated once per run), after a restart an arbitrary time and state dependent one", "float arithmetic of times read as exact"]
    ck.stubs += ["phi_linop, kiops_fixedsteps, dense phi functions, f_phi_k_pfd, leja substep drivers, frhs, fjac, f_t: uninterpreted "
                 "functions of all their mathematical arguments", "leja warm-start data (power-iteration vector, substep size): outside "
                 "(they only steer the accuracy of the leja evaluation)", "thread pool: run to completion (P06 covers interleaving)"]
    jobs = []
    for kind, method, kw in METHODS:
        jobs += [(kind, method, kw, seqs, 2.0, False)]
        if kind == "rb" and method not in ("epi2", "exp_pfd", "exprb2_dense") and (ck.thorough or method == "epi3"):
            jobs.append((kind, method, kw, seqs if ck.thorough else extra, 0.0, False))
        if method.endswith("_dense") and kind == "split":
            jobs.append((kind, method, kw, [q for q in seqs + [("try", "reset"), ("adv", "reset"), ("adv", "reset", "adv"), ("try", "reset", "adv")]
                                            if "reset" in q and not {"try", "put"} & set(q[len(q) - q[::-1].index("reset"):])], 2.0, True))
    for j in ck.shard(jobs):
        one(ck, *j)


def one(ck, kind, method, kw, seqs, ft0=2.0, varL=False):
    tag = method + ("" if ft0 else "-auto") + ("-varL" if varL else "")
    total = 0
    for seq in seqs:
        lab = f"{tag}/{'-'.join(seq)}"
        for pi, (st, flat, conds, _) in enumerate(scal.explore(lambda: pairs_of(kind, method, kw, seq, ft0, varL), max_paths=200)):
            if st != "ok":
                ck.problems.append(f"{lab}: cut")
                continue
            bad = []
            for u, w in flat:
                if isinstance(u, str):
                    bad.append(True)
                elif u is not w:
                    b = scal.bnot(scal.eq(u, w))
                    if b is not False:
                        bad.append(b)
            total += len(flat)
            c2 = [c for c in conds if not isinstance(c, scal.E) or c.op not in ("var",)]
            ck.prove(f"{lab}/path{pi}" if pi else lab, bad, c2, lambda env: _case(kind, method, kw, seq, env, varL), reach=False)
    ck.extra["equalities"] = ck.extra.get("equalities", 0) + total
    ck.samples.append({"method": tag, "sequences": len(seqs), "equalities": total})
    b, msg = replay(_case(kind, method, kw, seqs[len(method) % len(seqs)], {}, varL))
    ck.validate(f"{tag} real integrator vs a fresh one", (not b) or bool(ck.violations), msg)


def pairs_of(kind, method, kw, seq, ft0, varL):
    V = scal.var
    mx = len(seq)
    with abstr.env():
        s = abstr.abstract_sys(split=kind == "split", ft0=ft0, varL=varL)
        d = [sym(V(f"d{i}")) for i in range(mx)]
        dl = sym(V("dl"))
        for x in [V(f"d{i}") for i in range(mx)] + [V("dl")]:
            scal.PATH.assume(scal.lt(0, x))
        put = [sym([V(f"p{i}0"), V(f"p{i}1")]) for i in range(mx)]
        rst = [(sym(V(f"rt{i}")), sym([V(f"r{i}0"), V(f"r{i}1")])) for i in range(mx)]
        ic = (sym(V("t0")), sym([V("y0"), V("y1")]))

        def build(t, y):
            return ode.build_integrator(kind, method, s, t, y, **kw)
        a = build(*ic)
        base, hist, obs = drive(a, seq, d, put, rst)
        pairs = []
        # observed time and state after every operation
        for (op, i, t, y), (tm, ym) in zip(obs, _accepts(seq, d, put, rst, ic, obs, hist)):
            pairs += [(t, tm), (y, ym)]
        b = fresh(build, base, hist, d, put, rst, ic)
        pairs += [(a.time, b.time), (a.state, b.state)]
        ra, rb = a.step(dl), b.step(dl)
        pairs += [(ra.y, rb.y), (ra.t, rb.t), (ra.t, a.time + dl), (ra.dt, dl), (a.state, b.state), (a.time, b.time)]
        flat = []
        for x, y in pairs:
            if x is None or y is None:
                flat.append(("none", None))
                continue
            for u, w in zip(vals(x).reshape(-1), vals(y).reshape(-1)):
                flat.append((u, w))
        return flat


def _accepts(seq, d, put, rst, ic, obs, hist):
    """expected (time, state) after each operation"""
    t, y = ic
    steps = {}
    for op, i, r in hist:
        steps[i] = r
    out = []
    for i, op in enumerate(seq):
        if op == "adv":
            t = t + d[i]
            y = obs[i][3] if i not in steps else steps[i].y
        elif op == "put":
            t, y = t + d[i], put[i]
        elif op == "reset":
            t, y = rst[i]
        out.append((t, y))
    return out


def _case(kind, method, kw, seq, env, varL=False):
    n = len(seq)
    dv = [float(env.get(f"d{i}", 0.05 + 0.03 * i)) for i in range(n)] + [float(env.get("dl", 0.08))]
    pat = [dv.index(x) for x in dv]
    return {"kind": kind, "method": method, "kw": kw, "seq": list(seq), "pattern": pat, "varL": varL}


class RealSys(ode.ode_sys.OdeSplitSys):
    def _frhs(self, t, u, **kw):
        return jnp.stack([u[1] * 1.3 - u[0] ** 2 + jnp.sin(3 * t), -2.0 * u[0] * u[1] + 0.5 * u[0] - t * u[1]])

    def _fl(self, t, u, **kw):
        return ode.ode_sys.MatrixLinOp(jnp.asarray([[-0.6, 1.3], [0.5, -0.8]]))


class RealSysV(RealSys):
    def _fl(self, t, u, **kw):
        return ode.ode_sys.MatrixLinOp(jnp.asarray([[-0.6, 1.3], [0.5, -0.8]]) * (1.0 + u[0] ** 2 + t))


def replay(case):
    """restarts at a new time and state, at the same time, or with the same state"""
    msg = ""
    for mode in ("new", "time", "state"):
        b, msg = replay_mode(case, mode)
        if b or "reset" not in case["seq"]:
            break
    return b, msg


def replay_mode(case, mode):
    vals_ = [0.21, 0.08, 0.15, 0.3, 0.11]
    seq = case["seq"]
    dv = [vals_[k] for k in case["pattern"]]
    d, dl = dv[:-1], dv[-1]
    put = [jnp.asarray([0.4 + 0.1 * i, -0.2 * i - 0.1]) for i in range(len(seq))]
    rst = [(1.3 + i, jnp.asarray([-0.5 - 0.1 * i, 0.6])) for i in range(len(seq))]
    ic = (0.3, jnp.asarray([0.7, -0.4]))
    if mode == "time":
        rst = [(ic[0], r[1]) for r in rst]
        # a restart at the time the integrator has reached
        tt = ic[0]
        for i, op in enumerate(seq):
            if op == "reset":
                rst[i] = (tt, rst[i][1])
            elif op != "try":
                tt = tt + d[i]
    elif mode == "state":
        rst = [(r[0], ic[1]) for r in rst]
    s = RealSysV() if case.get("varL") else RealSys()
    tol = 1e-7 if case["kind"] == "leja" else 1e-10
    try:
        with ode.quiet():
            def build(t, y):
                return ode.build_integrator(case["kind"], case["method"], s, t, y, **case["kw"])
            a = build(*ic)
            base, hist, obs = drive(a, seq, d, put, rst)
            b = fresh(build, base, hist, d, put, rst, ic)
            msgs = []
            for (op, i, t, y), (tm, ym) in zip(obs, _accepts(seq, d, put, rst, ic, obs, hist)):
                if y is None or abs(t - tm) > 1e-12 or np.max(np.abs(np.asarray(y) - np.asarray(ym))) > tol:
                    msgs.append(f"after operation {i} ({op}) the integrator reports t={t}, state={y}; expected t={tm}, state={ym}")
            tb = float(a.time)
            ra, rb = a.step(dl), b.step(dl)
            if abs(ra.t - (tb + dl)) > 1e-12 or abs(ra.dt - dl) > 1e-12:
                msgs.append(f"step({dl}) from t={tb} reported t={ra.t}, dt={ra.dt}")
            if abs(float(a.time) - tb) > 0:
                msgs.append("step moved the integrator's time without accept")
            e = float(np.max(np.abs(np.asarray(ra.y) - np.asarray(rb.y))))
            if not e <= tol or abs(ra.t - rb.t) > 1e-12:
                msgs.append(f"after {seq} with step sizes {d}, step({dl}) gives {np.asarray(ra.y).tolist()} at t={ra.t}, but an integrator that "
                            f"only did the accepted steps gives {np.asarray(rb.y).tolist()} at t={rb.t}")
    except Exception as ex:
        return True, f"{case['method']}: {seq}: raised {type(ex).__name__}: {ex}"
    if msgs:
        return True, f"{case['method']}: " + "; ".join(msgs[:2])
    return False, f"difference {e:.2e}"
