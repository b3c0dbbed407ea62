"""P08: the integrate() driver."""
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction
from vf import ode, abstr, scal, common, jsym
from vf.jsym import sym, vals
from checks.p07 import METHODS, RealSys
import ormatex_py.integrate_wrapper as iw

DIFFRAX = {"euler": 1, "heun": 2, "midpoint": 2, "bosh3": 3, "dopri5": 5, "implicit_euler": 1, "implicit_esdirk3": 3, "implicit_esdirk4": 4}
V = scal.var
OPTK = {"max_krylov_dim": 7, "iom": 3}


SHARDS = 8


def by_hand(build, T0, Y0, dt, n):
    a = build(T0, Y0)
    out = [(T0, Y0)]
    for _ in range(n):
        r = a.step(dt)
        a.accept_step(r)
        out.append((r.t, r.y))
    return out


def cbs(log):
    def before(s, t, y):
        log.append(("before", s, t, y))
        return {}

    def after(s, t, y):
        log.append(("after", s, t, y))
        return ("after", len(log))
    return before, after


def run(ck):
    N = 4 if ck.thorough else 3
    ck.bounds += [f"nsteps 0..{N}; every t0, dt>0, y0 (n=2), every system (uninterpreted functions); with and without callbacks; "
                  "all native method names of the README; diffrax methods: arguments handed to diffeqsolve and assembly of its result",
                  "method names: the documented ones plus a few undocumented ones (names are not symbolic); Rust methods not available here"]
    ck.stubs += ["phi evaluators, frhs, fjac, f_t: uninterpreted functions", "diffrax.diffeqsolve: contract (returns the nsteps step "
                 "times after t0 and an uninterpreted trajectory)", "block_until_ready: no effect", "time.perf_counter: real"]
    for kind, method, kw in ck.shard(METHODS):
        for n in ((0, N) if not ck.thorough else range(N + 1)):
            for cb in ((False, True) if n else (False,)):
                one(ck, kind, method, kw, n, cb)
    diffrax_part(ck, N)
    if ck.first:
        names(ck)


def one(ck, kind, method, kw, n, cb):
    def go():
        with abstr.env():
            s = abstr.abstract_sys(split=kind == "split", ft0=2.0)
            T0, Y0, dt = sym(V("t0")), sym([V("y0"), V("y1")]), sym(V("dt"))
            scal.PATH.assume(scal.lt(0, V("dt")))
            kws = dict(kw)
            if kind in ("rb", "split"):
                kws.update(OPTK)
            if method in ("exprb2_pfd", "exp_pfd"):
                kws["pfd_method"] = "pade_4_8" if False else "cram_6"
            log = []
            if cb:
                b, a = cbs(log)
                kws["callback_before_step"], kws["callback_after_step_accept"] = b, a
            abstr.OPTS.clear(), abstr.PFD.clear(), abstr.LEJA.clear()
            r = iw.integrate(s, Y0, T0, dt, n, method, **kws)
            opts, pfd, leja = list(abstr.OPTS), list(abstr.PFD), list(abstr.LEJA)
            kw2 = {k: v for k, v in kws.items() if not k.startswith("callback")}
            ref = by_hand(lambda t, y: ode.build_integrator(kind, method, s, t, y, **kw2), T0, Y0, dt, n)
            fl = lambda x: list(vals(x).reshape(-1))
            got = [(fl(t), fl(y)) for t, y in zip(r.t_res, r.y_res)]
            want = [(fl(T0 + i * dt), fl(y)) for i, (t, y) in enumerate(ref)]
            ev = []
            for e in log:
                ev.append((e[0], e[1] is s, fl(e[2]), fl(e[3])))
            return len(r.t_res), len(r.y_res), got, want, ev, r.cb, opts, pfd, leja
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        lab = f"{method}/n{n}{'/callbacks' if cb else ''}/path{pi}"
        if st != "ok":
            ck.problems.append(lab + ": cut")
            continue
        nt, ny, got, want, ev, cbres, opts, pfd, leja = out
        bad = []
        if nt != n + 1 or ny != n + 1:
            bad.append(True)
        for (t, y), (tw, yw) in zip(got, want):
            bad += [scal.bnot(scal.eq(a, b)) for a, b in zip(t + y, tw + yw)]
        if cb:
            exp = []
            for i in range(n):
                exp += [("before", want[i]), ("after", want[i + 1])]
            if len(ev) != len(exp) or any(e[0] != x[0] or not e[1] for e, x in zip(ev, exp)):
                bad.append(True)
            else:
                for e, x in zip(ev, exp):
                    bad += [scal.bnot(scal.eq(a, b)) for a, b in zip(e[2] + e[3], x[1][0] + x[1][1])]
            if cbres.get("callback_before_step") != [{}] * n or \
                    cbres.get("callback_after_step_accept") != [("after", 2 * i + 2) for i in range(n)]:
                bad.append(True)
        if any(o != (OPTK["max_krylov_dim"], OPTK["iom"]) for o in opts) and kind in ("rb", "split"):
            bad.append(True)
        if any(p != "cram_6" for p in pfd):
            bad.append(True)
        if any(l[2] not in (60,) for l in leja) or any(KW_TOL not in _flat(l[0]) for l in leja):
            bad.append(True)
        case = {"kind": kind, "method": method, "kw": kw, "n": n, "cb": cb}
        ck.prove(lab, bad, conds, lambda env: case)
        if pi == 0 and n:
            b, msg = replay(case)
            ck.validate(f"{method} real integrate vs stepping by hand", (not b) or bool(ck.violations), msg)
            if len(ck.samples) < 6:
                ck.samples.append({"method": method, "nsteps": n, "callbacks": cb, "equalities": sum(len(t) + len(y) for t, y in got)})


KW_TOL = 1e-14


def _flat(x):
    return [v for v in x if isinstance(v, float)]


class _Res:
    pass


class _StepTo:
    """contract of diffrax.StepTo: the steps end exactly at ts[1:]"""

    def __init__(self, ts=None, **kw):
        self.ts = ts


def diffrax_part(ck, N):
    import diffrax
    for method, order in ck.shard(DIFFRAX.items()):
        for n in (1, N):
            rec = {}

            def fake(terms, solver, t0, t1, dt0, y0, args=None, *, saveat=None, stepsize_controller=None, max_steps=None, **k):
                rec.update(terms=terms, solver=solver, t0=t0, t1=t1, dt0=dt0, y0=y0, ctrl=stepsize_controller, max=max_steps, save=saveat)
                r = _Res()
                r.ts = stepsize_controller.ts[1:] if isinstance(stepsize_controller, _StepTo) else \
                    jnp.stack([t0 + (i + 1) * dt0 for i in range(n)])
                r.ys = jnp.stack([abstr.uf(f"traj{i}", (2,), y0) for i in range(n)])
                rec["ts"], rec["ys"] = r.ts, r.ys
                return r

            def go():
                real, real_to = diffrax.diffeqsolve, diffrax.StepTo
                diffrax.diffeqsolve, diffrax.StepTo = fake, _StepTo
                try:
                    with abstr.env():
                        s = abstr.abstract_sys(ft0=2.0)
                        T0, Y0, dt = sym(V("t0")), sym([V("y0"), V("y1")]), sym(V("dt"))
                        scal.PATH.assume(scal.lt(0, V("dt")))
                        r = iw.integrate(s, Y0, T0, dt, n, method)
                        tt, yy = sym(V("tt")), sym([V("w0"), V("w1")])
                        f1, f2 = rec["terms"].vf(tt, yy, None), s.frhs(tt, yy)
                        return (list(vals(r.t_res).reshape(-1)), list(vals(r.y_res).reshape(-1)), list(vals(rec["ts"])),
                                list(vals(rec["ys"]).reshape(-1)), jsym.scalar(rec["t0"]), jsym.scalar(rec["t1"]),
                                None if rec["dt0"] is None else jsym.scalar(rec["dt0"]),
                                list(vals(rec["y0"])), list(vals(f1)), list(vals(f2)))
                finally:
                    diffrax.diffeqsolve, diffrax.StepTo = real, real_to
            for st, out, conds, _ in scal.explore(go):
                lab = f"{method}/n{n}"
                if st != "ok":
                    ck.problems.append(lab + ": cut")
                    continue
                tr, yr, ts, ys, a, b, h, y0, f1, f2 = out
                at = lambda i: scal.add(V("t0"), scal.mul(V("dt"), i))
                eqs = [(a, V("t0")), (b, at(n)), (y0[0], V("y0")), (y0[1], V("y1"))]
                eqs += list(zip(f1, f2))
                if isinstance(rec["ctrl"], _StepTo):
                    stepok = len(ts) == n
                elif isinstance(rec["ctrl"], diffrax.ConstantStepSize) and h is not None:
                    eqs.append((h, V("dt")))
                    stepok = True
                else:
                    ck.problems.append(f"{lab}: step size controller {type(rec['ctrl']).__name__} has no contract here")
                    continue
                wt, wy = [at(i) for i in range(n + 1)], [V("y0"), V("y1")] + ys
                bad = [scal.bnot(scal.eq(x, y)) for x, y in eqs]
                if len(tr) != n + 1 or len(yr) != 2 * (n + 1):
                    bad.append(True)
                bad += [scal.bnot(scal.eq(x, y)) for x, y in zip(tr + yr, wt + wy)]
                if not stepok or not rec["max"] >= n or rec["solver"].order(rec["terms"]) != order:
                    bad.append(True)
                case = {"kind": "diffrax", "method": method, "n": n}
                ck.prove(lab, bad, conds, lambda env: dict(case, t0=float(env.get("t0", 0.4) or 0.4)))
                b_, msg = replay(dict(case, t0=0.4))
                ck.validate(lab, (not b_) or bool(ck.violations), msg)


def names(ck):
    for m in ("epi", "exprb4", "", "rk2", "EPI3", "exp4", "leja", "heun2"):
        ck.obligations += 1
        b, msg = replay({"kind": "name", "method": m})
        if b:
            ck.direct(f"unknown name {m!r}", {"kind": "name", "method": m})


def replay(case):
    kind, method = case["kind"], case["method"]
    s = RealSys()
    y0 = jnp.asarray([0.7, -0.4])
    with ode.quiet():
        if kind == "name":
            try:
                r = iw.integrate(s, y0, 0.0, 0.1, 1, method)
            except AttributeError:
                return False, "rejected"
            except Exception as e:
                return True, f"method {method!r}: {type(e).__name__}: {e} instead of AttributeError"
            return True, f"method {method!r} is not documented but integrate() accepted it"
        n = case["n"]
        try:
            if kind == "diffrax":
                msgs = []
                for t0 in {case["t0"], 0.0, 1.7}:
                    h = 0.05
                    r = iw.integrate(s, y0, t0, h, n, method)
                    t = np.asarray(r.t_res)
                    if t.shape != (n + 1,) or np.max(np.abs(t - (t0 + h * np.arange(n + 1)))) > 1e-12:
                        msgs.append(f"t0={t0}, dt={h}, nsteps={n}: times {t.tolist()}")
                        continue
                    y = np.asarray(r.y_res)
                    # reference by fine classical RK4
                    z, tt = np.array([0.7, -0.4]), t0
                    f = lambda t, u: np.asarray(s.frhs(t, jnp.asarray(u)))
                    ref = [z]
                    for i in range(n):
                        for _ in range(4):
                            k = h / 4
                            a = f(tt, z); b = f(tt + k / 2, z + k / 2 * a); c = f(tt + k / 2, z + k / 2 * b); d = f(tt + k, z + k * c)
                            z, tt = z + k / 6 * (a + 2 * b + 2 * c + d), tt + k
                        ref.append(z)
                    e = np.max(np.abs(y - np.array(ref)))
                    lim = 3.0 * n * h ** (DIFFRAX[method] + 1) * 4 + 1e-6
                    if y.shape != (n + 1, 2) or not e < lim:
                        msgs.append(f"t0={t0}: error {e:.2e} above {lim:.2e} for a method of order {DIFFRAX[method]}")
                return (bool(msgs), f"integrate(method={method!r}) " + "; ".join(msgs))
            msgs = []
            kw = dict(case["kw"])
            for extra in ({}, {"max_krylov_dim": 2, "iom": 2}, {"max_krylov_dim": 1, "iom": 2}, {"pfd_method": "cram_6"}):
                if kind not in ("rb", "split") and extra:
                    continue
                kk = dict(kw, **extra)
                log = []
                k2 = dict(kk)
                if case["cb"]:
                    b, a = cbs(log)
                    k2.update(callback_before_step=b, callback_after_step_accept=a)
                t0, dt = 0.3, 0.11
                r = iw.integrate(s, y0, t0, dt, n, method, **k2)
                ref = by_hand(lambda t, y: ode.build_integrator(kind, method, s, t, y, **kk), t0, y0, dt, n)
                if len(r.t_res) != n + 1 or len(r.y_res) != n + 1:
                    msgs.append(f"{len(r.t_res)} times and {len(r.y_res)} states for nsteps={n}")
                    continue
                for i in range(n + 1):
                    if abs(float(r.t_res[i]) - (t0 + i * dt)) > 1e-12:
                        msgs.append(f"time {i} is {r.t_res[i]}, not {t0 + i * dt}")
                    if not np.max(np.abs(np.asarray(r.y_res[i]) - np.asarray(ref[i][1]))) < 1e-10:
                        msgs.append(f"options {extra}: state {i} is {np.asarray(r.y_res[i]).tolist()}; stepping by hand gives {np.asarray(ref[i][1]).tolist()}")
                if case["cb"]:
                    exp = []
                    for i in range(n):
                        exp += [("before", i), ("after", i + 1)]
                    ok = len(log) == len(exp) and all(e[0] == x[0] and e[1] is s and abs(float(e[2]) - (t0 + x[1] * dt)) < 1e-12 and
                                                      np.max(np.abs(np.asarray(e[3]) - np.asarray(ref[x[1]][1]))) < 1e-10 for e, x in zip(log, exp))
                    if not ok:
                        msgs.append(f"callbacks saw {[(e[0], float(e[2])) for e in log]}")
                    if r.cb.get("callback_before_step") != [{}] * n or r.cb.get("callback_after_step_accept") != [("after", 2 * i + 2) for i in range(n)]:
                        msgs.append(f"callback results {r.cb}")
            return (bool(msgs), f"integrate(method={method!r}, nsteps={n}): " + "; ".join(msgs[:3]))
        except Exception as e:
            return True, f"integrate(method={method!r}, nsteps={n}) raised {type(e).__name__}: {e}"
