"""P06: the parallel integrator's step does not depend on thread scheduling."""
import numpy as np
import jax.numpy as jnp
from concurrent.futures import ThreadPoolExecutor
from vf import ode, abstr, scal, common
from vf.jsym import sym, vals

METHODS = ["pexprb4"]

SHARDS = 8


def step_once(dt, method, choose):
    abstr.CoopExecutor.choose = staticmethod(choose)
    s = abstr.abstract_sys()
    T0, Y0 = sym(scal.var("t0")), sym([scal.var("y0"), scal.var("y1")])
    integ = ode.build_integrator("rb", method, s, T0, Y0)
    r = integ.step(dt)
    return vals(r.y), vals(r.t)


def run(ck):
    pre = 2 if ck.thorough else 1
    abstr.CoopExecutor.presub = pre
    ck.bounds += ["every right-hand side, Jacobian, time derivative and phi-vector product (uninterpreted functions), n=2, any dt, t0, y0",
                  "every interleaving of the submitted tasks and of the submitting thread at the granularity of right-hand-side "
                  "evaluations and phi-vector products (a task is pre-empted at each of these); pool of max_workers threads; one step",
                  f"at most {pre} slices run between two submissions"]
    ck.stubs += ["phi_linop / kiops_fixedsteps / frhs / fjac / fdt: uninterpreted functions", "ThreadPoolExecutor: cooperative "
                 "scheduler over real threads, next thread chosen by solver-feasible case split"]
    import sys
    abstr.YIELD[0] = abstr.coop_yield
    for method in METHODS:
        seen = {}

        def go():
            with abstr.env(executor=abstr.CoopExecutor):
                dt = sym(scal.var("dt"))
                base, tb = step_once(dt, method, lambda n: 0)
                log = []

                def choose(n):
                    i = scal.PATH.choose(n, "sched")
                    log.append(i)
                    return i
                got, tg = step_once(dt, method, choose)
                return base, got, tb, tg, log
        try:
            res = scal.explore(go, max_paths=6000, shard=(ck.shard_i, ck.shard_n))
        finally:
            abstr.YIELD[0] = lambda: None
        # group identical outcomes: one query per distinct (base, got)
        groups = {}
        for st, r, conds, _ in res:
            if st != "ok":
                ck.problems.append("cut path")
                continue
            base, got, tb, tg, log = r
            key = (tuple(map(id, base)), tuple(map(id, got)), tuple(c.id for c in conds if isinstance(c, scal.E) and "choice" not in scal.show(c)))
            groups.setdefault(key, (base, got, tb, tg, log, conds, []))[6].append(log)
        ck.extra["schedules_explored"] = len(res)
        ck.samples += [{"schedule_choices": r[1][4]} for r in res[:3] if r[0] == "ok"]
        for gi, (base, got, tb, tg, log, conds, logs) in enumerate(groups.values()):
            bad = [scal.bnot(scal.eq(a, b)) for a, b in zip(list(base) + list(tb.reshape(-1)), list(got) + list(tg.reshape(-1)))]
            nonauto = any("ft" in scal.show(c) or "Ft" in scal.show(c) for c in conds if isinstance(c, scal.E) and c.op != "not")
            ck.prove(f"{method}/outcome{gi}", bad, conds,
                     lambda env, log=log, na=nonauto: {"method": method, "log": log, "nonauto": na}, [])
        # encoder validation: the real code under the same cooperative scheduler
        if res and res[0][0] == "ok":
            log = res[len(res) // 2][1][4]
            b, msg = replay({"method": method, "log": log, "nonauto": True})
            ck.validate(f"{method} real step under schedule {log}", (not b) or bool(ck.violations), msg)


class RealSys(ode.ode_sys.OdeSys):
    def _frhs(self, t, u, **kw):
        abstr.y_()
        return jnp.stack([u[1] * 1.3 - u[0] ** 2 + jnp.sin(3 * t), -2.0 * u[0] * u[1] + 0.5 * u[0] - t * u[1]])


class RealAuto(ode.ode_sys.OdeSys):
    def _frhs(self, t, u, **kw):
        abstr.y_()
        return jnp.stack([u[1] * 1.3 - u[0] ** 2, -2.0 * u[0] * u[1] + 0.5 * u[0]])


def _real(method, choose, sys_):
    import ormatex_py.matexp_krylov as mk
    real_phi, real_kiops = mk.phi_linop, mk.kiops_fixedsteps

    def phi(*a, **k):
        abstr.y_()
        r = real_phi(*a, **k)
        abstr.y_()
        return r

    def kiops(*a, **k):
        abstr.y_()
        return real_kiops(*a, **k)
    abstr.CoopExecutor.choose = staticmethod(choose)
    abstr.CoopExecutor.symbolic_ctx = False
    with common.patched([(ThreadPoolExecutor, abstr.CoopExecutor), (real_phi, phi), (real_kiops, kiops)]), ode.quiet():
        integ = ode.build_integrator("rb", method, sys_(), 0.3, jnp.asarray([0.7, -0.4]))
        r = integ.step(0.25)
        return np.asarray(r.y)


def replay(case):
    old = abstr.YIELD[0]
    abstr.YIELD[0] = abstr.coop_yield
    try:
        for S in ((RealSys,) if case.get("nonauto") else (RealAuto, RealSys)):
            base = _real(case["method"], lambda n: 0, S)
            it = iter(case["log"])
            got = _real(case["method"], lambda n: min(next(it, 0), n - 1), S)
            d = float(np.max(np.abs(base - got)))
            if not d <= 1e-10:
                return True, f"{case['method']}: schedule {case['log']} gives {got.tolist()}, run-to-completion schedule gives {base.tolist()}"
    except Exception as e:
        return True, f"{case['method']}: raised {type(e).__name__}: {e} under schedule {case['log']}"
    finally:
        abstr.YIELD[0] = old
        abstr.CoopExecutor.symbolic_ctx = True
    return False, f"max difference {d:.2e}"
