"""Abstract (uninterpreted-function) environment for protocol properties: the
right-hand side, the phi-vector products and the dense phi functions are
arbitrary functions of their arguments."""
import contextlib, threading
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax._src import core
from concurrent.futures import ThreadPoolExecutor
from . import scal, jsym, ode, common
from .jsym import SA, sym, vals, to_obj, symbolic

uf_p = core.Primitive("vf_uf")
uf_p.def_abstract_eval(lambda *a, name, shape: core.ShapedArray(shape, np.dtype(np.float64)))
uf_p.def_impl(lambda *a, name, shape: jnp.asarray(_apply(a, name, shape)) if False else _apply_eager(a, name, shape))


def _apply(args, name, shape):
    flat = []
    for a in args:
        for x in to_obj(a).reshape(-1):
            flat.append(Fraction(x) if isinstance(x, (int, bool)) else x)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = scal.ufn(name + "".join(f"_{j}" for j in i), flat)
    return SA(out, np.float64)


def _apply_eager(a, name, shape):
    raise scal.Unsupported("uninterpreted function on concrete data only")


@jsym.rule("vf_uf")
def _r(prim, args, params):
    return _apply(args, params["name"], params["shape"])


jsym.CONTROL_RULES["vf_uf"] = lambda prim, args, params: _apply(args, params["name"], params["shape"])
jsym.CONTROL.add("vf_uf")


def uf(name, shape, *args):
    return uf_p.bind(*[jnp.asarray(a) for a in args], name=name, shape=tuple(shape))


YIELD = [lambda: None]


def y_():
    YIELD[0]()


def opsig(lo, n):
    """a linear operator as data: its columns"""
    I = np.eye(n)
    return jnp.concatenate([jnp.asarray(lo(jnp.asarray(I[:, j]))) for j in range(n)])


OPTS = []          # (max_krylov_dim, iom) the evaluators were called with
PFD = []
LEJA = []


def a_phi_linop(a_lo, dt, v0, k, max_krylov_dim=None, iom=100):
    y_()
    OPTS.append((max_krylov_dim, iom))
    return uf(f"phi{int(k)}", v0.shape, opsig(a_lo, v0.shape[0]), dt, v0)


def a_matexp_linop(a_lo, dt, v0, max_krylov_dim=None, iom=100):
    return a_phi_linop(a_lo, dt, v0, 0)


def a_kiops(a_lo, dt, vb, max_krylov_dim=None, iom=100, n_steps=1):
    y_()
    OPTS.append((max_krylov_dim, iom))
    return uf(f"kiops{len(vb)}", vb[0].shape, opsig(a_lo, vb[0].shape[0]), dt, *vb)


def a_phi_all(z, k):
    n = z.shape[0]
    return [uf(f"phid{j}", (n, n), z) for j in range(int(k) + 1)]


def a_phi_pfd(z, b, k, method=None):
    PFD.append(method)
    return uf(f"pfd{int(k)}", b.shape, z, b)


def a_leja(a_tilde_lo, tau_dt, v, leja_x, *rest, **kw):
    """either driver; n is the position of the state size in its signature"""
    n = v.shape[0] - a_tilde_lo.B.shape[1]
    LEJA.append((rest, kw, len(leja_x)))
    w = uf("leja", (n,), opsig(a_tilde_lo, v.shape[0]), v)
    return w, 7, True, Fraction(1)


def pairs():
    import ormatex_py.matexp_krylov as mk, ormatex_py.matexp_phi as mphi, ormatex_py.matexp_leja as ml
    return [(mk.phi_linop, a_phi_linop), (mk.matexp_linop, a_matexp_linop), (mk.kiops_fixedsteps, a_kiops),
            (mphi.f_phi_k_sq_all, a_phi_all), (mphi.f_phi_k_pfd, a_phi_pfd),
            (ml.real_leja_expmv_substep, a_leja), (ml.complex_conj_leja_expmv_substep, a_leja),
            (ml.gen_leja_conjugate, ode.c_gen_leja_conjugate), (ml.leja_shift_scale, ode.c_leja_shift_scale),
            (np, ode.NPP)]


@contextlib.contextmanager
def env(executor=None):
    jax.clear_caches()
    ps = pairs() + [(ThreadPoolExecutor, executor or ode.SyncExecutor)]
    with common.patched(ps, {"float": ode.float_, "print": lambda *a, **k: None}):
        with symbolic():
            yield
    jax.clear_caches()


def abstract_sys(n=2, split=False, ft0=None, varL=False):
    import ormatex_py.ode_sys as osys
    base = osys.OdeSplitSys if split else osys.OdeSys
    J = sym([[scal.var(f"J{i}{j}") for j in range(n)] for i in range(n)])
    ft = sym([scal.var(f"ft{i}") for i in range(n)])
    L = sym([[scal.var(f"L{i}{j}") for j in range(n)] for i in range(n)])

    def ftv(t, u):
        r = uf("Ft", (n,), t, u)
        if ft0 is None:
            return r
        # first component fixed: decides the 'is it time dependent' branch
        return jnp.concatenate([jnp.full((1,), float(ft0)), r[1:]]) if ft0 else jnp.zeros((n,))

    class AbsSys(base):
        def _frhs(self, t, u, **kw):
            y_()
            return uf("F", (n,), t, u)

        def _fjac(self, t, u, **kw):
            # state and time dependent Jacobian: arbitrary functions of (t,u)
            return osys.CustomJacLinOp(t, u, self.frhs, uf("J", (n, n), t, u), f_dt=ftv(t, u))

        def _fl(self, t, u, **kw):
            return osys.MatrixLinOp(uf("L", (n, n), t, u) if varL else L)
    return AbsSys()


# ---- cooperative scheduler: real threads, one running at a time ----------------
class CoopExecutor:
    symbolic_ctx = True
    presub = 2
    choose = None            # function(n) -> int

    def __init__(self, max_workers=None, *a, **k):
        self.tasks = []
        self.maxw = max_workers or 8

    def submit(self, fn, *a, **k):
        t = _Task(self, fn, a, k)
        self.tasks.append(t)
        for _ in range(self.presub):            # the submitting thread may be pre-empted here
            if not self.runnable() or self.choose(2) == 0:
                break
            self.slice()
        return t

    def runnable(self):
        started = [t for t in self.tasks if t.started and not t.fin]
        out = list(started)
        if len(started) < self.maxw:
            for t in self.tasks:
                if not t.started:
                    out.append(t)
                    if len(out) >= self.maxw:
                        break
        return out

    def slice(self):
        r = self.runnable()
        i = self.choose(len(r)) if len(r) > 1 else 0
        r[i].run_slice()

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *x) for x in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, *a, **k):
        while self.runnable():
            self.slice()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class _Task:
    current = None

    def __init__(self, ex, fn, a, k):
        self.ex, self.fn, self.a, self.k = ex, fn, a, k
        self.started = self.fin = False
        self.exc = self.res = None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.th = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.go.acquire()
        try:
            if CoopExecutor.symbolic_ctx:
                with symbolic():
                    self.res = self.fn(*self.a, **self.k)
            else:
                self.res = self.fn(*self.a, **self.k)
        except BaseException as e:
            self.exc = e
        self.fin = True
        self.back.release()

    def run_slice(self):
        if not self.started:
            self.started = True
            self.th.start()
        prev, _Task.current = _Task.current, self
        self.go.release()
        self.back.acquire()
        _Task.current = prev

    def pause(self):
        self.back.release()
        self.go.acquire()

    def result(self, timeout=None):
        while not self.fin:
            self.ex.slice()
        if self.exc is not None:
            raise self.exc
        return self.res

    def done(self):
        return self.fin


def coop_yield():
    t = _Task.current
    if t is not None and threading.current_thread() is t.th:
        t.pause()
