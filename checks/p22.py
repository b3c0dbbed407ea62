"""P22: the spectral-element assembly reproduces the transport operator on polynomials, is conservative and lumps the mass."""
import copy
import numbers
import warnings
import numpy as np
import jax.numpy as jnp
from jax.experimental import sparse as jsp
from fractions import Fraction as F
import skfem as fem
from skfem.assembly.form import coo_data
from skfem.assembly.form.form import Form
from skfem.element import DiscreteField
from vf import scal, jsym, common, ode
from vf.jsym import sym
import ormatex_py.progression.advection_diffusion_1d as ad
import ormatex_py.progression.element_line_pp_nodal as nodal

V = scal.var
SHARDS = 8
TOL = F(1, 10**10)
ISO = isinstance


# ---- exact Gauss-Lobatto data, independent of the code: nodes are the ends and the zeros of P_p' ----------------
def lobatto(p):
    """nodes in [0,1] (ascending, 60 digits) and weights 1/(p(p+1) P_p(x)^2)"""
    import mpmath as mp
    with mp.workdps(60):
        c = mp.taylor(lambda x: mp.legendre(p, x), 0, p)[::-1]
        d = [a * (p - k) for k, a in enumerate(c[:-1])]
        z = sorted([mp.mpf(-1), mp.mpf(1)] + [mp.re(r) for r in (mp.polyroots(d, maxsteps=200, extraprec=200) if p > 1 else [])])
        w = [1 / (p * (p + 1) * mp.legendre(p, x) ** 2) for x in z]
        q = lambda x: F(int(mp.nint(x * mp.mpf(10) ** 50)), 10**50)
        return [(q(x) + 1) / 2 for x in z], [q(x) for x in w]


# ---- skfem on symbolic numbers ----------------------------------------------------------------------------------
class Csr:
    """scipy.sparse csr_matrix with every position stored, for entries that are not floats"""
    __array_priority__ = 1000

    def __init__(self, M):
        self.M = M
        self.shape, self.dtype = M.shape, M.dtype
        self.data = M.reshape(-1)
        self.indptr = np.arange(M.shape[0] + 1) * M.shape[1]
        self.indices = np.tile(np.arange(M.shape[1]), M.shape[0])

    def __add__(self, o):
        return Csr(self.M + o.M)
    __iadd__ = __radd__ = __add__

    def __sub__(self, o):
        return Csr(self.M - o.M)

    def __neg__(self):
        return Csr(-self.M)

    def __mul__(self, c):
        return Csr(self.M * c)
    __rmul__ = __mul__

    def __matmul__(self, v):
        return self.M @ np.asarray(v).astype(object)

    dot = __matmul__

    def copy(self):
        return Csr(self.M.copy())

    def toarray(self):
        return self.M.copy()

    todense = toarray

    def tocsr(self):
        return self

    tocsc = tocoo = tocsr

    def diagonal(self):
        return np.array([self.M[i, i] for i in range(min(self.shape))], dtype=object)

    def setdiag(self, d):
        for i in range(min(self.shape)):
            self.M[i, i] = d[i] if np.ndim(d) else d

    def sum(self, axis=None):
        return self.M.sum(axis=axis)

    def eliminate_zeros(self):
        pass

    @property
    def T(self):
        return Csr(self.M.T.copy())


def coo(arg, shape=None):
    data, (r, c) = arg
    M = np.empty(shape, dtype=object)
    M[...] = F(0)
    for x, i, j in zip(data, r, c):
        M[i, j] = M[i, j] + x
    return Csr(M)


class Bcoo:
    @staticmethod
    def from_scipy_sparse(A, **kw):
        return A if ISO(A, Csr) else jsp.BCOO.from_scipy_sparse(A, **kw)


class Proxy:
    def __init__(self, mod, **over):
        self.__dict__.update(_m=mod, **over)

    def __getattr__(self, k):
        return getattr(self._m, k)


def arr(x, *a, **k):
    return x if ISO(x, np.ndarray) and x.dtype == object else jnp.asarray(x, *a, **k)


class symbolic_fem:
    """skfem's assembly runs for real on arrays of symbolic numbers; its sparse matrices are stored by position"""

    def __enter__(self):
        self.abs = scal.E.__abs__
        scal.E.__abs__ = lambda x: x if scal.PATH.decide(scal.le(0, x)) else -x      # the velocities have a known sign
        self.forms = [(v, v.dtype) for v in vars(ad).values() if ISO(v, Form)]
        for v, _ in self.forms:
            v.dtype = object
        self.coo = coo_data.coo_matrix
        coo_data.coo_matrix = coo
        self.p = common.patched([(jsp, Proxy(jsp, BCOO=Bcoo)), (jnp, Proxy(jnp, asarray=arr, array=arr))])
        self.p.__enter__()

    def __exit__(self, *a):
        self.p.__exit__(*a)
        coo_data.coo_matrix = self.coo
        scal.E.__abs__ = self.abs
        for v, d in self.forms:
            v.dtype = d


numbers.Number.register(scal.E)        # skfem accepts any Number as a parameter of a form


def q(x):
    """array of exact constants"""
    x = np.asarray(x)
    if x.dtype == object:
        return x
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = scal.rat(float(x[i]))
    return out


def lift(basis, h):
    """the same basis on the mesh whose elements (from left to right) have sizes h"""
    b = copy.copy(basis)
    mesh, mp = basis.mesh, basis.mapping
    ends = np.sort(mp.F(np.array([[0.0, 1.0]]))[0], axis=1)        # (element, end)
    order = np.argsort(ends[:, 0])
    rank = np.argsort(order)
    el = np.arange(mesh.nelements) if getattr(basis, "tind", None) is None else basis.tind
    real = q(ends[el, 1] - ends[el, 0])
    size = np.array([h[rank[e]] for e in el], dtype=object)
    start = [F(0)]
    for x in h:
        start.append(scal.add(start[-1], x))
    s0 = np.array([start[rank[e]] for e in el], dtype=object)
    cell = "FacetBasis" not in type(basis).__name__
    col = lambda v: np.asarray(v, dtype=object).reshape(-1, 1)
    if cell:
        b.dx = q(basis.dx) * col(size / real)
    else:
        b.dx = q(basis.dx)
    b.basis = [tuple(DiscreteField(value=q(np.array(f)), grad=q(f.grad) * col(real / size)[None]) for f in fs) for fs in basis.basis]
    x = q(np.array(basis.global_coordinates()))
    loc = (x - col(q(ends[el, 0]))[None]) / col(real)[None]
    b._global_coordinates = DiscreteField(col(s0)[None] + loc * col(size)[None])
    hp = np.array(basis.mesh_parameters())
    if cell:
        b._mesh_parameters = DiscreteField(np.broadcast_to(col(size), hp.shape).copy())
    else:
        b._mesh_parameters = DiscreteField(q(hp))
    return b


def segs(ne):
    return np.array([np.arange(ne), np.arange(1, ne + 1)])


def places(p, locs):
    """which Gauss-Lobatto point each of the given places is (None: not one of them, or repeated)"""
    nodes, _ = lobatto(p)
    locs = [float(z) for z in np.asarray(locs).reshape(-1)]
    order = [min(range(p + 1), key=lambda k: abs(float(nodes[k]) - z)) for z in locs]
    return order if sorted(order) == list(range(p + 1)) and all(abs(float(nodes[k]) - z) < 1e-14 for k, z in zip(order, locs)) else None


def grid(kind, ne):
    if kind == "refined":
        m = fem.MeshLine1().with_boundaries({"left": lambda x: np.isclose(x[0], 0.0), "right": lambda x: np.isclose(x[0], 1.0)}).refined({1: 0, 2: 1, 4: 2, 8: 3}[ne])
    else:
        m = fem.MeshLine1(np.arange(ne + 1.0)[None], segs(ne)).with_boundaries({"left": lambda x: np.isclose(x[0], 0.0), "right": lambda x: np.isclose(x[0], float(ne))})
    if kind == "periodic":
        m = fem.MeshLine1DG.periodic(m, m.boundaries["right"], m.boundaries["left"])
    return m


PATHS = {"refined": 4, "line": 3, "periodic": 3}


class Broken(Exception):
    """the assembler could not be built; args: a case to replay"""


def built(fn):
    def f(ck, lab, *a):
        try:
            return fn(ck, lab, *a)
        except Broken as e:
            if replay(e.args[0])[0]:
                ck.direct(lab, e.args[0])
            else:
                raise
    f.__name__ = fn.__name__
    return f


class Case:
    """one mesh: the real assembler on it, node places, and the independent description of the discretisation"""

    def __init__(self, kind, ne, p, h, nu, vel, tau, fields=None, scale=None):
        import logging
        logging.disable(logging.WARNING)
        self.kind, self.ne, self.p, self.h = kind, ne, p, h
        mesh = grid(kind, ne)
        try:
            self.sem = ad.AdDiffSEM(mesh, p=p, params={"nu": nu, "vel": vel, "tau": tau}, field_fns=fields or {})
        except Exception as e:
            raise Broken({"fn": "uniform", "kind": kind, "ne": ne, "p": p, "sg": 1}) from e
        L = float(ne) if kind != "refined" else 1.0
        xs = np.asarray(self.sem.basis.doflocs[0]) * (ne / L)      # in units of elements
        nodes, w = lobatto(p)
        self.xi, self.cells, self.loc = [], [], []
        for x in xs:
            x = 0.0 if kind == "periodic" and abs(x - ne) < 1e-9 else x
            e = min(int(np.floor(x + 1e-9)), ne - 1)
            k = int(np.argmin([abs(float(z) - (x - e)) for z in nodes]))
            assert abs(float(nodes[k]) - (x - e)) < 1e-12, "collocation point is not a Gauss-Lobatto point"
            if k == p and e + 1 < ne:
                e, k = e + 1, 0
            self.xi.append(e + nodes[k])
            self.loc.append((e, k))
        self.w = w
        self.per = kind == "periodic"
        self.D = [i for i, x in enumerate(self.xi) if x == 0 and not self.per]
        self.R = [i for i, x in enumerate(self.xi) if x == ne and not self.per]

    def n(self):
        return len(self.xi)

    def lumped(self, i, tau):
        """w h summed over the elements of the node, and the stabilised part tau h/2 int phi_i'"""
        e, k = self.loc[i]
        m = scal.mul(self.w[k], self.h[e])
        if k == 0 and (e > 0 or self.per):
            l = self.h[(e - 1) % self.ne]
            m = scal.add(m, scal.mul(self.w[self.p], l))
            m = scal.add(m, scal.mul(scal.mul(tau, F(1, 2)), scal.sub(l, self.h[e])))
        elif k == self.p:
            m = scal.add(m, scal.mul(scal.mul(tau, F(1, 2)), self.h[e]))
        return m

    def lifted(self):
        s = copy.copy(self.sem)
        s.basis = lift(self.sem.basis, self.h)
        if getattr(self.sem, "basis_f", None) is not None:
            s.basis_f = lift(self.sem.basis_f, self.h)
        return s


# ---- obligations: polynomials in the symbols, all bounded by one --------------------------------------------------
def small(exprs, tol=TOL):
    """(violations, conditions): every monomial of the expressions is an arbitrary number in [-1,1]"""
    bad, names = [], {}
    for x in exprs:
        if ISO(x, (scal.S, scal.C)):
            raise scal.Unsupported("not a real")
        if not ISO(x, scal.E):
            bad.append(abs(x) > tol if x == x else True)
            continue
        d = scal._lpoly(x, frozenset(), {})
        if d is None:
            raise scal.Unsupported("expression too large")
        y = F(0)
        g = 2**50                   # coefficients to 15 digits: what is cut off counts as deviation
        cut = sum(abs(c - F(round(c * g), g)) for c in d.values())
        for m, c in d.items():
            c = F(round(c * g), g)
            if c == 0:
                continue
            y = scal.add(y, c if not m else scal.mul(c, names.setdefault(m, V(f"m{len(names)}"))))
        if ISO(y, scal.E):
            bad += [scal.lt(tol - cut, y), scal.lt(y, cut - tol)]
        else:
            bad.append(abs(y) > tol - cut)
    conds = [b for v in names.values() for b in (scal.le(v, 1), scal.le(-1, v))]
    return [b for b in bad if b is not False], conds


def poly(c, xi, d=0):
    """d-th derivative of sum c_k xi^k"""
    r = F(0)
    for k, ck in enumerate(c):
        if k >= d:
            f = F(1)
            for i in range(d):
                f *= k - i
            r = scal.add(r, scal.mul(ck, f * F(xi) ** (k - d)))
    return r


def run(ck):
    P = (1, 2, 3, 4)
    ck.bounds += ["polynomial order 1..4; meshes of 1..3 (thorough 4) elements, refined unit interval, periodic ones; every uniform element size (and every three sizes for the linear and mass statements)",
                  "every diffusion nu <= h, velocity of either sign, stabilisation tau, every polynomial of degree <= p as state; velocity fields of degree a with a + degree of the state <= p; all scaled to at most 1; deviations above 1e-10"]
    ck.stubs += ["skfem's sparse matrices: every position stored; basis functions of the mesh with unit elements, scaled to the symbolic element sizes",
                 "scipy BarycentricInterpolator, for symbolic points: the Lagrange polynomials of its nodes"]
    jobs = []
    for p in P:
        for kind, ne in [("line", 1), ("line", 3), ("refined", 2), ("refined", 4), ("periodic", 3)] + ([("line", 4), ("periodic", 4), ("refined", 8)] if ck.thorough else []):
            jobs += [(uniform, kind, ne, p, sg) for sg in ((1, -1) if kind != "refined" or ne == 2 else (1,))]
        jobs += [(fn, kind, ne, p, sg) for sg in (1, -1) for fn, kind, ne in ((sizes, "line", 3), (sizes, "periodic", 3), (field, "line", 2), (field, "periodic", 3))] + [(quad, p)]
        if p >= 3:
            jobs.append((element, p))
    jobs += [(source, k, p, sg) for sg in (1, -1) for k in ("line", "periodic") for p in P] + [(still, p) for p in P]
    ck.jobs(jobs, limit=200)


def assemble(C, **kw):
    with symbolic_fem(), ode.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        A, Ml, b = C.lifted().assemble(**kw)
    A = A.toarray() if ISO(A, Csr) else np.asarray(A.todense())
    return q(A), q(Ml), q(np.asarray(b))


def go(ck, lab, fn, case):
    """fn() -> list of (what, expressions that must vanish)"""
    try:
        found = list(scal.explore(fn))
    except (scal.Unsupported, scal.BoundExceeded, scal.Infeasible):
        raise
    except Exception as e:
        if replay(case)[0]:
            ck.direct(lab, case)
        else:
            ck.problems.append(f"{lab}: exception {type(e).__name__}: {str(e)[:200]}")
        return
    for pi, (st, res, conds, _) in enumerate(found):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({res})")
            continue
        for what, ex in res:
            bad, box = small(ex)
            ck.prove(f"{lab}/{what}" + (f"/path{pi}" if pi else ""), bad, box, lambda env: case)
    b, msg = replay(case)
    ck.validate(lab, (not b) or bool(ck.violations), msg)


def residual(C, A, b, u):
    return [scal.sub(b[i], sum_([scal.mul(A[i, j], u[j]) for j in range(C.n())])) for i in range(C.n())]


def sum_(xs):
    r = F(0)
    for x in xs:
        r = scal.add(r, x)
    return r


@built
def uniform(ck, lab, kind, ne, p, sg):
    """f = (nu + tau h vel/2) u'' - vel u' at every node for polynomials of degree <= p"""
    nu, speed, tau, h = V("nu"), V("vel"), V("tau"), V("h")
    vel, up_ = scal.mul(sg, speed), scal.mul(sg, tau)
    C = Case(kind, ne, p, [h] * ne, nu, vel, tau)

    def fn():
        scal.PATH.assume(scal.lt(0, h))
        scal.PATH.assume(scal.lt(0, speed))
        A, Ml, b = assemble(C)
        out = []
        n = C.n()
        out.append(("dirichlet", [scal.sub(A[i, j], int(i == j)) for i in C.D for j in range(n)] + [scal.sub(Ml[i], 1) for i in C.D] + [b[i] for i in C.D]))
        out.append(("mass", [scal.sub(Ml[i], C.lumped(i, up_)) for i in range(n) if i not in C.D]))
        out.append(("source", list(b)))
        out.append(("constants", [residual(C, A, b, [F(1)] * n)[i] for i in range(n) if i not in C.D]))
        if C.per:
            out.append(("conservation", [sum_([A[i, j] for i in range(n)]) for j in range(n)]))
            out.append(("length", [scal.sub(sum_(list(Ml)), scal.mul(ne, h))]))
            # a jump of the polynomial at the seam is not smooth: only nodes of elements away from it
            live = [i for i in range(n) if 0 < C.xi[i] < ne - 1] if ne > 2 else []
            live = [i for i in live if C.xi[i] > 0 and C.loc[i][0] not in (ne - 1,)]
        else:
            live = [i for i in range(n) if i not in C.D]
        c = [V(f"c{k}") for k in range(p + 1)]
        u = [poly(c, x) for x in C.xi]
        r = residual(C, A, b, u)
        k2 = scal.add(scal.div(nu, scal.mul(h, h)), scal.div(scal.mul(scal.mul(tau, speed), F(1, 2)), h))
        ex = []
        for i in live:
            up, upp = poly(c, C.xi[i], 1), poly(c, C.xi[i], 2)
            w = sum_([scal.mul(C.w[C.loc[i][1]], h), scal.mul(C.w[C.p], h) if C.loc[i][1] == 0 else F(0)])
            f = scal.sub(scal.mul(k2, upp), scal.mul(scal.div(vel, h), up))
            g = scal.mul(w, f)
            if i in C.R:       # natural boundary: no diffusive flux
                g = scal.sub(g, scal.mul(scal.mul(k2, h), up))
            ex.append(scal.sub(r[i], g))
        out.append(("operator", ex))
        return out
    go(ck, lab, fn, {"fn": "uniform", "kind": kind, "ne": ne, "p": p, "sg": sg})


@built
def sizes(ck, lab, kind, ne, p, sg):
    """any element sizes: lumped masses, constants, conservation, advection of linear functions at every stabilisation"""
    nu, speed, tau, h = V("nu"), V("vel"), V("tau"), [V(f"h{e}") for e in range(ne)]
    vel, up_ = scal.mul(sg, speed), scal.mul(sg, tau)
    C = Case(kind, ne, p, h, nu, vel, tau)

    def fn():
        for x in h + [speed]:
            scal.PATH.assume(scal.lt(0, x))
        A, Ml, b = assemble(C)
        n = C.n()
        free = [i for i in range(n) if i not in C.D]
        out = [("mass", [scal.sub(Ml[i], C.lumped(i, up_)) for i in free]), ("constants", [residual(C, A, b, [F(1)] * n)[i] for i in free])]
        if C.per:
            out.append(("conservation", [sum_([A[i, j] for i in range(n)]) for j in range(n)]))
            out.append(("length", [scal.sub(sum_(list(Ml)), sum_(h))]))
        # u = x: A u = vel Ml + nu (boundary flux), at nodes not next to the seam
        x = []
        for e, k in C.loc:
            t = sum_(h[:e])
            x.append(scal.add(t, scal.mul(C.xi[len(x)] - e, h[e])))
        r = residual(C, A, b, x)
        live = [i for i in free if not C.per or 0 < C.xi[i] < ne - 1]
        ex = []
        for i in live:
            w = scal.mul(vel, C.lumped(i, up_))
            if i in C.R:
                w = scal.add(w, nu)
            ex.append(scal.add(r[i], w))
        out.append(("linear", ex))
        return out
    go(ck, lab, fn, {"fn": "sizes", "kind": kind, "ne": ne, "p": p, "sg": sg})


@built
def field(ck, lab, kind, ne, p, sg):
    """a velocity field v(x) given at the nodes: f = nu u'' - (v u)' + (tau h/2)(|v| u')'"""
    nu, tau, h = V("nu"), V("tau"), V("h")
    for a in range(p + 1):
        vc, c = [V(f"v{k}") for k in range(a + 1)], [V(f"c{k}") for k in range(p - a + 1)]
        L = float(ne)
        C = Case(kind, ne, p, [h] * ne, nu, F(1), tau, fields={"vel": lambda x, gain=0, nu=None, **kw: np.array([[scal.mul(sg * gain * (nu is V("nu")), V(f"w{i}")) for i in range(np.asarray(x).shape[1])]], dtype=object)})
        at = {V(f"w{i}"): poly(vc, 0 if C.per and x == ne else x) for i, x in enumerate(C.xi)}

        def fn():
            scal.PATH.assume(scal.lt(0, h))
            for w in at:
                scal.PATH.assume(scal.lt(0, w))
            A, Ml, b = assemble(C, gain=1)      # keywords of assemble reach the field functions
            A = np.array([[put(x, at) for x in r] for r in A], dtype=object)
            n = C.n()
            u = [poly(c, x) for x in C.xi]
            r = residual(C, A, b, u)
            live = [i for i in range(n) if i not in C.D and i not in C.R and (not C.per or 0 < C.xi[i] < ne - 1)]
            if C.per and a:
                live = [i for i in live if C.loc[i][0] < ne - 1]
            ex = []
            for i in live:
                x = C.xi[i]
                v, v1, u0, u1, u2 = poly(vc, x), poly(vc, x, 1), poly(c, x), poly(c, x, 1), poly(c, x, 2)
                w = sum_([scal.mul(C.w[C.loc[i][1]], h), scal.mul(C.w[C.p], h) if C.loc[i][1] == 0 else F(0)])
                f = sum_([scal.mul(scal.div(nu, scal.mul(h, h)), u2), scal.mul(scal.div(-sg, h), scal.add(scal.mul(v, u1), scal.mul(v1, u0))),
                          scal.mul(scal.div(scal.mul(tau, F(1, 2)), h), scal.add(scal.mul(v, u2), scal.mul(v1, u1)))])
                ex.append(scal.sub(r[i], scal.mul(w, f)))
            out = [(f"v^{a}", ex)]
            if C.per:
                out.append((f"v^{a} conservation", [sum_([A[i, j] for i in range(n)]) for j in range(n)]))
            return out
        go(ck, f"{lab}/{a}", fn, {"fn": "field", "kind": kind, "ne": ne, "p": p, "a": a, "sg": sg})


def put(x, at):
    """substitute in the expanded form (x/x has cancelled by then)"""
    d = scal._lpoly(x, frozenset(), {})
    if d is None:
        raise scal.Unsupported("expression too large")
    r = F(0)
    for m, c in d.items():
        for n, k in m:
            c = scal.mul(c, scal.power(at.get(n, n), k))
        r = scal.add(r, c)
    return r


@built
def source(ck, lab, kind, p, sg):
    """a constant source raises every free node at its own rate, on any mesh and for every stabilisation"""
    ne = 3
    nu, speed, tau, s, h = V("nu"), V("vel"), V("tau"), V("s"), [V(f"h{e}") for e in range(ne)]
    C = Case(kind, ne, p, h, nu, scal.mul(sg, speed), tau)

    def fn():
        for x in h + [speed]:
            scal.PATH.assume(scal.lt(0, x))
        with common.patched([(ad.src_f, lambda x, **kw: 0 * x.sum(axis=0) + s)]):
            A, Ml, b = assemble(C)
        return [("source", [scal.sub(b[i], F(0) if i in C.D else scal.mul(s, C.lumped(i, scal.mul(sg, tau)))) for i in range(C.n())])]
    go(ck, lab, fn, {"fn": "source", "kind": kind, "p": p, "sg": sg})


@built
def still(ck, lab, p):
    """no velocity: pure diffusion"""
    ne, nu, h = 3, V("nu"), V("h")
    for tau in (F(0), V("tau")):
        C = Case("line", ne, p, [h] * ne, nu, F(0), tau)

        def fn():
            scal.PATH.assume(scal.lt(0, h))
            A, Ml, b = assemble(C)
            c = [V(f"c{k}") for k in range(p + 1)]
            r = residual(C, A, b, [poly(c, x) for x in C.xi])
            ex = []
            for i in range(C.n()):
                if i in C.D:
                    continue
                w = sum_([scal.mul(C.w[C.loc[i][1]], h), scal.mul(C.w[C.p], h) if C.loc[i][1] == 0 else F(0)])
                k2 = scal.div(nu, scal.mul(h, h))
                g = scal.mul(scal.mul(w, k2), poly(c, C.xi[i], 2))
                if i in C.R:
                    g = scal.sub(g, scal.mul(scal.mul(k2, h), poly(c, C.xi[i], 1)))
                ex.append(scal.sub(r[i], g))
            return [("operator", ex)]
        go(ck, f"{lab}/{'tau' if tau != 0 else '0'}", fn, {"fn": "still", "p": p, "tau": 0.5 if tau != 0 else 0.0})


# ---- element and quadrature ---------------------------------------------------------------------------------------
def quad(ck, lab, p):
    """GLL rule with p+1 points: symmetric closed points of [0,1], positive weights, exact for degree 2p-1"""
    X, W = nodal.GLL_quad()(p + 1)
    X, W = q(X)[0], q(W)
    c = [V(f"c{k}") for k in range(2 * p)]
    got = sum_([scal.mul(w, poly(c, x)) for x, w in zip(X, W)])
    want = sum_([scal.mul(F(1, k + 1), ck_) for k, ck_ in enumerate(c)])
    bad, box = small([scal.sub(got, want)], F(1, 10**13))
    nodes, w = lobatto(p)
    order = places(p, X)
    bad += [b for b in [abs(X[i] - nodes[k]) > F(1, 10**14) for i, k in enumerate(order)] + [abs(W[i] - w[k]) > F(1, 10**14) for i, k in enumerate(order)] if b] if order else [True]
    ck.prove(lab, bad, box, lambda env: {"fn": "quad", "p": p})


class Lagrange:
    """scipy.interpolate.BarycentricInterpolator for points that are not floats"""

    def __init__(self, xi, yi=None, axis=0, **kw):
        self.xi, self.yi = [q(np.asarray(xi))[i] for i in range(len(xi))], q(np.asarray(yi))

    def coefs(self):
        out = []
        for i, a in enumerate(self.xi):
            c = [F(1)]
            for j, b in enumerate(self.xi):
                if j != i:
                    c = [((c[k - 1] if k else 0) - (b * c[k] if k < len(c) else 0)) / (a - b) for k in range(len(c) + 1)]
            out.append(c)
        return out

    def ev(self, x, d):
        x = np.asarray(x, dtype=object)
        C, m = self.coefs(), self.yi.shape[1]
        out = np.empty(x.shape + (m,), dtype=object)
        for idx in np.ndindex(*x.shape):
            z = x[idx]
            pw = [F(1)]
            for _ in self.xi:
                pw.append(scal.mul(pw[-1], z))
            basis = []
            for c in C:
                t = F(0)
                for k, ck_ in enumerate(c):
                    if k >= d:
                        t = scal.add(t, scal.mul(ck_ * (k if d else 1), pw[k - d]))
                basis.append(t)
            for j in range(m):
                out[idx + (j,)] = sum_([scal.mul(self.yi[i, j], basis[i]) for i in range(len(C))])
        return out

    def __call__(self, x):
        return self.ev(x, 0)

    def derivative(self, x, der=1):
        return self.ev(x, 1)


def element(ck, lab, p):
    """basis functions reproduce polynomials of degree p at any points, whatever was asked before"""
    X1, X2 = np.array([[V("a0"), V("a1")]], dtype=object), np.array([[V("x0"), V("x1")]], dtype=object)
    nodes, _ = lobatto(p)

    def fn():
        with common.patched([(nodal.BarycentricInterpolator, Lagrange), (np, ode.NPP)]), ode.quiet():
            E = nodal.ElementLinePp_nodal(p)
            order = places(p, E.doflocs)
            E.lbasis(X1, 0)
            out = [E.lbasis(X2, i) for i in range(p + 1)]
        if order is None:
            return [("nodes", [F(1)])]
        ex = []
        for k in range(p + 1):
            for c in range(2):
                x = X2[0, c]
                pw = F(1)
                dp = F(0) if k == 0 else F(k)
                for _ in range(k):
                    pw = scal.mul(pw, x)
                for _ in range(k - 1):
                    dp = scal.mul(dp, x)
                ex.append(scal.sub(sum_([scal.mul(nodes[order[i]] ** k, np.asarray(out[i][0])[c]) for i in range(p + 1)]), pw))
                ex.append(scal.sub(sum_([scal.mul(nodes[order[i]] ** k, np.asarray(out[i][1])[0, c]) for i in range(p + 1)]), dp))
        return [("reproduction", ex)]
    go(ck, lab, fn, {"fn": "element", "p": p})


# ---- the real code ---------------------------------------------------------------------------------------------------
GENERIC = [dict(nu=0.3, vel=0.7, tau=0.0, h=0.8), dict(nu=0.05, vel=0.9, tau=0.6, h=0.5), dict(nu=0.4, vel=0.35, tau=0.85, h=1.0)]


def real(kind, ne, p, sizes, nu, vel, tau, fields=None):
    import logging
    logging.disable(logging.WARNING)
    x = np.concatenate([[0.0], np.cumsum(sizes)])
    if kind == "refined":
        L = float(ne * sizes[0])
        m = fem.MeshLine1(np.array([[0.0, L]])).with_boundaries({"left": lambda z: np.isclose(z[0], 0.0), "right": lambda z: np.isclose(z[0], L)}).refined({1: 0, 2: 1, 4: 2, 8: 3}[ne])
    else:
        m = fem.MeshLine1(x[None], segs(ne)).with_boundaries({"left": lambda z: np.isclose(z[0], 0.0), "right": lambda z: np.isclose(z[0], x[-1])})
        if kind == "periodic":
            m = fem.MeshLine1DG.periodic(m, m.boundaries["right"], m.boundaries["left"])
    with ode.quiet():
        sem = ad.AdDiffSEM(m, p=p, params={"nu": nu, "vel": vel, "tau": tau}, field_fns=fields or {})
        kw = {"gain": 1.0} if fields else {}
        s = sem.ode_sys(**kw)
        A, Ml, b = sem.assemble(**kw)
    return sem, s, np.asarray(A.todense()), np.asarray(Ml), np.asarray(b)


def replay(case):
    try:
        return replay_(case)
    except Exception as e:
        e = e.__cause__ or e
        return True, f"{case}: the real code raised {type(e).__name__}: {str(e)[:200]}"


def replay_(case):
    fn = case["fn"]
    p = case["p"]
    if fn == "quad":
        X, W = nodal.GLL_quad()(p + 1)
        nodes, w = lobatto(p)
        order = places(p, X)
        if order is None:
            return True, f"GLL rule with {p + 1} points has the points {np.asarray(X).tolist()}"
        e = [np.dot(W, np.asarray(X)[0] ** k) - 1 / (k + 1) for k in range(2 * p)] + [np.asarray(X)[0][i] - float(nodes[k]) for i, k in enumerate(order)] + [W[i] - float(w[k]) for i, k in enumerate(order)]
        return bool(np.max(np.abs(e)) > 1e-13), f"GLL rule with {p + 1} points: deviations {e}"
    if fn == "element":
        X1, X2 = np.array([[0.3, 0.8]]), np.array([[0.15, 0.6]])
        E = nodal.ElementLinePp_nodal(p)
        E.lbasis(X1, 0)
        nodes, _ = lobatto(p)
        order = places(p, E.doflocs)
        if order is None:
            return True, f"ElementLinePp_nodal({p}): doflocs {np.asarray(E.doflocs).tolist()} are not the Gauss-Lobatto points"
        for k in range(p + 1):
            g = sum(float(nodes[order[i]]) ** k * E.lbasis(X2, i)[0] for i in range(p + 1))
            d = sum(float(nodes[order[i]]) ** k * E.lbasis(X2, i)[1][0] for i in range(p + 1))
            if not (np.max(np.abs(g - X2[0] ** k)) < 1e-10 and np.max(np.abs(d - (k * X2[0] ** (k - 1) if k else 0))) < 1e-9):
                return True, f"ElementLinePp_nodal({p}): after lbasis({X1.tolist()}), the interpolant of x^{k} at {X2.tolist()} is {g.tolist()} with derivative {d.tolist()}"
        return False, "basis functions reproduce polynomials"
    kind, ne = case.get("kind", "line"), case.get("ne", 3)
    for G in GENERIC:
        nu, vel, tau, h = G["nu"], G["vel"], G["tau"], G["h"]
        sg = case.get("sg", 1)
        vel *= sg
        if fn == "still":
            vel, tau = 0.0, 0.0      # no advection: no stabilisation
        hs = [h] * ne if fn not in ("sizes", "source") else [h * z for z in (1.0, 0.6, 0.75)]
        C = Case(kind, ne, p, hs, nu, vel, tau)
        a = case.get("a", 0)
        vc = [sg * z for z in [0.8, 0.1, -0.05, 0.02, 0.01][: a + 1]]
        fv = (lambda z, d=0: np.polynomial.Polynomial(vc).deriv(d)(z) if d else np.polynomial.Polynomial(vc)(z)) if fn == "field" else None
        fields = {"vel": lambda x, gain=0.0, nu=None, **kw: gain * (nu == G["nu"]) * fv(np.where(np.isclose(x, ne * h), 0.0, x) / h if C.per else x / h)} if fn == "field" else {}
        where = f"{kind} mesh, sizes {hs}, p={p}, nu={nu}, vel={vel if fn != 'field' else vc}, tau={tau}"
        patch = [(ad.src_f, lambda x, **kw: 0.0 * x.sum(axis=0) + 0.65)] if fn == "source" else []
        with common.patched(patch):
            sem, s, A, Ml, b = real(kind, ne, p, hs, nu, vel, tau if fn != "still" else case["tau"], fields)
        n = len(Ml)
        free = [i for i in range(n) if i not in C.D]
        lump = np.array([float(C.lumped(i, sg * tau)) if i not in C.D else 1.0 for i in range(n)])
        tol = 1e-9

        def cmp(what, g, w):
            g, w = np.asarray(g, float), np.asarray(w, float)
            return None if g.shape == w.shape and (g.size == 0 or np.max(np.abs(g - w)) <= tol) else f"{where}: {what} is {g.tolist()}, should be {w.tolist()}"
        out = []
        if fn in ("uniform", "sizes"):
            out += [cmp("lumped mass", Ml, lump), cmp("A on Dirichlet rows", A[C.D], np.eye(n)[C.D]), cmp("A applied to constants", (A @ np.ones(n))[free], np.zeros(len(free)))]
            out += [cmp("fm", s.fm(0.0, jnp.ones(n)).matvec(jnp.ones(n)), lump), cmp("source", b, np.zeros(n))]
            if C.per:
                out += [cmp("column sums of A", A.sum(axis=0), np.zeros(n)), cmp("total mass", [Ml.sum()], [sum(hs)])]
        if fn == "source":
            out.append(cmp("b/Ml", [b[i] / Ml[i] for i in free], [0.65] * len(free)))
            out.append(cmp("b on Dirichlet nodes", b[C.D], np.zeros(len(C.D))))
            out = [o for o in out if o]
            if out:
                return True, out[0]
            continue
        xi = np.array([float(x) for x in C.xi])
        x0 = np.concatenate([[0.0], np.cumsum(hs)])
        x = np.array([x0[e] + (z - e) * hs[e] for (e, _), z in zip(C.loc, xi)])
        if not C.per:
            out.append(cmp("collocation points", np.sort(np.asarray(sem.collocation_points())), np.sort(x)))
        deg = 1 if fn == "sizes" else p - a if fn == "field" else p
        cc = np.array([0.3, -0.7, 0.45, 0.2, -0.6])[: deg + 1]
        Pu = np.polynomial.Polynomial(cc)
        if fn == "sizes":
            u, u1, u2 = cc[0] + cc[1] * x, cc[1] + 0 * x, 0 * x
        else:
            u, u1, u2 = Pu(xi), Pu.deriv(1)(xi) / h, (Pu.deriv(2)(xi) if deg > 1 else 0 * xi) / h**2
        f = np.asarray(s.frhs(0.0, jnp.asarray(u)))
        live = [i for i in free if not C.per or (0 < xi[i] < ne - 1)]
        if fn == "field":
            live = [i for i in live if i not in C.R and (not C.per or C.loc[i][0] < ne - 1)]
            v, v1 = fv(xi), (fv(xi, 1) / h if a else 0 * xi)
            w = nu * u2 - (v * u1 + v1 * u) + sg * tau * h / 2 * (v * u2 + v1 * u1)
            if C.per:
                out.append(cmp("column sums of A", A.sum(axis=0), np.zeros(n)))
        elif fn == "sizes":
            w = -vel * u1
        else:
            w = (nu + tau * h * abs(vel) / 2) * u2 - vel * u1
        for i in C.R:
            k = nu if fn == "sizes" else nu + tau * h * abs(vel) / 2
            wh = float(C.w[p]) * hs[-1]
            w[i] = ((lump[i] if fn == "sizes" else wh) * w[i] - k * u1[i]) / lump[i]
        out.append(cmp("f of a polynomial at the free nodes", f[live], w[live]))
        if not C.per and fn != "field":
            out.append(cmp("f at Dirichlet nodes", f[C.D], np.zeros(len(C.D))))
        out = [o for o in out if o]
        if out:
            return True, out[0]
    return False, "the assembled operators match"
