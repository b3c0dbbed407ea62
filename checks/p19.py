"""P19: Bateman and transmutation matrices conserve mass along decay chains; the analytic chain solution solves the chain."""
import itertools, math
import numpy as np
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.progression.bateman_sys as bs

V = scal.var
SHARDS = 8


class Np:
    """numpy with arrays that can hold symbolic values"""

    def __getattr__(self, name):
        f = getattr(np, name)
        if name in ("zeros", "ones", "empty", "zeros_like", "ones_like", "full"):
            def g(shape, *a, **k):
                d = k.get("dtype", a[-1] if a and isinstance(a[-1], type) else float)
                if name.endswith("_like"):
                    shape = np.shape(shape)
                if d in (int, bool):
                    return f(shape, *a, **k)
                r = np.empty(shape, dtype=object)
                r[...] = F(1) if name.startswith("ones") else F(0)
                if name == "full":
                    r[...] = a[0]
                return r
            return g
        if name in ("asarray", "array"):
            def g(x, *a, **k):
                x = vals(x) if isinstance(x, jsym.SymTracer) else x
                r = f(x, dtype=object) if not isinstance(x, np.ndarray) else x
                return r.copy() if name == "array" else r
            return g
        if name == "exp":
            return lambda x: np.vectorize(scal.exp, otypes=[object])(x) if np.asarray(x).dtype == object else f(x)
        if name in ("allclose", "isclose"):
            return lambda a, b, *r, **k: all(truth(scal.eq(scal.sub(x, y), 0)) for x, y in zip(np.ravel(a), np.ravel(b)))
        if name == "prod":
            def g(x, *a, **k):
                x = np.asarray(x)
                if x.dtype != object or a or k:
                    return f(x, *a, **k)
                r = F(1)
                for v in x.ravel():
                    r = scal.mul(r, v)
                return r
            return g
        return f


def truth(b):
    return b if isinstance(b, bool) else scal.PATH.decide(b)


class Jnp:
    def __getattr__(self, name):
        f = getattr(jnp, name)
        if name in ("asarray", "array"):
            return lambda x, *a, **k: x if isinstance(x, np.ndarray) and x.dtype == object else f(x, *a, **k)
        return f


PAIRS = [(np, Np()), (jnp, Jnp())]


# ---- matrices -------------------------------------------------------------------
def structures(thorough):
    """decay libraries: per species a list of (child index or None, rate name); single = not wrapped in a tuple of pairs"""
    out = []
    for d in (1, 2, 3):
        for ch in itertools.product([None] + list(range(d)), repeat=d):
            if any(c == i for i, c in enumerate(ch)):
                continue
            out.append([("single", [c]) for c in ch])
    for d in (2, 3):
        others = [None] + list(range(d))
        for i in range(d):
            for k in (1, 2, 3):
                for br in itertools.product([c for c in others if c != i], repeat=k):
                    if k == 3 and not thorough and len(set(br)) == 1:
                        continue
                    s = [("single", [None if j == d - 1 else j + 1]) for j in range(d)]
                    s[i] = ("multi", list(br))
                    out.append(s)
    out += [[("multi", [1, None]), ("multi", [2, 0]), ("multi", [None, None])], [("multi", [2, 1]), ("single", [2]), ("multi", [3, None, 3]), ("single", [None])],
            [("single", [3]), ("single", [3]), ("single", [3]), ("multi", [0, 1, 2])]]
    return out


def lib_of(st, order=None, rate=None, extra=False):
    d = len(st)
    names = [f"sp_{i}" for i in range(d)]
    rate = rate or (lambda i, k: V(f"l{i}{k}"))
    lib = {}
    for i in (order or range(d)):
        kind, ch = st[i]
        pairs = tuple((names[c] if c is not None else "none", rate(i, k)) for k, c in enumerate(ch))
        lib[names[i]] = pairs if kind == "multi" else pairs[0]
    if extra:
        lib["zz_unused"] = ("none", rate(0, 0))
    return names, lib


def oracle(st, rate, perm):
    """(M u)_c: u_i decays at the sum of its branch rates; each branch with a child feeds the child"""
    d = len(st)
    pos = {s: r for r, s in enumerate(perm)}
    M = np.empty((d, d), dtype=object)
    M[...] = F(0)
    for i, (kind, ch) in enumerate(st):
        for k, c in enumerate(ch):
            M[pos[i], pos[i]] = scal.sub(M[pos[i], pos[i]], rate(i, k))
            if c is not None:
                M[pos[c], pos[i]] = scal.add(M[pos[c], pos[i]], rate(i, k))
    return M


def run(ck):
    sts = structures(ck.thorough)
    ns = (1, 2, 3, 4)
    ck.bounds += [f"{len(sts)} library structures (all single-branch libraries of up to 3 species, libraries with up to 3 branches per species, three of 3-4 species), every decay constant, every flux; species listed in library order and in another order",
                  f"analytic chains of 1..{max(ns)} species with any distinct decay constants and any initial amount: Taylor coefficients in t up to t^(n+1) (n of them already determine a combination of n exponentials)",
                  "the shipped decay libraries with every state"]
    ck.stubs += ["numpy arrays that hold the matrix: arrays of symbolic numbers; np.allclose: exact equality"]
    n = 24
    jobs = [(matrices, i, n) for i in range(n)] + [(analytic, k) for k in ns] + [(analytic_last, k) for k in (2, 3)] + [(shipped, k) for k in ("decay_lib_0", "decay_lib_1", "decay_lib_test")] + [(guard,)]
    ck.sts = sts
    ck.jobs(jobs, limit=200)


def matrices(ck, lab, i, n):
    for k, st in enumerate(ck.sts):
        if k % n != i:
            continue
        d = len(st)
        for what in ("bateman", "transmute", "phi1"):
            perm = list(range(d)) if what != "transmute" else list(range(d))[::-1]
            names, lib = lib_of(st, order=list(range(d))[::-1] if what == "bateman" else None, extra=what == "phi1")
            keymap = [names[q] for q in perm]
            with common.patched(PAIRS), ode.quiet():
                if what == "bateman":
                    g = bs.gen_bateman_matrix(keymap, lib)
                elif what == "transmute":
                    g = bs.gen_transmute_matrix(keymap, lib, V("phi"))
                else:
                    g = bs.gen_transmute_matrix(keymap, lib)
            M = oracle(st, lambda i, k: V(f"l{i}{k}"), perm)
            if what != "bateman":
                f = scal.mul(-1, V("phi")) if what == "transmute" else F(-1)
                M = np.array([[scal.mul(f, x) for x in r] for r in M], dtype=object)
            g = np.asarray(g, dtype=object)
            bad = [True] if g.shape != M.shape else [b for b in (scal.bnot(scal.eq(scal.expand(scal.sub(u, v)), 0)) for u, v in zip(g.ravel(), M.ravel())) if b is not False]
            case = lambda env, st=st, what=what, perm=perm: {"fn": "matrix", "what": what, "st": st, "perm": perm, "phi": float(env.get("phi", 1.5)),
                                                             "rates": {f"{i}{k}": float(env.get(f"l{i}{k}", 1 + i + 0.25 * k)) for i in range(len(st)) for k in range(len(st[i][1]))}}
            ck.prove(f"{lab}/{k}/{what}", bad, [], case, reach=k % 20 == 0)
            if k % 40 == 0:
                b, msg = replay(case({}))
                ck.validate(f"{lab}/{k}/{what}", (not b) or bool(ck.violations), msg)


def chain(n, lam):
    M = np.empty((n, n), dtype=object)
    M[...] = F(0)
    for i in range(n):
        M[i, i] = scal.mul(-1, lam[i])
        if i + 1 < n:
            M[i + 1, i] = lam[i]
    return M


def analytic(ck, lab, n):
    lam, n0 = [V(f"l{i}") for i in range(n)], V("n0")
    K = n + 2

    def go():
        scal.Cfg.order = K
        for i in range(n):
            for j in range(i):
                scal.PATH.assume(scal.bnot(scal.eq(lam[i], lam[j])))
        e = scal.series_var()
        with common.patched(PAIRS), ode.quiet():
            return bs.analytic_bateman_single_parent(np.array([e, F(0)], dtype=object), chain(n, lam), n0)
    case = lambda env: {"fn": "analytic", "lam": [float(env.get(f"l{i}", 1 + i * i)) for i in range(n)], "n0": float(env.get("n0", 1.5))}
    for pi, (st, N, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({N})")
            continue
        if N.shape != (2, n):
            ck.direct(lab, case({}))
            continue
        u = [n0] + [F(0)] * (n - 1)
        M = chain(n, lam)
        for m in range(K):
            bad = []
            for i in range(n):
                w = scal.mul(u[i], F(1, math.factorial(m)))
                bad.append(vanish(scal.sub(scal.coef(N[0, i], m), w), n))
                if m == 0:
                    bad.append(vanish(scal.sub(N[1, i], w), n))
            ck.prove(f"{lab}/path{pi}/t^{m}", [b for b in bad if b is not False], conds, case, reach=m == 0)
            u = [sum_([scal.mul(M[i, j], u[j]) for j in range(n)]) for i in range(n)]
    b, msg = replay(case({}))
    ck.validate(lab, (not b) or bool(ck.violations), msg)


def vanish(d, n):
    return scal.bnot(scal.eq(d, 0))


def sum_(xs):
    r = F(0)
    for x in xs:
        r = scal.add(r, x)
    return r


def analytic_last(ck, lab, n):
    """the last species may be stable: total amount is then constant"""
    lam, n0 = [V(f"l{i}") for i in range(n - 1)] + [F(0)], V("n0")
    K = n + 2

    def go():
        scal.Cfg.order = K
        for i in range(n - 1):
            scal.PATH.assume(scal.lt(0, lam[i]))
            for j in range(i):
                scal.PATH.assume(scal.bnot(scal.eq(lam[i], lam[j])))
        with common.patched(PAIRS), ode.quiet():
            return bs.analytic_bateman_single_parent(np.array([scal.series_var()], dtype=object), chain(n, lam), n0)
    case = lambda env: {"fn": "analytic", "lam": [float(env.get(f"l{i}", 1 + i * i)) for i in range(n - 1)] + [0.0], "n0": float(env.get("n0", 1.5))}
    for pi, (st, N, conds, _) in enumerate(scal.explore(go)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({N})")
            continue
        bad = []
        for m in range(K):
            bad.append(scal.bnot(scal.eq(sum_([scal.coef(x, m) for x in N[0]]), n0 if m == 0 else 0)))
        ck.prove(f"{lab}/path{pi}", [b for b in bad if b is not False], conds, case)


def shipped(ck, lab, name):
    """the model TestBatemanSysJac on a shipped library: f(u) = B u for every u, sum of f = - total loss"""
    lib = getattr(bs, name)
    keymap = list(lib)
    u = [V(f"u{i}") for i in range(len(keymap))]
    with ode.quiet():
        s = bs.TestBatemanSysJac(keymap, lib)
    with jsym.symbolic(), ode.quiet():
        f = vals(s.frhs(sym(V("t")), sym(u)))
    st = []
    for k in keymap:
        e = lib[k]
        st.append(("single", [keymap.index(e[0]) if e[0] != "none" else None]))
    M = oracle(st, lambda i, k: F(float(lib[keymap[i]][1])), list(range(len(keymap))))
    bad, box = [], [scal.le(scal.absv(x), 1) for x in u]
    for i in range(len(u)):
        w = sum_([scal.mul(M[i, j], u[j]) for j in range(len(u))])
        bad.append(scal.lt(F(1, 10**12), scal.absv(scal.expand(scal.sub(f[i], w)))))
    ck.prove(lab, bad, box, lambda env: {"fn": "shipped", "name": name, "u": [float(env.get(f"u{i}", 1.0)) for i in range(len(u))]})


def guard(ck, lab):
    """a matrix that is not a chain (diagonal differs from the subdiagonal) is refused"""
    b, msg = replay({"fn": "guard"})
    if b:
        ck.direct(lab, {"fn": "guard"})
    else:
        ck.validate(lab, True, msg)


def replay(case):
    fn = case["fn"]
    try:
        with ode.quiet():
            if fn == "matrix":
                R = {k: max(-1e6, min(1e6, v)) for k, v in case["rates"].items()}
                st = [(k, list(c)) for k, c in case["st"]]
                for alt in (R, {k: 1.0 + i * 0.37 for i, k in enumerate(sorted(R))}):
                    rate = lambda i, k: alt[f"{i}{k}"]
                    names, lib = lib_of(st, rate=rate)
                    keymap = [names[q] for q in case["perm"]]
                    phi = case["phi"] if case["what"] == "transmute" else 1.0
                    g = np.asarray(bs.gen_bateman_matrix(keymap, lib) if case["what"] == "bateman" else bs.gen_transmute_matrix(keymap, lib, phi) if case["what"] == "transmute" else bs.gen_transmute_matrix(keymap, lib))
                    w = oracle(st, lambda i, k: F(rate(i, k)), case["perm"]).astype(float) * (1 if case["what"] == "bateman" else -phi)
                    if g.shape != w.shape or not np.max(np.abs(g - w)) <= 1e-9 * (1 + np.max(np.abs(w))):
                        return True, f"{case['what']} matrix of {lib} over {keymap} (flux {phi}) = {g.tolist()}, expected {w.tolist()}"
            elif fn == "analytic":
                import mpmath as mp
                mp.mp.dps = 40
                lam = list(case["lam"])
                n = len(lam)
                sc = max(1.0, max(abs(x) for x in lam) / 5)
                for lam_ in ([x / sc for x in lam], [1.0 + i * i for i in range(n)] if lam[-1] else [1.0 + i * i for i in range(n - 1)] + [0.0]):
                    if n > 1 and min(abs(lam_[i] - lam_[j]) for i in range(n) for j in range(i)) < 1e-2:
                        continue
                    M = chain(n, [F(x) for x in lam_]).astype(float)
                    n0 = max(-10.0, min(10.0, case["n0"])) or 1.0
                    ts = np.array([0.0, 0.3, 1.0])
                    N = np.asarray(bs.analytic_bateman_single_parent(ts, M, n0))
                    for t, row in zip(ts, N):
                        w = np.array([float(x) for x in mp.expm(mp.matrix(M.tolist()) * t)[:, 0]]) * n0
                        if not np.max(np.abs(row - w)) <= 1e-7 * (1 + abs(n0)) * math.exp(2 * max(0, -min(lam_))) * 10:
                            return True, f"analytic_bateman_single_parent(t={t}, constants {lam_}, n0={n0}) = {row.tolist()}, exact {w.tolist()}"
            elif fn == "shipped":
                lib = getattr(bs, case["name"])
                keymap = list(lib)
                u = np.array(case["u"])
                f = np.asarray(bs.TestBatemanSysJac(keymap, lib).frhs(0.0, jnp.asarray(u)))
                w = np.zeros(len(u))
                for i, k in enumerate(keymap):
                    w[i] -= lib[k][1] * u[i]
                    if lib[k][0] != "none":
                        w[keymap.index(lib[k][0])] += lib[k][1] * u[i]
                return not np.max(np.abs(f - w)) <= 1e-13, f"{case['name']}: f({u.tolist()}) = {f.tolist()}, expected {w.tolist()}"
            elif fn == "guard":
                for M in ([[-1.0, 0.0], [0.5, -2.0]], [[-1.0, 0, 0], [1.0, -2.0, 0], [0, 1.0, -3.0]]):
                    try:
                        N = bs.analytic_bateman_single_parent(np.array([0.5]), np.array(M), 1.0)
                        return True, f"analytic_bateman_single_parent accepted a matrix that is not a decay chain: {M} -> {np.asarray(N).tolist()}"
                    except AssertionError:
                        pass
    except Exception as e:
        return True, f"{fn} raised {type(e).__name__}: {str(e)[:200]}"
    return False, "holds"
