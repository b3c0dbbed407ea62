"""P10: rational (partial fraction) approximations of phi_k(Z) B."""
import math
from unittest import mock
import numpy as np
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.matexp_phi as mp
from ormatex_py.matexp_phi_pfd_dict import pfd_dict

V = scal.var
SHARDS = 8
LEGACY = {"2": F(29, 1000), "3": F(45, 1000), "6": F(45, 10000), "7": F(117, 10000), "9": F(35, 10000), "12": F(44, 10000)}
# error of the best rational approximation of type (n,n) of exp on (-oo,0] (Cody, Meinardus, Varga; Carpenter, Ruttan, Varga)
BEST = {2: 7.39030673e-3, 4: 8.6522435e-5, 6: 1.0084543e-6, 8: 1.1722652e-8, 10: 1.3611120e-10, 12: 1.5817446e-12, 14: 1.8385e-14, 16: 2.137e-16}
NAMES = ["IE", "CN"] + [f"pade_{m}_{n}" for n in (2, 4, 6, 8, 10, 12, 14, 16) for m in sorted({0, n - 2, n - 1, n})] + \
        [f"cram_{n}" for n in (2, 4, 6, 8, 10, 12, 14, 16)] + list(LEGACY)


def size(name):
    ps, cs, c0 = pfd_dict[name]
    return max(1.0, abs(c0) + sum(abs(2 * c / p) for p, c in zip(ps, cs)))


def pade(m, n, k):
    """numerator and denominator (coefficient lists) of the phi_k counterpart of the (m,n) Pade approximant of exp"""
    f = math.factorial
    P = [F(f(m + n - j) * f(m), f(m + n) * f(j) * f(m - j)) for j in range(m + 1)]
    Q = [F((-1) ** j * f(m + n - j) * f(n), f(m + n) * f(j) * f(n - j)) for j in range(n + 1)]
    for i in range(k):
        # (N - Q/i!)/z
        L = max(len(P), len(Q))
        P = P + [F(0)] * (L - len(P))
        P = [P[j] - (Q[j] / f(i) if j < len(Q) else 0) for j in range(L)]
        assert P[0] == 0
        P = P[1:]
    return P, Q


def horner(cs, z):
    acc = F(0)
    for c in reversed(cs):
        acc = scal.add(c, scal.mul(z, acc))
    return acc


def code(z, k, name):
    """the real evaluator at a symbolic scalar"""
    with jsym.symbolic(), ode.quiet():
        r = mp.f_phi_k_pfd(sym([[z]]) if isinstance(z, scal.E) else jnp.asarray([[float(z)]]), jnp.asarray([1.0]), k, name)
    return scal.cre(vals(r).reshape(-1)[0])


def run(ck):
    jsym.install_library_contracts()
    kmax = 4 if ck.thorough else 3
    ck.bounds += [f"every table ({len(NAMES)} names), k = 0..{kmax}, 1x1 Z: Pade tables against the exact Pade rational function for every z in [-100, 2] (IE, CN: [-100, 1/2]); "
                  "cram tables against exp for every z <= 0; legacy tables against phi_1 for every z in [-40, 0]; recursion from k-1 to k for every z in [-100, 1/2] (legacy tables: [-100, 0])",
                  "2x2 Z, vector and 2-column B with arbitrary real entries, for the tables with one real pole; with one and two complex pole pairs (made-up tables with exactly representable weights): arbitrary B and arbitrary off-diagonal entries of Z (diagonal -1, -2)",
                  "tables are read as the exact binary values of their entries; rounding in the evaluation is outside"]
    ck.stubs += ["dense linear solve: exact elimination"]
    jobs = []
    for name in NAMES:
        jobs += [(table, name, k) for k in range(kmax + 1)]
    jobs += [(cram, n, lo) for n in (2, 4, 6, 8, 10, 12, 14, 16) for lo in range(0, 40, 8)]
    jobs += [(legacy, n, lo) for n in LEGACY for lo in range(0, 40, 8)]
    jobs += [(matrix, n, k) for n in ("IE", "CN", "vf_1", "vf_2") for k in ((0, 1, 2) if ck.thorough else (0, 2))]
    if ck.first:
        ck.obligations += 1
        missing = [n for n in NAMES if n not in pfd_dict]
        if missing:
            ck.direct("tables", {"fn": "names", "missing": missing})
    for j in ck.shard(jobs):
        if not str(j[1]).startswith("vf_") and str(j[1]) not in pfd_dict and f"cram_{j[1]}" not in pfd_dict:
            continue
        j[0](ck, j[0].__name__ + "/" + "/".join(map(str, j[1:])), *j[1:])


def each(ck, lab, fn):
    for pi, (st, out, conds, _) in enumerate(scal.explore(fn)):
        if st != "ok":
            ck.problems.append(f"{lab}: cut ({out})")
            continue
        yield f"{lab}/path{pi}" if pi else lab, out, conds


# rational functions of one variable, exactly: {((factor, power), ...): numerator}; polynomials are coefficient tuples
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def padd(a, b):
    a, b = (a, b) if len(a) >= len(b) else (b, a)
    r = [x + (b[i] if i < len(b) else 0) for i, x in enumerate(a)]
    while r and r[-1] == 0:
        r.pop()
    return r


def rone(R):
    """(numerator, {factor: power})"""
    den = {}
    for k in R:
        for f, p in k:
            den[f] = max(den.get(f, 0), p)
    N = []
    for k, n in R.items():
        have = dict(k)
        for f, p in den.items():
            for _ in range(p - have.get(f, 0)):
                n = pmul(n, f)
        N = padd(N, n)
    return N, den


def ratfun(e, memo):
    if not isinstance(e, scal.E):
        if scal.is_special(e):
            raise scal.Unsupported("not finite")
        return {(): [F(e)]} if e else {}
    if e in memo:
        return memo[e]
    if e.op == "var":
        r = {(): [F(0), F(1)]}
    elif e.op == "+":
        c, ts = e.args
        r = {(): [F(c)]} if c else {}
        for n, k in ts:
            for key, x in ratfun(n, memo).items():
                r[key] = padd(r.get(key, []), [k * y for y in x])
    elif e.op == "*":
        r = {(): [F(1)]}
        for n, p in e.args:
            d = ratfun(n, memo)
            if p < 0:
                N, den = rone(d)
                if not N:
                    raise scal.Unsupported("division by zero")
                num = [F(1)]
                for f, q in den.items():
                    for _ in range(q):
                        num = pmul(num, f)
                num = [x / N[-1] for x in num]
                N = tuple(x / N[-1] for x in N)
                d = {(((N, 1),) if len(N) > 1 else ()): num}
            for _ in range(abs(p)):
                out = {}
                for k1, a in r.items():
                    for k2, b in d.items():
                        m = dict(k1)
                        for f, q in k2:
                            m[f] = m.get(f, 0) + q
                        k = tuple(sorted(m.items()))
                        out[k] = padd(out.get(k, []), pmul(a, b))
                r = out
    else:
        raise scal.Unsupported(f"{e.op} in a rational function")
    r = {k: n for k, n in r.items() if any(n)}
    memo[e] = r
    return r


def every(bs):
    r = True
    for b in bs:
        r = scal.band(r, b)
    return r


def check(ck, lab, fn, case):
    """fn() -> (difference, tolerances): |difference| <= the largest tolerance"""
    for l, (d, tols), conds in each(ck, lab, fn):
        z = next(iter(scal.fvars([c for c in conds if isinstance(c, scal.E)]).values()))
        memo = {}
        N, den = rone(ratfun(d, memo))
        D, at = [F(1)], None
        for i, (f, p) in enumerate(den.items()):
            # no factor vanishes on the range: each has the sign it has at one point of it
            if ck.prove(f"{l}/pole{i}", [scal.eq(horner(f, z), 0)], conds, case, reach=False) is not True:
                return
            at = INSIDE[0]
            v = sum(c * at ** j for j, c in enumerate(f))
            for _ in range(p):
                D = pmul(D, f if v > 0 else [-c for c in f])
        tols = tols if isinstance(tols, list) else [tols]
        T = []
        for t in tols:
            tn, td = rone(ratfun(t, memo))
            assert not td
            T.append(horner(pmul(tn, D), z))
        N = horner(N, z)
        r = ck.prove(l, [scal.bor(every([scal.lt(t, N) for t in T]), every([scal.lt(N, scal.mul(-1, t)) for t in T]))], conds, case)
        if len(ck.samples) < 3:
            ck.samples.append({"obligation": l, "verdict": str(r)})


INSIDE = [None]       # a point of the range


def rng(z, lo, hi):
    INSIDE[0] = (F(lo) + F(hi)) / 2
    scal.PATH.assume(scal.le(lo, z))
    scal.PATH.assume(scal.le(z, hi))


def table(ck, lab, name, k):
    z = V("z")
    order = None
    if name.startswith("pade"):
        order = tuple(map(int, name.split("_")[1:]))
    elif name in ("IE", "CN"):
        order = {"IE": (0, 1), "CN": (1, 1)}[name]
    if order and sum(order) >= k - 1:
        tol = noise(name)

        def go():
            rng(z, -100, F(1, 2) if name in ("IE", "CN") else 2)
            N, Q = pade(*order, k)
            return scal.sub(code(z, k, name), scal.div(horner(N, z), horner(Q, z))), tol
        check(ck, lab, go, lambda env: {"fn": "pade", "name": name, "k": k, "z": float(env.get("z", -1.0))})
    elif k:
        # z r_k(z) = r_{k-1}(z) - r_{k-1}(0)
        tol = F(1, 10**13) * F(int(size(name)) + 1) * 4

        def go():
            rng(z, -100, 0 if name in LEGACY else F(1, 2))
            return scal.sub(scal.mul(z, code(z, k, name)), scal.sub(code(z, k - 1, name), code(F(0), k - 1, name))), [scal.mul(tol, scal.add(1, z)), scal.mul(tol, scal.sub(1, z))]
        check(ck, lab, go, lambda env: {"fn": "rec", "name": name, "k": k, "z": float(env.get("z", -1.0))})
    if k in (1, 2):
        b, msg = replay({"fn": "pade" if order else "rec", "name": name, "k": k, "z": -1.7})
        ck.validate(lab, (not b) or bool(ck.violations), msg)
        # encoding at a concrete point against the real evaluator
        e = [out for _, out, _ in each(ck, lab, lambda: code(z, k, name))]
        v = scal.evalf(e[0], {"z": F(-13, 8)})
        with ode.quiet():
            w = float(mp.f_phi_k_pfd(jnp.asarray([[-1.625]]), jnp.asarray([1.0]), k, name)[0])
        ck.validate(lab + " encoding", abs(v - w) <= 1e-11 * size(name), f"{v} vs {w}")


def noise(name):
    s = F(int(size(name)) + 1)
    big = name.startswith("pade") and int(name.split("_")[2]) >= 8 and not name.startswith("pade_0")
    return (F(3, 10**14) if big else F(1, 10**12)) * s


def cram_tol(n):
    return F(BEST[n]) * F(1003, 1000) + F(5, 10**14)


def exp_at(a):
    import mpmath
    mpmath.mp.dps = 60
    return F(int(mpmath.floor(mpmath.e ** a * 10**50)), 10**50)


def exp_piece(z, mid, half, deg=14):
    """Taylor polynomial of exp about mid, remainder below exp(mid+half) half^(deg+1)/(deg+1)! on |z-mid|<=half"""
    w = scal.sub(z, mid)
    return scal.mul(exp_at(mid), horner([F(1, math.factorial(j)) for j in range(deg + 1)], w)), \
        exp_at(mid + half) * F(half) ** (deg + 1) / math.factorial(deg + 1) * 2 + F(2, 10**50)


def cram(ck, lab, n, lo):
    name, z = f"cram_{n}", V("z")
    for a in range(lo, lo + 8):
        def go():
            rng(z, -a - 1, -a)
            p, rem = exp_piece(z, F(-2 * a - 1, 2), F(1, 2))
            return scal.sub(code(z, 0, name), p), cram_tol(n) + rem
        check(ck, f"{lab}/{a}", go, lambda env: {"fn": "exp", "name": name, "z": float(env.get("z", -a - 0.5)), "tol": float(cram_tol(n))})
    if lo == 32:
        def go():
            scal.PATH.assume(scal.lt(z, -40))
            INSIDE[0] = F(-41)
            return code(z, 0, name), cram_tol(n) + F(1, 10**17)
        check(ck, f"{lab}/tail", go, lambda env: {"fn": "exp", "name": name, "z": float(env.get("z", -50)), "tol": float(cram_tol(n))})


def legacy(ck, lab, name, lo):
    z = V("z")
    for a in range(lo, lo + 8):
        def go():
            rng(z, -a - 1, -a)
            p, rem = exp_piece(z, F(-2 * a - 1, 2), F(1, 2))
            # z phi_1(z) = exp(z) - 1
            return scal.sub(scal.mul(z, code(z, 1, name)), scal.sub(p, 1)), scal.add(scal.mul(scal.mul(-1, z), LEGACY[name]), rem)
        check(ck, f"{lab}/{a}", go, lambda env: {"fn": "legacy", "name": name, "z": float(env.get("z", -a - 0.5)), "tol": float(LEGACY[name])})


# tables whose weights 2c/p^k are exact in doubles in whatever order they are formed
MADE_UP = {"vf_1": ([2 + 2j], [1.5 - 0.625j], 0.25), "vf_2": ([-2 + 2j, 4j], [0.75 + 0.5j, -1.25 + 0.125j], -0.5)}


def matrix(ck, lab, name, k):
    with mock.patch.dict(pfd_dict, MADE_UP):
        matrix_(ck, lab, name, k)


def matrix_(ck, lab, name, k):
    ps, cs, c0 = pfd_dict[name]
    full = np.array([[V(f"z{i}{j}") for j in range(2)] for i in range(2)], dtype=object)
    full = [("", full)] if name in ("IE", "CN") else [
        ("", np.array([[F(-1), V("z01")], [V("z10"), F(-2)]], dtype=object))]
    for m in (1, 2):
      for zl, Z in full:
        matrix1(ck, lab + zl, name, k, m, Z, ps, cs, c0)


def matrix1(ck, lab, name, k, m, Z, ps, cs, c0):
    B = np.array([[V(f"b{i}{j}") for j in range(m)] for i in range(2)], dtype=object)

    def go():
        with jsym.symbolic(), ode.quiet():
            r = vals(mp.f_phi_k_pfd(sym(Z), sym(B[:, 0] if m == 1 else B), k, name))
        want = np.empty((2, m), dtype=object)
        for i in range(2):
            for j in range(m):
                want[i, j] = scal.mul(scal.rat(c0), B[i, j]) if k == 0 else F(0)
        for p, c in zip(ps, cs):
            P = jsym.conv_scalar(p, "c")
            A = [[scal.sub(Z[0, 0], P), Z[0, 1]], [Z[1, 0], scal.sub(Z[1, 1], P)]]
            det = scal.sub(scal.mul(A[0][0], A[1][1]), scal.mul(A[0][1], A[1][0]))
            adj = [[A[1][1], scal.mul(-1, A[0][1])], [scal.mul(-1, A[1][0]), A[0][0]]]
            w = jsym.conv_scalar(2. * c / p**k, "c")
            for i in range(2):
                for j in range(m):
                    x = scal.add(scal.mul(adj[i][0], B[0, j]), scal.mul(adj[i][1], B[1, j]))
                    want[i, j] = scal.add(want[i, j], scal.cre(scal.div(scal.mul(w, x), det)))
        return r, want
    case = lambda env: {"fn": "matrix", "name": name, "k": k, "m": m, "Z": [[float(scal.evalf(Z[i, j], dict({f"z{q}{r}": 0.1 + q - r for q in range(2) for r in range(2)}, **env))) for j in range(2)] for i in range(2)],
                        "B": [[float(env.get(f"b{i}{j}", 1.0 + i)) for j in range(m)] for i in range(2)]}
    for l, (r, want), conds in each(ck, f"{lab}/m{m}", go):
        if r.shape != ((2,) if m == 1 else (2, m)):
            ck.direct(l, case({}))
            continue
        r = r.reshape(2, m)
        bad = [scal.bnot(scal.eq(r[i, j], want[i, j])) for i in range(2) for j in range(m)]
        ck.prove(l, bad, conds, case, hints=[[scal.le(-2, x) for x in Z.flat] + [scal.le(x, F(-1, 5)) for x in Z.flat] + [scal.le(1, b) for b in B.flat] + [scal.le(b, 2) for b in B.flat]])
    b, msg = replay(case({}))
    ck.validate(l, (not b) or bool(ck.violations), msg)


def replay(case):
    import mpmath
    mpmath.mp.dps = 50
    fn = case["fn"]
    if fn == "names":
        bad = [n for n in case["missing"] if n not in pfd_dict]
        return bool(bad), f"tables missing: {bad}"
    name, k = case["name"], case.get("k", 0)

    def real(zz, kk):
        with ode.quiet():
            return float(mp.f_phi_k_pfd(jnp.asarray([[float(zz)]]), jnp.asarray([1.0]), kk, name)[0])
    try:
        rounding = 1e-14 * size(name) if fn != "matrix" else 0
        if fn == "matrix":
          with mock.patch.dict(pfd_dict, MADE_UP):
              Z, B = np.array(case["Z"]), np.array(case["B"])
              b = B[:, 0] if case["m"] == 1 else B
              with ode.quiet():
                  g = np.asarray(mp.f_phi_k_pfd(jnp.asarray(Z), jnp.asarray(b), k, name))
              ps, cs, c0 = pfd_dict[name]
              w = c0 * b + 0j if k == 0 else 0 * b + 0j
              for p, c in zip(ps, cs):
                  w = w + (2 * c / complex(p)**k * np.linalg.solve(Z - p * np.eye(2), b)).real
              if g.shape != b.shape:
                  return True, f"f_phi_k_pfd returned shape {g.shape} for B of shape {b.shape}"
              e = np.max(np.abs(g - w.real))
              return not e <= 1e-9 * (1 + np.max(np.abs(w))), f"f_phi_k_pfd({name}, k={k}, Z={Z.tolist()}, B={B.tolist()}) = {g.tolist()}; the partial fraction sum is {w.real.tolist()}"
        z = case["z"]
        if fn == "pade":
            order = {"IE": (0, 1), "CN": (1, 1)}.get(name) or tuple(map(int, name.split("_")[1:]))
            N, Q = pade(*order, k)
            ref = float(horner(N, F(z)) / horner(Q, F(z)))
            tol = float(noise(name)) * 0.5 + rounding
            v = real(z, k)
            return not abs(v - ref) <= tol, f"f_phi_k_pfd({name}, k={k}) at z={z} is {v!r}; the Pade value is {ref!r} (limit {tol:.1e})"
        if fn == "rec":
            a, b, c = real(z, k), real(z, k - 1), real(0.0, k - 1)
            tol = 2e-13 * size(name) * (1 + abs(z))
            return not abs(z * a - (b - c)) <= tol, f"f_phi_k_pfd({name}): z*phi_{k}(z) = {z*a!r} but phi_{k-1}(z) - phi_{k-1}(0) = {b-c!r} at z={z}"
        if fn == "exp":
            v, ref = real(z, 0), float(mpmath.e ** mpmath.mpf(z))
            return not abs(v - ref) <= case["tol"] + rounding, f"f_phi_k_pfd({name}, k=0) at z={z} is {v!r}; exp(z) = {ref!r}, tolerance {case['tol']:.1e}"
        v, x = real(z, 1), mpmath.mpf(z)
        ref = float((mpmath.e ** x - 1) / x) if z else 1.0
        return not abs(v - ref) <= case["tol"] * 0.999 + 1e-12, f"f_phi_k_pfd({name}, k=1) at z={z} is {v!r}; phi_1 = {ref!r}"
    except Exception as e:
        return True, f"f_phi_k_pfd({name}, k={k}) raised {type(e).__name__}: {e}"
