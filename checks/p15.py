"""P15: generated interpolation points are Leja points of the region asked for."""
import math
import numpy as np
import jax.numpy as jnp
from fractions import Fraction as F
from vf import scal, jsym, common, ode
import ormatex_py.matexp_leja as ml
import ormatex_py.matexp_poly as mpoly

V = scal.var
SHARDS = 8


class ObjNp:
    """numpy whose fresh float arrays can hold symbolic values"""

    def __getattr__(self, name):
        f = getattr(np, name)
        if name in ("zeros", "ones", "empty", "full"):
            def g(shape, *a, dtype=float, **k):
                if dtype in (int, bool) or (a and a[-1] in (int, bool)):
                    return f(shape, *a, dtype=dtype, **k) if dtype in (int, bool) else f(shape, *a, **k)
                r = np.empty(shape, dtype=object)
                r[...] = F(0) if name != "ones" else F(1)
                if name == "full":
                    r[...] = a[0]
                return r
            return g
        return f


def prod(xs):
    r = F(1)
    for x in xs:
        r = scal.mul(r, x)
    return r


def dist(x, zs):
    return scal.absv(prod([scal.sub(x, z) for z in zs])) if zs else F(1)


def run(ck):
    N = 7 if ck.thorough else 6
    ck.bounds += [f"fast points: every interval a < b, 3..{N} points, and n=30 on intervals of fixed proportions", "reordering: any 2..4 real points, any 5 real points given in two fixed orders, 8..24 real points in fixed proportions at any shift and spacing, 3 complex points on the grid of any spacing",
                  "ellipse: every box a <= b, c >= 0 and n = 2..17, 32, 33, 64 (imaginary branch from n = 3); circle: n = 2..64"]
    ck.stubs += ["cosines and sines of the circle points are their double values (relative 1e-15)"]
    jobs = [(fast, n) for n in range(3, N + 1)]
    jobs += [(fast_long, i) for i in range(4)]
    jobs += [(reorder, n) for n in (2, 3, 4)] + [(reorder, 5, p) for p in ((0, 1, 2, 3, 4), (2, 4, 0, 3, 1))] + [(reorder_c,)]
    jobs += [(reorder_long, n, i) for n in (8, 12, 17, 24) for i in range(3)]
    jobs += [(ellipse, n) for n in list(range(2, 18)) + [32, 33, 64]]
    jobs += [(circle, n) for n in (2, 3, 4, 5, 8, 9, 16, 31, 32, 64)]
    ck.jobs(jobs, limit=200)
    if ck.first:
        for i, (a, b) in enumerate([(-1.0, 0.0), (-2.0, 2.0), (-8.0, 0.0), (0.0, 0.3)]):
            b_, msg = replay({"fn": "fast", "n": 40, "a": a, "b": b})
            ck.validate(f"fast/{i}", (not b_) or bool(ck.violations), msg)


def call_fast(n, a, b):
    with common.patched([(np, ObjNp())]):
        return ml.gen_leja_fast(a, b, n)


def fast_bad(z, n, a, b, lim=None):
    """negation of: starts with an end, the other end and the middle; then always the best midpoint of two neighbours"""
    bad = [scal.bor(scal.band(scal.bnot(scal.eq(z[0], a)), scal.bnot(scal.eq(z[0], b))), scal.lt(scal.absv(z[0]), scal.absv(z[1]))),
           scal.bnot(scal.eq(scal.add(z[0], z[1]), scal.add(a, b))), scal.bnot(scal.eq(scal.mul(2, z[2]), scal.add(a, b)))]
    return bad


def fast(ck, lab, n):
    a, w = V("a"), V("w")            # interval [a, a+w]
    b = scal.add(a, w)
    case = lambda env: {"fn": "fast", "n": max(n, 8), "a": float(env.get("a", -1)), "b": float(env.get("a", -1)) + max(1e-3, float(env.get("w", 1)))}

    def go():
        scal.PATH.assume(scal.lt(0, w))
        return list(call_fast(n, a, b))
    for pi, (st, z, conds, _) in enumerate(scal.explore(go)):
        l = f"{lab}/path{pi}"
        if st != "ok":
            ck.problems.append(f"{l}: cut ({z})")
            continue
        if len(z) != n:
            ck.direct(l, case({}))
            continue
        bad = fast_bad(z, n, a, b)
        # position of each point in units of w, exact on this path
        u = [scal.expand(scal.mul(scal.sub(x, a), scal.power(w, -1)), frozenset(["w"])) for x in z]
        if not all(scal.is_const(x) for x in u):
            bad += [scal.bnot(scal.le(a, x)) for x in z] + [scal.bnot(scal.le(x, b)) for x in z]
            ck.problems.append(f"{l}: points are not fixed positions of the interval")
        else:
            for i in range(3, n):
                srt = sorted(u[:i])
                mids = [(p + q) / 2 for p, q in zip(srt, srt[1:])]
                if u[i] not in mids:
                    bad.append(True)
                    continue
                for m in mids:
                    c = scal.add(a, scal.mul(m, w))
                    bad.append(scal.lt(dist(z[i], z[:i]), dist(c, z[:i])))
        ck.prove(l, [q for q in bad if q is not False], conds, case, reach=pi < 2)


SHAPES = [(F(-1), F(1)), (F(-1), F(0)), (F(0), F(1)), (F(-3), F(1))]


def fast_long(ck, lab, i):
    """30 points on every interval of one proportion [p s, q s]: greedy choices up to rounding"""
    p, q = SHAPES[i]
    s = V("s")
    n = 30 if not ck.thorough else 60
    case = lambda env: {"fn": "fast", "n": n, "a": float(p * F(env.get("s", 1))), "b": float(q * F(env.get("s", 1)))}

    def go():
        scal.PATH.assume(scal.lt(0, s))
        return list(call_fast(n, scal.mul(p, s), scal.mul(q, s)))
    for pi, (st, z, conds, _) in enumerate(scal.explore(go)):
        l = f"{lab}/path{pi}"
        if st != "ok":
            ck.problems.append(f"{l}: cut ({z})")
            continue
        u = [scal.expand(scal.mul(x, scal.power(s, -1)), frozenset(["s"])) for x in z]
        bad = [not scal.is_const(x) for x in u]
        if not any(bad):
            for k in range(3, n):
                srt = sorted(u[:k])
                mids = [(x + y) / 2 for x, y in zip(srt, srt[1:])]
                best = max(abs(math.prod(m - y for y in u[:k])) for m in mids)
                # (s^k factors out of both sides)
                bad.append(scal.bor(u[k] not in mids, scal.lt(scal.mul(abs(math.prod(u[k] - y for y in u[:k])), s), scal.mul(best, s))))
        ck.prove(l, [b for b in bad if b is not False], conds, case)


def reorder(ck, lab, n, order=None):
    x = [V(f"x{i}") for i in range(n)]
    case = lambda env: {"fn": "reorder", "x": [[float(env.get(f"x{i}", i)), 0.0] for i in range(n)]}

    def go():
        for i in range(n):
            for j in range(i):
                if order is None:
                    scal.PATH.assume(scal.bnot(scal.eq(x[i], x[j])))
        if order is not None:
            for i, j in zip(order, order[1:]):
                scal.PATH.assume(scal.lt(x[i], x[j]))
        return list(mpoly.leja_seq_reordering(np.array(x, dtype=object)))
    for pi, (st, z, conds, _) in enumerate(scal.explore(go)):
        l = f"{lab}/path{pi}"
        if st != "ok":
            ck.problems.append(f"{l}: cut ({z})")
            continue
        if sorted(map(str, z)) != sorted(map(str, x)):
            ck.direct(l, case({}))
            continue
        bad = []
        for i in range(1, n):
            for c in z[i + 1:]:
                bad.append(scal.lt(dist(z[i], z[:i]), dist(c, z[:i])))
        ck.prove(l, [b for b in bad if b is not False], conds, case, reach=pi < 2)


def reorder_long(ck, lab, n, i):
    """many points in fixed proportions, any shift and spacing"""
    rng = np.random.RandomState(100 * i + n)
    pat = [F(int(k), 4 * n) for k in rng.permutation(8 * n)[:n]] if i else [F(k * (k + 3), n * n) for k in range(n)]
    s, t = V("s"), V("t")
    x = [scal.add(t, scal.mul(s, p)) for p in pat]

    def case(env):
        g = lambda q, d: float(env[q]) if q in env and 1e-3 < abs(float(env[q])) < 50 else d
        return {"fn": "reorder", "x": [[g("t", 0.3) + g("s", 1.7) * float(p), 0.0] for p in pat]}

    def go():
        scal.PATH.assume(scal.lt(0, s))
        return list(mpoly.leja_seq_reordering(np.array(x, dtype=object)))
    for pi, (st, z, conds, _) in enumerate(scal.explore(go)):
        l = f"{lab}/path{pi}"
        if st != "ok":
            ck.problems.append(f"{l}: cut ({z})")
            continue
        if sorted(map(str, z)) != sorted(map(str, x)):
            ck.direct(l, case({}))
            continue
        o = [pat[[str(y) for y in x].index(str(c))] for c in z]
        bad = []
        for k in range(1, n):
            a = math.prod(abs(o[k] - q) for q in o[:k])
            b = max([math.prod(abs(c - q) for q in o[:k]) for c in o[k + 1:]], default=F(0))
            bad.append(scal.lt(scal.mul(a, s), scal.mul(b, s)))      # s^k factors out of both sides
        ck.prove(l, [b for b in bad if b is not False], conds, case)


def reorder_c(ck, lab):
    """complex points h * fixed pattern, any spacing h > 0"""
    pat = [(0, 1), (2, 0), (-1, -1)]
    h = V("h")
    case = lambda env: {"fn": "reorder", "x": [[p * float(env.get("h", 1)), q * float(env.get("h", 1))] for p, q in pat]}
    # the code's complex branch needs numpy's complex order: run it on fixed complex numbers and state the greedy rule for every h
    z = mpoly.leja_seq_reordering(np.array([complex(*p) for p in pat]))
    if sorted(z, key=lambda v: (v.real, v.imag)) != sorted([complex(*p) for p in pat], key=lambda v: (v.real, v.imag)):
        ck.direct(lab, case({}))
        return
    d2 = lambda u, v: scal.mul(F((u - v).real) ** 2 + F((u - v).imag) ** 2, scal.mul(h, h))
    bad = [scal.lt(prod([d2(z[i], y) for y in z[:i]]), prod([d2(c, y) for y in z[:i]])) for i in (1, 2) for c in z[i + 1:]]
    ck.prove(lab, [b for b in bad if b is not False], [scal.lt(0, h)], case)


def ellipse(ck, lab, n):
    a, w, c = V("a"), V("w"), V("c")
    b = scal.add(a, w)
    def case(env):
        g = lambda k, d: float(env.get(k, d))
        return {"fn": "ellipse", "n": n, "a": g("a", -1), "b": g("a", -1) + g("w", 2), "c": g("c", 1)}

    def go():
        scal.PATH.assume(scal.le(0, w))
        scal.PATH.assume(scal.le(0, c))
        scal.PATH.assume(scal.lt(0, scal.add(w, c)))
        if n < 3:                       # the imaginary branch needs 3 points
            scal.PATH.assume(scal.le(c, w))
        return ml.gen_leja_conjugate(n, a, b, c)
    for pi, (st, out, conds, _) in enumerate(scal.explore(go)):
        l = f"{lab}/path{pi}"
        if st != "ok":
            ck.problems.append(f"{l}: cut ({out})")
            continue
        zt, nr, scale, shift = out
        zt = list(np.asarray(zt, dtype=object))
        if len(zt) != n or not 1 <= int(nr) <= n:
            ck.direct(l, case({}))
            continue
        nr = int(nr)
        tol = scal.mul(F(1, 10**12), scal.add(w, c))
        X = [scal.add(shift, scal.mul(scale, z)) for z in zt]
        re, im = [scal.expand(scal.cre(x)) for x in X], [scal.expand(scal.cim(x)) for x in X]
        mid = scal.add(a, scal.mul(F(1, 2), w))
        far = lambda u, v: scal.lt(tol, scal.absv(scal.sub(u, v)))
        bad = [scal.le(scale, 0), far(shift, mid), far(scal.mul(4, scale), scal.add(w, scal.mul(2, c)))]        # scale: the ellipse's capacity
        # inside the box, and (scaled) inside the ellipse
        for r, i in zip(re, im):
            bad += [scal.lt(r, scal.sub(a, tol)), scal.lt(scal.add(b, tol), r), scal.lt(scal.add(c, tol), scal.absv(i))]
        # first nr real, then conjugate pairs
        bad += [far(im[k], 0) for k in range(nr)]
        for k in range(nr, n - 1, 2):
            bad += [far(re[k], re[k + 1]), far(im[k], scal.mul(-1, im[k + 1])), scal.le(scal.absv(im[k]), 0)]
        # spread: the region's extremes are among the first points
        if nr == 2 or nr == n:
            bad += [far(re[0], b), far(re[1], a)]
        if n > 3 and nr != n:
            bad += [scal.lt(scal.absv(im[nr if nr > 1 else 1]), scal.sub(c, tol))]
        # all different, and on the ellipse (in units of the half axes)
        kind = "re" if nr == n else ("im" if nr == 1 else "el")
        U = []
        for r, i in zip(re, im):
            if kind == "re":
                U.append((scal.expand(scal.mul(scal.sub(r, mid), scal.power(w, -1)), frozenset(["w"])), F(0)))
            elif kind == "im":
                U.append((F(0), scal.expand(scal.mul(i, scal.power(c, -1)), frozenset(["c"]))))
            else:
                U.append((scal.expand(scal.mul(scal.sub(r, mid), scal.power(w, -1)), frozenset(["w"])), scal.expand(scal.mul(i, scal.power(c, -1)), frozenset(["c"]))))
        for j in range(n):
            for k in range(j):
                dx, dy = scal.sub(U[j][0], U[k][0]), scal.sub(U[j][1], U[k][1])
                bad.append(scal.lt(scal.add(scal.mul(dx, dx), scal.mul(dy, dy)), F(1, 4 * n**4)))
        if kind == "el":
            for x, y in U:
                e = scal.sub(scal.add(scal.mul(4, scal.mul(x, x)), scal.mul(y, y)), 1)
                bad.append(scal.lt(F(1, 10**10), scal.absv(e)))
            if n & (n - 1) == 0:
                bad += roots_bad([(scal.mul(2, x), y) for x, y in U], n)
        ck.prove(l, [q for q in bad if q is not False], conds, case)


def roots_bad(U, n):
    """the first n = 2^k points are the n-th roots of unity, and each half is too"""
    bad = []
    m = 2
    while m <= n:
        got = set()
        for x, y in U[:m]:
            if not (scal.is_const(x) and scal.is_const(y)):
                return [True]
            t = math.atan2(float(y), float(x)) / (2 * math.pi) * m
            if abs(t - round(t)) > 1e-6:
                return [True]
            got.add(round(t) % m)
        if len(got) != m:
            return [True]
        m *= 2
    return bad


def circle(ck, lab, n):
    for conj in (False, True):
        b, msg = replay({"fn": "circle", "n": n, "conj": conj})
        ck.validate(f"{lab}/{conj}", (not b) or bool(ck.direct(f"{lab}/{conj}", {"fn": "circle", "n": n, "conj": conj}) is False), msg)


def replay(case):
    fn = case["fn"]
    try:
        if fn == "fast":
            n, a, b = case["n"], case["a"], case["b"]
            if not b - a > 1e-6 * max(1.0, abs(a), abs(b)):
                return False, "interval too short for a numerical comparison"
            z = np.asarray(ml.gen_leja_fast(a, b, n))
            if z.shape != (n,) or not np.allclose(sorted(z[:2]), [a, b]) or abs(z[0]) < abs(z[1]) or not np.isclose(z[2], (a + b) / 2, atol=1e-12 * (b - a)):
                return True, f"gen_leja_fast({a},{b},{n}) starts {z[:3].tolist()}"
            u = (z - a) / (b - a)
            for k in range(3, n):
                s = np.sort(u[:k])
                m = (s[1:] + s[:-1]) / 2
                d = np.array([np.sum(np.log(np.abs(x - u[:k]) + 1e-300)) for x in m])
                dk = np.sum(np.log(np.abs(u[k] - u[:k]) + 1e-300))
                if np.min(np.abs(m - u[k])) > 1e-9 or dk < np.max(d) - 1e-6:
                    return True, f"gen_leja_fast({a},{b},{n}): point {k} is {z[k]}, the best midpoint is {a + (b - a) * m[np.argmax(d)]}"
            return False, "holds"
        if fn == "reorder":
            x = np.array([complex(*v) for v in case["x"]])
            if np.all(x.imag == 0):
                x = x.real
            z = mpoly.leja_seq_reordering(x)
            key = lambda v: (v.real, v.imag)
            if sorted(z.tolist(), key=lambda v: key(complex(v))) != sorted(x.tolist(), key=lambda v: key(complex(v))):
                return True, f"leja_seq_reordering({x.tolist()}) = {z.tolist()}"
            for i in range(1, len(z)):
                d = [np.prod(np.abs(c - z[:i])) for c in z[i:]]
                if d[0] < max(d) * (1 - 1e-9):
                    return True, f"leja_seq_reordering({x.tolist()}) = {z.tolist()}: point {i} is not the farthest"
            return False, "holds"
        if fn == "circle":
            n, conj = case["n"], case["conj"]
            z = np.asarray(ml.gen_leja_circle(n, conj))
            m = 1 << (n.bit_length() - 1)
            bad = z.shape != (n,) or np.max(np.abs(np.abs(z) - 1)) > 1e-12 or roots_bad([(v.real, v.imag) for v in z[:m]], m)
            bad = bad or len(set(np.round(z, 9).tolist())) != n
            if conj:
                bad = bad or any(abs(z[k] - np.conj(z[k + 1])) > 1e-12 for k in range(2, n - 1, 2))
            else:       # each block of 2^k points is the previous ones times one root
                k = 2
                while k < n:
                    r = z[k:min(2 * k, n)] / z[:min(2 * k, n) - k]
                    bad = bad or np.max(np.abs(r - r[0])) > 1e-9
                    k *= 2
            return bool(bad), f"gen_leja_circle({n}, conjugate={conj}) = {z.tolist()[:9]}..."
        n, a, b, c = case["n"], case["a"], case["b"], case["c"]
        big = max(b - a, c)
        if big <= 0:
            return False, "empty box"
        zt, nr, scale, shift = ml.gen_leja_conjugate(n, a, b, c)
        x = shift + scale * np.asarray(zt)
        tol = 1e-9 * (big + abs(a))
        what = f"gen_leja_conjugate({n},{a},{b},{c}) = points {x.tolist()[:6]}..., n_real={nr}"
        bad = len(x) != n or scale <= 0 or abs(shift - (a + b) / 2) > tol or abs(scale - (b - a) / 4 - c / 2) > tol
        bad = bad or np.min(x.real) < a - tol or np.max(x.real) > b + tol or np.max(np.abs(np.imag(x))) > c + tol
        bad = bad or np.max(np.abs(np.imag(x[:nr]))) > tol
        bad = bad or any(abs(x[k] - np.conj(x[k + 1])) > tol or abs(np.imag(x[k])) <= 0 for k in range(nr, n - 1, 2))
        if nr in (2, n):
            bad = bad or abs(x[0] - b) > tol or abs(x[1] - a) > tol
        if n > 3 and nr != n:
            bad = bad or abs(np.imag(x[nr if nr > 1 else 1])) < c - tol
        u = (np.real(x) - (a + b) / 2) / (b - a) if nr != 1 else np.zeros(n)
        v = np.imag(x) / c if nr != n else np.zeros(n)
        p = u + 1j * v
        bad = bad or min(abs(p[i] - p[j]) for i in range(n) for j in range(i)) < 0.4 / n**2
        if nr == 2 and n > 2:
            bad = bad or np.max(np.abs(4 * u**2 + v**2 - 1)) > 1e-6
            if n & (n - 1) == 0:
                bad = bad or bool(roots_bad([(2 * r, s) for r, s in zip(u, v)], n))
        return bool(bad), what
    except Exception as e:
        return True, f"{case} raised {type(e).__name__}: {e}"
