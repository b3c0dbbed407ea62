"""P21: species source terms conserve what they move, follow their rate laws, and enter the transport systems at the right species and place."""
import math, os, shutil, tempfile
import numpy as np
import jax.numpy as jnp
import equinox as eqx
from fractions import Fraction as F
from vf import scal, jsym, common, ode
from vf.jsym import sym, vals
import ormatex_py.progression.species_source_sink as sk
import ormatex_py.progression.bateman_nonlin_sys as nb
import ormatex_py.ode_utils as ou
from checks.p17 import mat, vec, mv, diff
from checks.p20 import Assembler, near, clip

_cwd, _tmp = os.getcwd(), tempfile.mkdtemp()
os.chdir(_tmp)                  # these modules create a directory when imported
try:
    import ormatex_py.progression.rad_1d_2s as r2
    import ormatex_py.progression.rad_1d_3s as r3
    import ormatex_py.progression.rad_1d_9s as r9
finally:
    os.chdir(_cwd)
    shutil.rmtree(_tmp, ignore_errors=True)

V = scal.var
SHARDS = 8
MODS = {"2s": r2, "3s": r3, "9s": r9}
KEYS = {"2s": ["u_0", "u_1"], "3s": list(r3.keymap), "9s": list(r9.keymap)}
# liquid/vapor pairs: (dissolved, vapor, transfer coefficient)
PAIRS = {"2s": [("u_0", "u_1", F(2))], "3s": [], "9s": [("xe_135_a", "xe_135_v", F(10000)), ("cs_135_a", "cs_135_v", F(900))]}
TINY = scal.rat(1e-16)
add, sub, mul, div, lt = scal.add, scal.sub, scal.mul, scal.div, scal.lt


def run(ck):
    ck.bounds += ["rate laws: every concentration >= 0 (any sign where the law has no root), every coefficient; reaction orders 1, 2, 3, 1/2 and their combinations",
                  "bubble model: alpha_g in (0,1), cell volume, bubble density, temperature > 0",
                  "transport systems: every 2x2 (9 species) or 3x3 stiffness matrix, every positive lumped mass, every state with |u| <= 1 (tolerance 1e-9), Dirichlet set {} / {0} / {last}; 9 species: fixed points inside and outside the reactor and the off-gas system",
                  "stack_u / flatten_u: 1..4 points times 1..4 species"]
    ck.stubs += ["AdDiffSEM.assemble: any matrices (P22)", "cube root: the non-negative number whose cube is the argument; exp: uninterpreted"]
    jobs = [(lin,), (nonlin,), (area,), (bubble,), (sorption,)] + [(arrh, a, b) for a in (1.0, 2.0, 3.0, 0.5) for b in (1.0, 2.0, 0.5)]
    jobs += [(exchange,), (tank, False), (tank, True), (layout,), (poly,)]
    for m in MODS:
        for D in ((), (0,), (-1,)):
            jobs.append((rad, m, D))
        jobs.append((split, m))
    jobs += [(conserve, m) for m in MODS]
    ck.jobs(jobs, limit=250)


def paths(ck, lab, go, case, validate=True):
    common.paths(ck, lab, go, case, replay, validate)


def call(f, *a, **k):
    w = lambda x: sym(x) if isinstance(x, (scal.E, F)) else x
    return vals(f(*[w(x) for x in a], **{q: w(x) for q, x in k.items()})).reshape(-1)


def positive(*xs):
    for x in xs:
        scal.PATH.assume(lt(0, x))


def env_case(fn, default, **extra):
    return lambda env: {"fn": fn, **extra, "env": {k: float(env.get(k, d)) for k, d in default.items()}}


def prod(*xs):
    r = F(1)
    for x in xs:
        r = mul(r, x)
    return r


# ---- rate laws --------------------------------------------------------------------
D_LIN = {"ua": 0.3, "ug": 0.7, "k": 1.5, "kg": 2.0, "ka": 0.5, "a": 3.0}


def lin(ck, lab):
    ua, ug, k, kg, ka, a = (V(x) for x in D_LIN)

    def go():
        with jsym.symbolic(), ode.quiet():
            g = call(sk.mxf_liq_vapor_lin, ua, ug, k=k, k_g=kg, k_a=ka, a=a)
            g2 = call(sk.mxf_liq_vapor_lin, ua, ug)
        return diff(g, [prod(k, a, sub(mul(kg, ug), mul(ka, ua)))], "") + diff(g2, [mul(F(1, 100), sub(ug, ua))], "")
    paths(ck, lab, go, env_case("lin", D_LIN))


D_NON = {"ua": 0.3, "ug": 0.7, "k": 1.5, "kg": 2.0, "ka": 0.5, "ks": 0.25}


def nonlin(ck, lab):
    """k (u_g^(2/3) + k_s)(k_g u_g - k_a u_a), the area clipped at 1e-16"""
    ua, ug, k, kg, ka, ks = (V(x) for x in D_NON)

    def go():
        P = scal.PATH
        with jsym.symbolic(), ode.quiet():
            g = call(sk.mxf_liq_vapor_nonlin, ua, ug, k=k, k_g=kg, k_a=ka, k_s=ks)[0]
        m = TINY if P.decide(lt(ug, TINY)) else ug
        drive = sub(mul(kg, ug), mul(ka, ua))
        # any s >= 0 with s^3 = m^2 is the 2/3 power
        s = V("s")
        P.assume(scal.le(0, s))
        P.assume(scal.eq(scal.power(s, 3), scal.power(m, 2)))
        w = prod(k, add(s, ks), drive)
        # compare through the cube: g = k drive (r + k_s) with r = s
        return [scal.bnot(scal.eq(g, w))]
    paths(ck, lab, go, env_case("nonlin", D_NON))


D_AREA = {"ug": 0.02, "cvol": 3.0, "al": 0.1, "nb": 5.0, "ak": 0.2, "T": 800.0, "P": 90000.0}


def volume(ug, cvol, al, nb, ak, T, P):
    """volume of one bubble: its share of the carrier gas plus a_k times the ideal gas volume of the species"""
    return div(add(mul(cvol, al), mul(ak, div(prod(cvol, ug, F(83145, 10000), T), mul(P, scal.rat(1e-6))))), nb)


def area(ck, lab):
    ug, cvol, al, nbb, ak, T, P = (V(x) for x in D_AREA)
    PI = scal.rat(math.pi)

    def go():
        positive(cvol, al, nbb, T, P)
        scal.PATH.assume(scal.le(0, ug))
        scal.PATH.assume(scal.le(0, ak))
        with jsym.symbolic(), ode.quiet():
            g = call(sk.bubble_surface_area, ug, cvol, alpha_g=al, nb=nbb, a_k=ak, T=T, P=P)[0]
        X = div(mul(F(3, 4), volume(ug, cvol, al, nbb, ak, T, P)), PI)
        # nb spheres of radius r, r^3 = X: area = nb 4 pi r^2
        r = V("r")
        scal.PATH.assume(scal.le(0, r))
        scal.PATH.assume(scal.eq(scal.power(r, 3), X))
        return [scal.bnot(scal.eq(g, prod(nbb, 4, PI, r, r)))]
    paths(ck, lab, go, env_case("area", D_AREA))


D_BUB = {"ua": 0.3, "ug": 0.02, "cvol": 3.0, "al": 0.1, "k": 1.5, "h": 2e-4, "nb": 5.0, "T": 800.0}


def bubble(ck, lab):
    """rate = k a_b (u_g/alpha h R T - u_a/(1-alpha)), a_b the bubble area at the same conditions"""
    ua, ug, cvol, al, k, h, nbb, T = (V(x) for x in D_BUB)

    def go():
        positive(cvol, al, nbb, T)
        scal.PATH.assume(scal.le(0, ug))
        scal.PATH.assume(lt(al, 1))
        with jsym.symbolic(), ode.quiet():
            g = call(sk.mxf_liq_vapor_bubble_ig, ua, ug, cvol, alpha_g=al, k=k, h=h, nb=nbb, T=T)[0]
            ab = call(sk.bubble_surface_area, ug, cvol, alpha_g=al, nb=nbb, T=T)[0]
        drive = sub(prod(div(ug, al), h, F(83145, 10000), T), div(ua, sub(1, al)))
        return [scal.bnot(scal.eq(g, prod(k, ab, drive)))]
    paths(ck, lab, go, env_case("bubble", D_BUB))


D_SORP = {"ua": 0.3, "us": 0.2, "al": 0.4, "k": 1.5, "a": 2.0}


def sorption(ck, lab):
    ua, us, al, k, a = (V(x) for x in D_SORP)

    def go():
        scal.PATH.assume(scal.bnot(scal.eq(al, 0)))
        with jsym.symbolic(), ode.quiet():
            g = call(sk.mxf_diffusion_sorption, ua, us, al, k=k, a=a)
        return diff(g, [prod(-1, k, a, sub(ua, div(us, al)))], "")
    paths(ck, lab, go, env_case("sorption", D_SORP))


D_ARR = {"ua": 0.3, "ub": 0.7, "e": 1e4, "pre": 3.0, "T": 700.0}


def arrh(ck, lab, ma, mb):
    ua, ub, e, pre, T = (V(x) for x in D_ARR)

    def go():
        positive(ua, ub, T)
        with jsym.symbolic(), ode.quiet():
            g = call(sk.mxf_arrhenius, ua, ub, e, pre, m_a=ma, m_b=mb, T=T)[0]
        x = V("x")      # exp(-e/(R T))
        rate = prod(scal.power(ua, scal.rat(ma)), scal.power(ub, scal.rat(mb)), pre, scal.exp(div(mul(-1, e), mul(F(83145, 10000), T))))
        return [scal.bnot(scal.eq(g, rate))]
    paths(ck, lab, go, env_case("arrh", D_ARR, ma=ma, mb=mb))


# ---- tank model ---------------------------------------------------------------------
def exchange(ck, lab):
    """srcf_xe_av moves what it takes: zero everywhere but at the two species, opposite there"""
    n = 4
    u, tv, al = vec("u", n), V("tv"), V("al")
    for ia in range(n):
        for ig in range(n):
            if ia == ig:
                continue

            def go():
                positive(tv, al)
                scal.PATH.assume(lt(al, 1))
                scal.PATH.assume(scal.le(0, u[ig]))
                with jsym.symbolic(), ode.quiet():
                    g = vals(nb.srcf_xe_av(sym(u), ia, ig, alpha_g=sym(al), tank_vol=sym(tv)))
                    s = call(sk.mxf_liq_vapor_bubble_ig, u[ia], u[ig], tv, alpha_g=al, k=1e-2)[0]
                w = [s if i == ia else mul(-1, s) if i == ig else F(0) for i in range(n)]
                return diff(g, w, "")
            case = lambda env, ia=ia, ig=ig: {"fn": "exchange", "ia": ia, "ig": ig, "u": [float(env.get(f"u{i}", 0.1 + 0.2 * i)) for i in range(n)], "tv": float(env.get("tv", 20.0)), "al": float(env.get("al", 0.1))}
            paths(ck, f"{lab}{ia}{ig}", go, case, validate=ia == 0 and ig == 2)


def chain_matrix(keys, lib):
    """rate of change per unit concentration: each branch removes from the parent and feeds its child"""
    M = [[F(0)] * len(keys) for _ in keys]
    for j, k in enumerate(keys):
        e = lib[k]
        for child, rate in (e if isinstance(e[0], tuple) else (e,)):
            M[j][j] -= scal.rat(float(rate))
            if child != "none":
                M[keys.index(child)][j] += scal.rat(float(rate))
    return M


def tank(ck, lab, vol):
    """NonlinearBateman: decay + capture + fission yields + liquid/vapor exchange in its own tank"""
    keys = list(nb.keymap)
    n = len(keys)
    u, phi, tv = vec("u", n), V("phi"), V("tv")
    ia, ig = keys.index("xe_135_a"), keys.index("xe_135_v")

    def go():
        P = scal.PATH
        for x in u:
            P.assume(scal.le(0, x))
            P.assume(scal.le(x, 1))
        P.assume(scal.le(scal.absv(phi), 10))
        positive(tv)
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = nb.NonlinearBateman(n_phi=sym(phi), **({"tank_vol": sym(tv)} if vol else {}))
            f = vals(s.frhs(sym(V("t")), sym(u)))
            x = call(sk.mxf_liq_vapor_bubble_ig, u[ia], u[ig], tv if vol else 100.0, alpha_g=0.05, k=1e-2)[0]
            L = vals(s.fl(sym(V("t")), sym(u)).dense())
        B = chain_matrix(keys, nb.decay_lib)
        w = []
        for i, k in enumerate(keys):
            r = F(0)
            for j in range(n):
                r = add(r, mul(B[i][j], u[j]))
            r = add(r, mul(phi, mul(scal.rat(-abs(float(nb.transmute_lib[k][1]))), u[i])))
            r = add(r, mul(phi, scal.rat(abs(float(nb.fission_lib[k][1])))))
            w.append(add(r, x) if i == ia else sub(r, x) if i == ig else r)
        bad = [lt(F(1, 10**10), scal.absv(scal.expand(sub(a, b)))) for a, b in zip(f, w)]
        bad += [True for i in range(n) for j in range(n) if abs(L[i, j] - B[i][j]) > F(1, 10**14)]
        return [b for b in bad if b is not False]
    case = lambda env: {"fn": "tank", "vol": vol, "u": [float(env.get(f"u{i}", 0.1 * (i + 1))) for i in range(n)], "phi": float(env.get("phi", 3.0)), "tv": float(env.get("tv", 20.0))}
    paths(ck, lab, go, case)


# ---- transport systems -------------------------------------------------------------------
def layout(ck, lab):
    """flat vectors are species-major, and stacking and flattening are inverse"""
    for nm, st, fl in (("utils", ou.stack_u, ou.flatten_u), ("2s", r2.stack_u, r2.flatten_u)):
        for nx in (1, 2, 3, 4):
            for n in (1, 2, 3, 4):
                u = vec("u", nx * n)
                with jsym.symbolic():
                    U = st(sym(u), n)
                    g, back = vals(U), vals(fl(U))
                w = np.array([[u[s * nx + x] for s in range(n)] for x in range(nx)], dtype=object)
                ck.prove(f"{lab}{nm}/{nx}x{n}", diff(g, w, "") + diff(back, u, ""), [], lambda env, nm=nm, nx=nx, n=n: {"fn": "layout", "nm": nm, "nx": nx, "n": n})


def poly(ck, lab):
    """2 species: the polynomial source takes |u0^3|/2 from the first and gives it to the last"""
    nx = 2
    U = np.array([[V(f"u{x}{s}") for s in range(2)] for x in range(nx)], dtype=object)

    def go():
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = r2.RAD_SEM(assembler(nx, (), "2s")[0])
            g = vals(s._source_poly(sym(U)))
        w = np.empty((nx, 2), dtype=object)
        for x in range(nx):
            c = mul(F(1, 2), scal.absv(scal.power(U[x, 0], 3)))
            w[x, 0], w[x, 1] = mul(-1, c), c
        return diff(g, w, "")
    paths(ck, lab, go, lambda env: {"fn": "poly", "U": [[float(env.get(f"u{x}{s}", 0.5 - x)) for s in range(2)] for x in range(nx)]})


XS = {2: [0.25, 4.0], 3: [0.25, 2.0, 4.0]}


def assembler(nx, D, m, periodic=False):
    A, M = mat("a", nx, nx), vec("m", nx)
    if periodic:        # conservative transport: columns of A add up to zero
        for j in range(nx):
            t = F(0)
            for i in range(nx - 1):
                t = sub(t, A[i, j])
            A[nx - 1, j] = t
    xs = np.array(XS[nx])
    return Assembler(A, M, vec("b", nx), np.array([d % nx for d in D], dtype=int) if D else None, xs), A, M


def reaction(m, U, x, xs):
    """source of every species at point x (exact up to rounding of the constants)"""
    keys, mod = KEYS[m], MODS[m]
    n = len(keys)
    B = chain_matrix(keys, mod.decay_lib)
    out = []
    for i in range(n):
        r = F(0)
        for j in range(n):
            r = add(r, mul(B[i][j], U[x, j]))
        out.append(r)
    for la, va, k in PAIRS[m]:
        a, g = keys.index(la), keys.index(va)
        ug = U[x, g]
        c = scal.power(scal.smax(ug, TINY), F(2, 3))
        s = prod(k, add(c, scal.rat(1e-12)), sub(ug, U[x, a]))
        out[a], out[g] = add(out[a], s), sub(out[g], s)
    if m == "9s":
        p = float(xs[x])
        flux = scal.rat(math.cos(math.pi * (p - 0.5))) if 0 <= p <= 1 else F(0)
        for i, k in enumerate(keys):
            out[i] = add(out[i], mul(flux, add(scal.rat(abs(float(r9.fission_lib[k][1]))), mul(scal.rat(-abs(float(r9.transmute_lib[k][1]))), U[x, i]))))
        prof = (math.tanh((p - 3.8) * 10) * -math.tanh((p - 4.2) * 10)) / 2 + 0.5
        for k in ("xe_135_v", "cs_135_v"):
            i = keys.index(k)
            out[i] = sub(out[i], mul(scal.rat(0.16 * prof), U[x, i]))
    return out


def system(m, asm):
    with ode.quiet(), common.patched([(np, ode.NPP)]):
        return MODS[m].RAD_SEM(asm)


def state(m, nx):
    n = len(KEYS[m])
    return np.array([[V(f"u{x}_{s}") for s in range(n)] for x in range(nx)], dtype=object), n


def rad_case(fn, m, nx, D):
    n = len(KEYS[m])
    return lambda env: {"fn": fn, "m": m, "nx": nx, "D": list(D), "A": [[float(env.get(f"a{i}{j}", 1 + i - 2 * j)) for j in range(nx)] for i in range(nx)], "M": [float(env.get(f"m{i}", 1 + 0.5 * i)) for i in range(nx)],
                        "U": [[float(env.get(f"u{x}_{s}", 0.1 + 0.05 * s + 0.2 * x)) for s in range(n)] for x in range(nx)]}


def rad(ck, lab, m, D):
    nx = 2 if m == "9s" else 3
    U, n = state(m, nx)
    asm, A, M = assembler(nx, D, m)
    dset = {d % nx for d in D}

    def go():
        P = scal.PATH
        for x in M:
            P.assume(scal.le(F(1, 100), x))
        for x in U.reshape(-1):
            P.assume(scal.le(0, x))
            P.assume(scal.le(x, 1))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = MODS[m].RAD_SEM(asm)
            f = vals(s.frhs(sym(V("t")), sym(U.T.reshape(-1))))
        bad = []
        if f.shape != (nx * n,):
            return [True]
        for x in range(nx):
            src = reaction(m, U, x, XS[nx])
            for k in range(n):
                g = f[k * nx + x]
                if x in dset:
                    bad += diff([g], [F(0)], "")
                    continue
                t = F(0)
                for y in range(nx):
                    t = add(t, mul(A[x, y], U[y, k]))
                w = sub(src[k], div(t, M[x]))
                bad.append(lt(F(1, 10**9), scal.absv(scal.expand(sub(g, w)))))
        return [b for b in bad if b is not False]
    paths(ck, lab, go, rad_case("rad", m, nx, D))


def split(ck, lab, m):
    """the linear part is the transport operator of every species"""
    nx = 2 if m == "9s" else 3
    U, n = state(m, nx)
    asm, A, M = assembler(nx, (), m)

    def go():
        for x in M:
            scal.PATH.assume(lt(0, x))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = MODS[m].RAD_SEM(asm)
            L = vals(s.fl(sym(V("t")), sym(U.T.reshape(-1))).dense())
        w = np.empty((nx * n, nx * n), dtype=object)
        w[...] = F(0)
        for k in range(n):
            for i in range(nx):
                for j in range(nx):
                    w[k * nx + i, k * nx + j] = div(mul(-1, A[i, j]), M[i])
        return diff(L, w, "")
    paths(ck, lab, go, rad_case("split", m, nx, ()))


LOSS = {"2s": {"u_1": 0.03}, "3s": {"c_2": 0.01}}


def conserve(ck, lab, m):
    """conservative transport (columns of A add up to zero): the total inventory changes only by decay out of the chain, fission, capture and off-gas"""
    nx = 2 if m == "9s" else 3
    U, n = state(m, nx)
    asm, A, M = assembler(nx, (), m, periodic=True)
    keys = KEYS[m]

    def go():
        P = scal.PATH
        for x in M:
            P.assume(scal.le(F(1, 100), x))
            P.assume(scal.le(x, 10))
        for x in U.reshape(-1):
            P.assume(scal.le(0, x))
            P.assume(scal.le(x, 1))
        with jsym.symbolic(), ode.quiet(), common.patched([(np, ode.NPP)]):
            s = MODS[m].RAD_SEM(asm)
            f = vals(s.frhs(sym(V("t")), sym(U.T.reshape(-1))))
        tot = F(0)
        for x in range(nx):
            for k in range(n):
                tot = add(tot, mul(M[x], f[k * nx + x]))
                e = MODS[m].decay_lib[keys[k]]
                for child, rate in (e if isinstance(e[0], tuple) else (e,)):
                    if child == "none":
                        tot = add(tot, prod(M[x], scal.rat(float(rate)), U[x, k]))
                if m == "9s":
                    # what the reactor makes and captures and the off-gas system removes
                    src = reaction(m, U, x, XS[nx])
                    own = chain_part(m, U, x, k)
                    tot = sub(tot, mul(M[x], sub(src[k], own)))
        return [b for b in [lt(F(1, 10**8), scal.absv(scal.expand(tot)))] if b is not False]

    def chain_part(m, U, x, k):
        """decay and exchange only"""
        r = F(0)
        B = chain_matrix(keys, MODS[m].decay_lib)
        for j in range(n):
            r = add(r, mul(B[k][j], U[x, j]))
        for la, va, kk in PAIRS[m]:
            a, g = keys.index(la), keys.index(va)
            ug = U[x, g]
            s = prod(kk, add(scal.power(scal.smax(ug, TINY), F(2, 3)), scal.rat(1e-12)), sub(ug, U[x, a]))
            r = add(r, s) if k == a else sub(r, s) if k == g else r
        return r
    paths(ck, lab, go, rad_case("rad", m, nx, ()), validate=False)


# ---- replay -----------------------------------------------------------------------
def replay(case):
    try:
        with ode.quiet():
            return globals()["r_" + case["fn"]](case)
    except Exception as e:
        return True, f"{case['fn']} {case.get('m', '')} raised {type(e).__name__}: {str(e)[:200]}"


def check(what, g, w, tol=1e-9):
    g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
    if g.shape != w.shape or not near(g, w, tol):
        return True, f"{what} = {g.tolist()}, expected {w.tolist()}"
    return False, "agree"


def points(case, default, pos=()):
    E = {k: clip(v, 1e6) for k, v in case["env"].items()}
    for k in pos:
        E[k] = max(E[k], 1e-3)
    for k in ("al",):
        if k in E and "cvol" in E:
            E[k] = min(E[k], 0.95)
    return (E, default)


def first(rs):
    for r in rs:
        if r[0]:
            return r
    return False, "agree"


def r_lin(case):
    return first(x for E in points(case, D_LIN) for x in (
        check(f"mxf_liq_vapor_lin {E}", sk.mxf_liq_vapor_lin(E["ua"], E["ug"], k=E["k"], k_g=E["kg"], k_a=E["ka"], a=E["a"]), E["k"] * E["a"] * (E["kg"] * E["ug"] - E["ka"] * E["ua"])),
        check(f"mxf_liq_vapor_lin({E['ua']},{E['ug']})", sk.mxf_liq_vapor_lin(E["ua"], E["ug"]), 0.01 * (E["ug"] - E["ua"]))))


def r_nonlin(case):
    return first(check(f"mxf_liq_vapor_nonlin {E}", sk.mxf_liq_vapor_nonlin(E["ua"], E["ug"], k=E["k"], k_g=E["kg"], k_a=E["ka"], k_s=E["ks"]),
                       E["k"] * (max(E["ug"], 1e-16) ** (2 / 3) + E["ks"]) * (E["kg"] * E["ug"] - E["ka"] * E["ua"])) for E in points(case, D_NON))


def f_area(ug, cvol, al, nbb, ak, T, P):
    v = (cvol * al + ak * cvol * ug / (P * 1e-6) * 8.3145 * T) / nbb
    return nbb * 4 * math.pi * (3 * v / (4 * math.pi)) ** (2 / 3)


def r_area(case):
    return first(check(f"bubble_surface_area {E}", sk.bubble_surface_area(E["ug"], E["cvol"], alpha_g=E["al"], nb=E["nb"], a_k=E["ak"], T=E["T"], P=E["P"]), f_area(*(E[k] for k in D_AREA)))
                 for E in points(case, D_AREA, ("cvol", "al", "nb", "T", "P")))


def f_bubble(ua, ug, cvol, al, k, h, nbb, T):
    return k * f_area(ug, cvol, al, nbb, 0.1, T, 101.3e3) * (ug / al * h * 8.3145 * T - ua / (1 - al))


def r_bubble(case):
    return first(check(f"mxf_liq_vapor_bubble_ig {E}", sk.mxf_liq_vapor_bubble_ig(E["ua"], E["ug"], E["cvol"], alpha_g=E["al"], k=E["k"], h=E["h"], nb=E["nb"], T=E["T"]), f_bubble(*(E[k] for k in D_BUB)))
                 for E in points(case, D_BUB, ("cvol", "al", "nb", "T")))


def r_sorption(case):
    out = []
    for E in points(case, D_SORP):
        al = E["al"] or 0.5
        out.append(check(f"mxf_diffusion_sorption {E}", sk.mxf_diffusion_sorption(E["ua"], E["us"], al, k=E["k"], a=E["a"]), -E["k"] * E["a"] * (E["ua"] - E["us"] / al)))
    return first(out)


def r_arrh(case):
    ma, mb = case["ma"], case["mb"]
    return first(check(f"mxf_arrhenius {E} orders {ma},{mb}", sk.mxf_arrhenius(E["ua"], E["ub"], E["e"], E["pre"], m_a=ma, m_b=mb, T=E["T"]), E["ua"] ** ma * E["ub"] ** mb * E["pre"] * math.exp(min(500.0, -E["e"] / (8.3145 * E["T"]))))
                 for E in points(case, D_ARR, ("ua", "ub", "T")) if -E["e"] / (8.3145 * E["T"]) < 500)


def r_exchange(case):
    ia, ig = case["ia"], case["ig"]
    out = []
    for u, tv, al in (([clip(x) for x in case["u"]], max(clip(case["tv"], 1e4), 1e-2), min(max(case["al"], 0.01), 0.95)), ([0.3, 0.2, 0.4, 0.1], 30.0, 0.2)):
        s = f_bubble(u[ia], u[ig], tv, al, 1e-2, 1e-4, 10.0, 900.0)
        w = np.zeros(4)
        w[ia], w[ig] = s, -s
        out.append(check(f"srcf_xe_av({u}, {ia}, {ig}, {al}, {tv})", nb.srcf_xe_av(jnp.asarray(u), ia, ig, alpha_g=al, tank_vol=tv), w))
    return first(out)


def r_tank(case):
    keys, out = list(nb.keymap), []
    ia, ig = keys.index("xe_135_a"), keys.index("xe_135_v")
    B = np.array(chain_matrix(keys, nb.decay_lib), dtype=float)
    for u, phi, tv in ((np.clip(case["u"], 0, 1), clip(case["phi"], 10), max(clip(case["tv"], 1e4), 1e-2)), (np.linspace(0.1, 0.9, 9), 1e9, 20.0)):
        s = nb.NonlinearBateman(n_phi=phi, **({"tank_vol": tv} if case["vol"] else {}))
        x = f_bubble(u[ia], u[ig], tv if case["vol"] else 100.0, 0.05, 1e-2, 1e-4, 10.0, 900.0)
        w = B @ u + phi * np.array([abs(nb.fission_lib[k][1]) - abs(nb.transmute_lib[k][1]) * u[i] for i, k in enumerate(keys)])
        w[ia] += x
        w[ig] -= x
        how = f"NonlinearBateman(n_phi={phi}" + (f", tank_vol={tv})" if case["vol"] else ")")
        out += [check(f"{how}: f({u.tolist()})", s.frhs(0.0, jnp.asarray(u)), w), check(f"{how}: L", s.fl(0.0, jnp.asarray(u)).dense(), B)]
    return first(out)


def r_layout(case):
    nx, n = case["nx"], case["n"]
    st, fl = (ou.stack_u, ou.flatten_u) if case["nm"] == "utils" else (r2.stack_u, r2.flatten_u)
    u = np.arange(1.0, nx * n + 1)
    U = st(jnp.asarray(u), n)
    return first([check(f"stack_u of {nx} points, {n} species", U, [[u[s * nx + x] for s in range(n)] for x in range(nx)]), check("flatten_u(stack_u)", fl(U), u)])


def r_poly(case):
    s = system("2s", Assembler(np.eye(2), np.ones(2), np.zeros(2), None, np.array(XS[2])))
    U = np.clip(np.array(case["U"]), -20, 20)
    c = 0.5 * np.abs(U[:, 0] ** 3)
    return check(f"_source_poly({U.tolist()})", s._source_poly(jnp.asarray(U)), np.stack([-c, c], 1))


def conc(case, alt):
    nx = case["nx"]
    c = case if not alt else {**case, "A": (np.arange(1.0, nx * nx + 1).reshape(nx, nx) ** 1.3 % 2 - 0.7).tolist(), "M": [0.5 + 0.4 * i for i in range(nx)],
                              "U": np.random.default_rng(1).uniform(0.1, 0.9, np.shape(case["U"])).tolist()}
    A, M, U = np.clip(np.array(c["A"]), -1e3, 1e3), np.clip(np.array(c["M"]), 1e-2, 1e3), np.clip(np.array(c["U"]), 0, 1)
    D = [d % nx for d in case["D"]]
    return A, M, U, D, system(case["m"], Assembler(A, M, np.zeros(nx), np.array(D, dtype=int) if D else None, np.array(XS[nx])))


def r_rad(case):
    m, nx, out = case["m"], case["nx"], []
    for alt in (0, 1):
        A, M, U, D, s = conc(case, alt)
        f = s.frhs(0.0, jnp.asarray(U.T.reshape(-1)))
        w = np.zeros_like(U)
        for x in range(nx):
            if x not in D:
                Q = np.array([[F(float(v)) for v in r] for r in U], dtype=object)
                w[x] = nonroot(m, Q, x) - (A @ U)[x] / M[x]
        out.append(check(f"{m} transport system, A={A.tolist()}, M={M.tolist()}, Dirichlet {D}, U={U.tolist()}: rhs", f, w.T.reshape(-1)))
    return first(out)


def nonroot(m, Q, x):
    """reaction in floats"""
    keys = KEYS[m]
    U = Q.astype(float)
    out = np.array(chain_matrix(keys, MODS[m].decay_lib), dtype=float) @ U[x]
    for la, va, k in PAIRS[m]:
        a, g = keys.index(la), keys.index(va)
        s = float(k) * (max(U[x, g], 1e-16) ** (2 / 3) + 1e-12) * (U[x, g] - U[x, a])
        out[a] += s
        out[g] -= s
    if m == "9s":
        p = XS[U.shape[0]][x]
        flux = math.cos(math.pi * (p - 0.5)) if 0 <= p <= 1 else 0.0
        out += flux * np.array([abs(r9.fission_lib[k][1]) - abs(r9.transmute_lib[k][1]) * U[x, i] for i, k in enumerate(keys)])
        prof = (math.tanh((p - 3.8) * 10) * -math.tanh((p - 4.2) * 10)) / 2 + 0.5
        for k in ("xe_135_v", "cs_135_v"):
            out[keys.index(k)] -= 0.16 * prof * U[x, keys.index(k)]
    return out


def r_split(case):
    out = []
    for alt in (0, 1):
        A, M, U, D, s = conc(case, alt)
        out.append(check(f"{case['m']} transport system, A={A.tolist()}, M={M.tolist()}: linear part", s.fl(0.0, jnp.asarray(U.T.reshape(-1))).dense(), np.kron(np.eye(len(KEYS[case['m']])), -A / M[:, None])))
    return first(out)
