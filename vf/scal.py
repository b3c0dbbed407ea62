"""Symbolic scalars: hash-consed real expressions (E), truncated power series in
the step size h (S), complex pairs (C); conversion to z3 terms.

Python `Fraction`/`int` are the exact constants.  Python floats only ever occur
as inf/nan (IEEE specials): every finite float is turned into an exact rational
by `rat`.
"""
import math
from fractions import Fraction

INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """The code under analysis left what the encoder can represent."""


# --------------------------------------------------------------------------
# rationalisation of float literals
_RAT = {}
RAT_ULPS = [4]


def rat(x, ulps=None, qmax=20000):
    """exact constant for a float.  If a fraction p/q with q<=qmax lies within
    `ulps` ulp it is used (2/3, 1/6, 0.1 ... keep their intended value), else
    the exact dyadic value of the float."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    ulps = ulps or RAT_ULPS[0]
    x = float(x)
    if x != x or x in (INF, -INF):
        return x
    r = _RAT.get(x)
    if r is None:
        f = Fraction(x)
        if f.denominator > qmax:
            g = f.limit_denominator(qmax)
            if g != 0 and abs(float(g) - x) <= ulps * math.ulp(x):
                f = g
        r = _RAT[x] = f
    return r


def is_const(x):
    return isinstance(x, (int, Fraction, float))


def is_special(x):
    return type(x) is float and (x != x or x in (INF, -INF))


# --------------------------------------------------------------------------
class Flags:
    poisoned = 0


def poison():
    """float() of a symbolic value: only good for printing.  A NaN that reaches
    a result is reported as unsupported, never as a violation."""
    Flags.poisoned += 1
    return NAN


class E:
    """hash-consed expression.  sorts: 'R' real, 'B' bool."""
    __slots__ = ("op", "args", "id", "sort", "__weakref__")
    __array_ufunc__ = None        # numpy defers to our reflected operators

    _table = {}
    _next = 0

    def __new__(cls, op, args, sort="R"):
        key = (op, args)
        e = cls._table.get(key)
        if e is None:
            e = object.__new__(cls)
            e.op, e.args, e.sort = op, args, sort
            e.id = cls._next
            cls._next += 1
            cls._table[key] = e
        return e

    def __hash__(self):
        return self.id

    def __eq__(self, o):           # structural identity (hash-consing)
        return self is o

    # arithmetic ---------------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return add(self, mul(-1, o))

    def __rsub__(self, o):
        return add(o, mul(-1, self))

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __pow__(self, n):
        return power(self, n)

    def __abs__(self):
        return absv(self)

    # numpy object-array ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return uf("log", self)

    def sin(self):
        return uf("sin", self)

    def cos(self):
        return uf("cos", self)

    def conjugate(self):
        return self

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __bool__(self):
        if self.sort == "B":
            return PATH.decide(self)
        return PATH.decide(ne(self, 0))

    def __repr__(self):
        return show(self)

    def __float__(self):
        return poison()

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)


def show(e, d=0):
    if not isinstance(e, E):
        return str(e)
    if d > 6:
        return "..."
    if e.op == "var":
        return e.args[0]
    if e.op == "+":
        c, ts = e.args
        s = " + ".join(f"{k}*{show(n, d+1)}" if k != 1 else show(n, d + 1) for n, k in ts)
        return f"({c} + {s})" if c != 0 else f"({s})"
    if e.op == "*":
        return "*".join(f"{show(n, d+1)}^{k}" if k != 1 else show(n, d + 1) for n, k in e.args)
    return f"{e.op}(" + ", ".join(show(a, d + 1) if isinstance(a, E) else str(a) for a in e.args) + ")"


def var(name, sort="R"):
    return E("var", (name,), sort)


def _terms(x):
    """x as (const, {node: coef})"""
    if isinstance(x, E):
        if x.op == "+":
            return x.args[0], x.args[1]
        return Fraction(0), ((x, Fraction(1)),)
    return x, ()


def _mk_sum(c, d):
    items = [(n, k) for n, k in d.items() if k != 0]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda t: t[0].id)
    return E("+", (Fraction(c), tuple(items)))


def _ndindex(shape):
    import itertools
    return itertools.product(*[range(n) for n in shape])


def lift_ops(cls):
    for n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__",
              "__lt__", "__le__", "__gt__", "__ge__"):
        f = cls.__dict__.get(n)
        if f is not None:
            def mk(f, n):
                def g(self, o):
                    if hasattr(o, "aval") and not isinstance(o, (E, S, C)):
                        from . import jsym
                        return getattr(jsym.sym(self), n)(o)
                    if type(o).__name__ == "ndarray":
                        r = o.astype(object)
                        for i, x in zip(list(_ndindex(o.shape)), o.astype(object).reshape(-1)):
                            r[i] = f(self, x)
                        return r
                    return f(self, o)
                return g
            setattr(cls, n, mk(f, n))


def _coerce(o):
    if isinstance(o, float):
        return rat(o)
    if isinstance(o, (E, Fraction, S, C)):
        return o
    if isinstance(o, bool):
        return Fraction(int(o))
    if isinstance(o, int):
        return Fraction(o)
    try:
        import numpy as np
        if isinstance(o, np.generic):
            return _coerce(o.item())
    except ImportError:
        pass
    if isinstance(o, complex):
        return mkc(rat(o.real), rat(o.imag))
    raise Unsupported(f"operand {type(o)}")


def add(a, b):
    a, b = _coerce(a), _coerce(b)
    if isinstance(a, C) or isinstance(b, C):
        return c_add(a, b)
    if isinstance(a, S) or isinstance(b, S):
        return s_add(a, b)
    if is_special(a) or is_special(b):
        if isinstance(a, E) or isinstance(b, E):
            s = a if is_special(a) else b
            return s
        return float(a) + float(b)
    if not isinstance(a, E) and not isinstance(b, E):
        return a + b
    ca, ta = _terms(a)
    cb, tb = _terms(b)
    d = dict(ta)
    for n, k in tb:
        d[n] = d.get(n, 0) + k
    return _mk_sum(ca + cb, d)


def sub(a, b):
    return add(a, mul(-1, b))


def _factors(x):
    """x as (coef, ((node, exp),...))"""
    if isinstance(x, E):
        if x.op == "*":
            return Fraction(1), x.args
        if x.op == "+" and x.args[0] == 0 and len(x.args[1]) == 1:
            n, k = x.args[1][0]
            if n.op == "*":
                return k, n.args
            return k, ((n, 1),)
        return Fraction(1), ((x, 1),)
    return x, ()


def mul(a, b):
    a, b = _coerce(a), _coerce(b)
    if isinstance(a, C) or isinstance(b, C):
        return c_mul(a, b)
    if isinstance(a, S) or isinstance(b, S):
        return s_mul(a, b)
    if is_special(a) or is_special(b):
        if isinstance(a, E) or isinstance(b, E):
            return NAN
        return float(a) * float(b)
    if not isinstance(a, E) and not isinstance(b, E):
        return a * b
    if not isinstance(a, E):
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        c, t = _terms(a)
        return _mk_sum(c * b, {n: k * b for n, k in t})
    ka, fa = _factors(a)
    kb, fb = _factors(b)
    d = dict(fa)
    for n, k in fb:
        d[n] = d.get(n, 0) + k
    # sqrt(x)^2 -> x
    k = ka * kb
    items = []
    extra = []
    for n, p in d.items():
        if p == 0:
            continue
        if n.op == "sqrt" and abs(p) >= 2:
            q = int(p / 2)
            extra.append((n.args[0], q))
            p = p - 2 * q
            if p == 0:
                continue
        items.append((n, p))
    if not items:
        r = k
    elif len(items) == 1 and items[0][1] == 1:
        r = mul(items[0][0], k) if k != 1 else items[0][0]
    else:
        items.sort(key=lambda t: t[0].id)
        m = E("*", tuple(items))
        r = m if k == 1 else E("+", (Fraction(0), ((m, k),)))
    for x, q in extra:
        r = mul(r, power(x, q))
    return r


class Cfg:
    div_mode = "assume"     # 'assume' (record b != 0) or 'fork'
    order = 6               # series truncation: terms kept below h^order


def div(a, b):
    a, b = _coerce(a), _coerce(b)
    if isinstance(a, C) or isinstance(b, C):
        return c_div(a, b)
    if isinstance(a, S) or isinstance(b, S):
        return s_mul(a, s_inv(b))
    if is_special(b):
        return NAN if is_special(a) or b != b else Fraction(0)
    if not isinstance(b, E):
        if b == 0:
            if isinstance(a, E):
                if Cfg.div_mode == "fork" and PATH.decide(eq(a, 0)):
                    return NAN
                return INF
            if is_special(a) or a == 0:
                return NAN
            return INF if a > 0 else -INF
        if is_special(a):
            return a if b > 0 else -a
        return mul(a, Fraction(1) / Fraction(b))
    if is_special(a):
        return NAN
    if not isinstance(a, E) and a == 0 and Cfg.div_mode == "assume":
        PATH.nonzero(b)
        return Fraction(0)
    if Cfg.div_mode == "fork":
        if PATH.decide(eq(b, 0)):
            return div(a, Fraction(0))
    else:
        PATH.nonzero(b)
    k, f = _factors(b)
    d = tuple(sorted(((n, -p) for n, p in f), key=lambda t: t[0].id))
    inv = E("*", d)
    return mul(mul(a, Fraction(1) / k), inv)


def power(a, n):
    n = _coerce(n)
    if isinstance(n, (E, S, C)) or is_special(n):
        raise Unsupported("symbolic exponent")
    if n == Fraction(1, 2):
        return sqrt(a)
    if n.denominator != 1:
        if n.denominator == 2:
            return mul(power(a, n - Fraction(1, 2)), sqrt(a))
        if n.denominator == 3 and not isinstance(_coerce(a), (S, C)):
            return power(uf("cbrt", a), n.numerator)      # for a >= 0 (the root of a negative number is left unconstrained)
        raise Unsupported(f"exponent {n}")
    n = int(n)
    if n < 0:
        return div(Fraction(1), power(a, -n))
    r = Fraction(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def absv(a):
    a = _coerce(a)
    if isinstance(a, C):
        return sqrt(add(mul(a.re, a.re), mul(a.im, a.im)))
    if isinstance(a, S):
        return a if not s_neg(a) else mul(-1, a)
    if not isinstance(a, E):
        return abs(a)
    if a.op in ("abs", "sqrt"):
        return a
    k, f = _factors(a)
    if all(p % 2 == 0 or n.op in ("abs", "sqrt") for n, p in f):
        return mul(abs(k), E("*", f)) if not (len(f) == 1 and f[0][1] == 1) else mul(abs(k), f[0][0])
    if a.op == "+" and a.args[1][0][1] < 0:      # |x| = |-x|: canonical sign
        a = mul(-1, a)
    return E("abs", (a,))


def _sqrt_const(c):
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(a):
    a = _coerce(a)
    if isinstance(a, C):
        if a.im == 0:
            return sqrt(a.re)
        raise Unsupported("complex sqrt")
    if isinstance(a, S):
        return s_sqrt(a)
    if not isinstance(a, E):
        if is_special(a):
            return a if a == INF else NAN
        if a < 0:
            return NAN
        r = _sqrt_const(Fraction(a))
        if r is not None:
            return r
        return E("sqrt", (Fraction(a),))
    k, f = _factors(a)
    r = _sqrt_const(k) if k > 0 else None
    if r is not None and f and all(p % 2 == 0 for n, p in f):
        out = r
        for n, p in f:
            out = mul(out, power(absv(n), p // 2))
        return out
    if r is not None and r != 1 and f:
        return mul(r, sqrt(div(a, k)))
    return E("sqrt", (a,))


def uf(name, a):
    a = _coerce(a)
    if isinstance(a, S):
        return s_uf(name, a)
    if isinstance(a, C):
        if a.im == 0:
            return uf(name, a.re)
        raise Unsupported("complex " + name)
    if not isinstance(a, E):
        if is_special(a):
            return getattr(math, name)(a) if name == "exp" else NAN
        table = {("exp", 0): 1, ("log", 1): 0, ("sin", 0): 0, ("cos", 0): 1, ("tanh", 0): 0, ("cbrt", 0): 0, ("cbrt", 1): 1}
        v = table.get((name, a))
        if v is not None:
            return Fraction(v)
    return E("uf", (name, a))


def ufn(name, args):
    """application of an uninterpreted real function"""
    args = tuple(_coerce(a) for a in args)
    for a in args:
        if isinstance(a, (S, C)) or is_special(a):
            raise Unsupported("non-real argument of an uninterpreted function")
    return E("ufn", (name,) + args)


def exp(a):
    a = _coerce(a)
    if isinstance(a, C):
        m = exp(a.re)
        return mkc(mul(m, uf("cos", a.im)), mul(m, uf("sin", a.im)))
    return uf("exp", a)


# ---- booleans -------------------------------------------------------------
def _cmp0(op, d):
    """op in lt/le/eq applied to d vs 0"""
    if isinstance(d, C):
        if op == "eq":
            return band(_cmp0("eq", d.re), _cmp0("eq", d.im))
        raise Unsupported("ordering complex values")
    if isinstance(d, S):
        return s_cmp0(op, d)
    if not isinstance(d, E):
        return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[op]
    if d.op in ("sqrt", "abs") and op == "lt":
        return False
    # normalise the scale (and the sign for eq)
    c, t = _terms(d)
    k = abs(t[0][1])
    if op == "eq" and t[0][1] < 0:
        k = -k
    if k != 1:
        d = mul(d, Fraction(1) / k)
    return E(op, (d,), "B")


def _spec_cmp(op, a, b):
    if not isinstance(a, float) and isinstance(a, E):
        a = Fraction(0)
    if not isinstance(b, float) and isinstance(b, E):
        b = Fraction(0)
    a, b = float(a), float(b)
    return {"lt": a < b, "le": a <= b, "eq": a == b}[op]


def _cmp(op, a, b):
    a, b = _coerce(a), _coerce(b)
    if is_special(a) or is_special(b):
        if isinstance(a, (S, C)) or isinstance(b, (S, C)):
            if (is_special(a) and a != a) or (is_special(b) and b != b):
                return False
            a = Fraction(0) if isinstance(a, (S, C)) else a
            b = Fraction(0) if isinstance(b, (S, C)) else b
        return _spec_cmp(op, a, b)
    return _cmp0(op, sub(a, b))


def lt(a, b):
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


def eq(a, b):
    return _cmp("eq", a, b)


def ne(a, b):
    return bnot(eq(a, b))


def bnot(a):
    if not isinstance(a, E):
        return not a
    if a.op == "not":
        return a.args[0]
    return E("not", (a,), "B")


def band(a, b):
    if not isinstance(a, E):
        return b if a else False
    if not isinstance(b, E):
        return a if b else False
    if a is b:
        return a
    return E("and", (a, b), "B")


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b):
    """if-then-else on scalars"""
    if not isinstance(c, E):
        return a if c else b
    if a is b:
        return a
    if is_const(a) and is_const(b) and not is_special(a) and not is_special(b) and a == b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or \
            (isinstance(a, E) and a.sort == "B") or (isinstance(b, E) and b.sort == "B"):
        return bor(band(c, a), band(bnot(c), b))
    a, b = _coerce(a), _coerce(b)
    if isinstance(a, (S,)) or isinstance(b, (S,)) or is_special(a) or is_special(b):
        return a if PATH.decide(c) else b
    if isinstance(a, C) or isinstance(b, C):
        a, b = tocx(a), tocx(b)
        return mkc(ite(c, a.re, b.re), ite(c, a.im, b.im))
    return E("ite", (c, a, b))


def smax(a, b):
    a, b = _coerce(a), _coerce(b)
    for x in (a, b):
        if is_special(x) and x != x:
            return x
    if isinstance(a, E) and (not isinstance(b, E) and not isinstance(b, (S, C)) or isinstance(b, E) and b.id < a.id):
        a, b = b, a         # one form for max(a,b) and max(b,a)
    return ite(lt(a, b), b, a)


def smin(a, b):
    a, b = _coerce(a), _coerce(b)
    for x in (a, b):
        if is_special(x) and x != x:
            return x
    if isinstance(a, E) and (not isinstance(b, E) and not isinstance(b, (S, C)) or isinstance(b, E) and b.id < a.id):
        a, b = b, a         # one form for max(a,b) and max(b,a)
    return ite(lt(b, a), b, a)


def sign(a):
    a = _coerce(a)
    return ite(lt(0, a), Fraction(1), ite(lt(a, 0), Fraction(-1), Fraction(0)))


# --------------------------------------------------------------------------
class C:
    """complex scalar"""
    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pow__(self, n):
        return power(self, n)

    def __abs__(self):
        return absv(self)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return mkc(self.re, mul(-1, self.im))

    def exp(self):
        return exp(self)

    def sqrt(self):
        return sqrt(self)

    def __repr__(self):
        return f"C({self.re},{self.im})"


def mkc(re, im):
    if is_const(im) and im == 0:
        return re
    return C(re, im)


def tocx(a):
    return a if isinstance(a, C) else C(a, Fraction(0))


def c_add(a, b):
    a, b = tocx(a), tocx(b)
    return mkc(add(a.re, b.re), add(a.im, b.im))


def c_mul(a, b):
    if not isinstance(a, C):
        return mkc(mul(a, b.re), mul(a, b.im))
    if not isinstance(b, C):
        return mkc(mul(a.re, b), mul(a.im, b))
    return mkc(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))


def c_div(a, b):
    if not isinstance(b, C):
        return mkc(div(a.re, b), div(a.im, b))
    n = add(mul(b.re, b.re), mul(b.im, b.im))
    p = tocx(c_mul(a, C(b.re, mul(-1, b.im))))
    return mkc(div(p.re, n), div(p.im, n))


def cre(a):
    return a.re if isinstance(a, C) else a


def cim(a):
    return a.im if isinstance(a, C) else Fraction(0)


# --------------------------------------------------------------------------
class S:
    """truncated Laurent series sum_{i>=val} c[i-val] h^i + O(h^prec)"""
    __slots__ = ("val", "c", "prec")
    __array_ufunc__ = None

    def __init__(self, val, c, prec):
        self.val, self.c, self.prec = val, c, prec

    def coef(self, i):
        if i >= self.prec:
            raise Unsupported(f"series coefficient h^{i} beyond precision O(h^{self.prec})")
        j = i - self.val
        return self.c[j] if 0 <= j < len(self.c) else Fraction(0)

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pow__(self, n):
        return power(self, n)

    def __abs__(self):
        return absv(self)

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def conjugate(self):
        return self

    def __lt__(self, o):
        return lt(self, o)

    def __le__(self, o):
        return le(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __ge__(self, o):
        return le(o, self)

    def __eq__(self, o):
        return eq(self, o)

    __hash__ = None

    def __bool__(self):
        return bool(ne(self, 0))

    def __float__(self):
        return poison()

    def __repr__(self):
        return "S[" + ", ".join(f"h^{self.val+i}: {x}" for i, x in enumerate(self.c)) + f" +O(h^{self.prec})]"


def series_var():
    return S(1, [Fraction(1)], Cfg.order)


def mks(val, c, prec):
    c = list(c)[:max(0, prec - val)]
    while c and is_const(c[-1]) and c[-1] == 0:
        c.pop()
    while c and is_const(c[0]) and c[0] == 0:
        c.pop(0)
        val += 1
    return S(val, c, prec)


def tos(a):
    """(val, coefs, prec) with prec None for exact"""
    if isinstance(a, S):
        return a
    if is_const(a) and not is_special(a) and a == 0:
        return S(0, [], 10**9)
    return S(0, [a], 10**9)


def s_add(a, b):
    if is_special(a) or is_special(b):
        return NAN
    a, b = tos(a), tos(b)
    prec = min(a.prec, b.prec)
    if not a.c:
        return mks(b.val, b.c, prec)
    if not b.c:
        return mks(a.val, a.c, prec)
    v = min(a.val, b.val)
    n = max(a.val + len(a.c), b.val + len(b.c)) - v
    n = min(n, prec - v)
    out = []
    for i in range(v, v + n):
        x = a.c[i - a.val] if 0 <= i - a.val < len(a.c) else Fraction(0)
        y = b.c[i - b.val] if 0 <= i - b.val < len(b.c) else Fraction(0)
        out.append(add(x, y))
    return mks(v, out, prec)


def s_mul(a, b):
    if is_special(a) or is_special(b):
        return NAN
    if is_const(a) and a == 0 or is_const(b) and b == 0:
        return Fraction(0)
    a, b = tos(a), tos(b)
    # precision: relative
    av = a.val if a.c else min(a.prec, 10**8)
    bv = b.val if b.c else min(b.prec, 10**8)
    prec = min(a.prec + bv, b.prec + av, Cfg.order)
    if not a.c or not b.c:
        return S(0, [], prec)
    v = a.val + b.val
    n = min(len(a.c) + len(b.c) - 1, prec - v)
    out = []
    for k in range(max(n, 0)):
        acc = Fraction(0)
        for i in range(max(0, k - len(b.c) + 1), min(k, len(a.c) - 1) + 1):
            x, y = a.c[i], b.c[k - i]
            acc = add(acc, mul(x, y))
        out.append(acc)
    return mks(v, out, prec)


def s_lead(a):
    """strip leading coefficients that are zero on this path"""
    while a.c:
        if is_const(a.c[0]):
            if a.c[0] != 0:
                return a
        elif not PATH.decide(eq(a.c[0], 0)):
            return a
        a = mks(a.val + 1, a.c[1:], a.prec)
    return a


def s_inv(b):
    if not isinstance(b, S):
        return div(Fraction(1), b)
    b = s_lead(b)
    if not b.c:
        raise Unsupported("division by a series that is zero to its precision")
    nrel = min(b.prec, Cfg.order + b.val) - b.val
    nrel = max(1, min(nrel, Cfg.order + abs(b.val)))
    i0 = div(Fraction(1), b.c[0])
    out = [i0]
    if len(b.c) > 1:
        for k in range(1, nrel):
            acc = Fraction(0)
            for j in range(1, min(k, len(b.c) - 1) + 1):
                acc = add(acc, mul(b.c[j], out[k - j]))
            out.append(mul(-1, mul(i0, acc)))
    prec = -b.val + (b.prec - b.val if b.prec < 10**8 else 10**9)
    if len(b.c) == 1:
        return mks(-b.val, out, min(prec, Cfg.order))
    return mks(-b.val, out, min(prec, -b.val + nrel))


def s_neg(a):
    r = s_cmp0("lt", a)
    return PATH.decide(r) if isinstance(r, E) else r


def s_cmp0(op, a):
    a = s_lead(a)
    if not a.c:
        # zero to its precision: treat as exactly zero only if nothing else is known
        return op in ("le", "eq")
    if op == "eq":
        return False
    r = _cmp0("lt", a.c[0])
    return PATH.decide(r) if isinstance(r, E) else r


def s_sqrt(a):
    a = s_lead(a)
    if not a.c:
        return S(0, [], max(a.prec // 2, 0))
    if a.val % 2:
        raise Unsupported("sqrt of a series with odd valuation")
    nrel = min(a.prec, Cfg.order + a.val) - a.val
    r0 = sqrt(a.c[0])
    out = [r0]
    half = div(Fraction(1), mul(2, r0))
    for k in range(1, nrel):
        acc = a.c[k] if k < len(a.c) else Fraction(0)
        for j in range(1, k):
            acc = sub(acc, mul(out[j], out[k - j]))
        out.append(mul(acc, half))
    v = a.val // 2
    return mks(v, out, min(v + nrel, Cfg.order))


def s_uf(name, a):
    if a.val < 0 and a.c:
        raise Unsupported(name + " of a Laurent series")
    c0 = a.coef(0)
    x = sub(a, c0)
    n = Cfg.order
    pows = [Fraction(1)]
    for k in range(1, n):
        pows.append(mul(pows[-1], x))
    f = 1
    acc = Fraction(0)
    for k in range(n):
        if k:
            f *= k
        if name == "exp":
            d = exp(c0)
        elif name in ("sin", "cos"):
            s, c = uf("sin", c0), uf("cos", c0)
            seq = [s, c, mul(-1, s), mul(-1, c)]
            d = seq[(k + (1 if name == "cos" else 0)) % 4]
        else:
            raise Unsupported(name + " of a series")
        acc = add(acc, mul(mul(d, Fraction(1, f)), pows[k]))
    return acc


def coef(x, i):
    if isinstance(x, S):
        return x.coef(i)
    if isinstance(x, C):
        return mkc(coef(x.re, i), coef(x.im, i))
    return x if i == 0 else Fraction(0)


for _c in (E, S, C):
    lift_ops(_c)


# --------------------------------------------------------------------------
# z3 conversion
class Z3Conv:
    def __init__(self):
        import z3
        self.z3 = z3
        self.cache = {}
        self.side = {}          # definitional constraints of sqrt nodes, by id
        self.ufs = {}
        self.keep = []

    def const(self, c):
        z3 = self.z3
        if isinstance(c, bool):
            return z3.BoolVal(c)
        c = Fraction(c)
        return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)

    def __call__(self, e):
        if not isinstance(e, E):
            if is_special(e):
                raise Unsupported("inf/nan reached the solver")
            return self.const(e)
        r = self.cache.get(e.id)
        if r is not None:
            return r
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in self.cache:
                stack.pop()
                continue
            kids = [k for k in children(x) if k.id not in self.cache]
            if kids:
                stack.extend(kids)
                continue
            self.cache[x.id] = self._mk(x)
            stack.pop()
        return self.cache[e.id]

    def sides(self, es):
        """definitional constraints relevant to the expressions es"""
        out, seen, st = [], set(), [e for e in es if isinstance(e, E)]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.id in self.side:
                out.append(self.side[x.id])
            st.extend(children(x))
        return out

    def _mk(self, x):
        z3, g = self.z3, (lambda k: self.cache[k.id] if isinstance(k, E) else self.const(k))
        op = x.op
        if op == "var":
            return z3.Bool(x.args[0]) if x.sort == "B" else z3.Real(x.args[0])
        if op == "+":
            c, ts = x.args
            parts = [g(n) if k == 1 else self.const(k) * g(n) for n, k in ts]
            if c != 0:
                parts.append(self.const(c))
            return parts[0] if len(parts) == 1 else z3.Sum(parts)
        if op == "*":
            num, den = [], []
            for n, p in x.args:
                (num if p > 0 else den).extend([g(n)] * abs(p))
            top = z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1))
            if den:
                top = top / (z3.Product(den) if len(den) > 1 else den[0])
            return top
        if op == "ite":
            return z3.If(g(x.args[0]), g(x.args[1]), g(x.args[2]))
        if op == "abs":
            a = g(x.args[0])
            return z3.If(a >= 0, a, -a)
        if op == "sqrt":
            s = z3.Real(f"sqrt!{x.id}")
            a = g(x.args[0])
            self.side[x.id] = z3.And(s >= 0, s * s == a)
            return s
        if op == "uf" and x.args[0] == "cbrt":
            s, a = z3.Real(f"cbrt!{x.id}"), g(x.args[1])
            self.side[x.id] = z3.Implies(a >= 0, z3.And(s >= 0, s * s * s == a))
            return s
        if op == "uf":
            f = self.ufs.setdefault(x.args[0], z3.Function("uf_" + x.args[0], z3.RealSort(), z3.RealSort()))
            return f(g(x.args[1]))
        if op == "ufn":
            nm, aa = x.args[0], x.args[1:]
            f = self.ufs.setdefault((nm, len(aa)), z3.Function(f"{nm}/{len(aa)}", *([z3.RealSort()] * (len(aa) + 1))))
            return f(*[g(a) for a in aa])
        if op == "lt":
            return g(x.args[0]) < 0
        if op == "le":
            return g(x.args[0]) <= 0
        if op == "eq":
            return g(x.args[0]) == 0
        if op == "not":
            return z3.Not(g(x.args[0]))
        if op == "and":
            return z3.And(g(x.args[0]), g(x.args[1]))
        raise Unsupported("z3 " + op)


def children(x):
    if x.op == "var":
        return ()
    if x.op == "+":
        return [n for n, _ in x.args[1]]
    if x.op == "*":
        return [n for n, _ in x.args]
    return [a for a in x.args if isinstance(a, E)]


def fvars(es):
    seen, out, st = set(), {}, [e for e in es if isinstance(e, E)]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out[x.args[0]] = x
        st.extend(children(x))
    return out


def nodes(es):
    seen, st = set(), [e for e in es if isinstance(e, E)]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(children(x))
    return len(seen)


def evalf(e, env, memo=None, exact=False, ufns=None):
    """numeric value of an expression (floats, or Fractions when exact); ufns(name, values): interpretation of the
    uninterpreted functions"""
    memo = {} if memo is None else memo
    conv = (lambda c: c) if exact else float

    def ev(x):
        if not isinstance(x, E):
            return x if isinstance(x, bool) else (conv(x) if not is_special(x) else x)
        if x.id in memo:
            return memo[x.id]
        op = x.op
        if op == "var":
            r = env[x.args[0]]
        elif op == "+":
            r = conv(x.args[0])
            for n, k in x.args[1]:
                r = r + conv(k) * ev(n)
        elif op == "*":
            r = conv(Fraction(1))
            for n, p in x.args:
                r = r * ev(n) ** p
        elif op == "ite":
            r = ev(x.args[1]) if ev(x.args[0]) else ev(x.args[2])
        elif op == "abs":
            r = abs(ev(x.args[0]))
        elif op == "sqrt":
            v = ev(x.args[0])
            r = math.sqrt(v) if v >= 0 else NAN
        elif op == "uf":
            r = getattr(math, x.args[0])(float(ev(x.args[1])))
        elif op == "ufn" and ufns is not None:
            r = ufns(x.args[0], [ev(a) for a in x.args[1:]])
        elif op == "lt":
            r = ev(x.args[0]) < 0
        elif op == "le":
            r = ev(x.args[0]) <= 0
        elif op == "eq":
            r = ev(x.args[0]) == 0
        elif op == "not":
            r = not ev(x.args[0])
        elif op == "and":
            r = ev(x.args[0]) and ev(x.args[1])
        else:
            raise Unsupported("eval " + op)
        memo[x.id] = r
        return r
    import sys
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 100000))
    return ev(e)


# --------------------------------------------------------------------------
class BoundExceeded(Exception):
    pass


class Infeasible(Exception):
    pass


class Path:
    """one execution path: decisions + path condition.  Exploration is a DFS
    by re-execution; infeasible branches are pruned by the solver."""

    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.prefix = []
        self.trace = []        # [(cond, taken, other_open)]
        self.assumes = []      # E-bools assumed by the harness
        self.nz = []           # denominators assumed nonzero
        self.active = False
        self.max_decisions = 400
        self.stats = {"feasibility_queries": 0, "paths": 0, "cut": 0, "feas_s": 0.0}
        self.conv = Z3Conv()
        self._facts = {}

    def start(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.assumes = []
        self.nz = []
        self._facts = {}
        self.active = True

    def conds(self):
        out = list(self.assumes)
        for c, taken, _ in self.trace:
            out.append(c if taken else bnot(c))
        for d in self.nz:
            out.append(ne(d, 0))
        return out

    def nonzero(self, b):
        if b not in self._facts:
            self._facts[b] = True
            self.nz.append(b)

    def assume(self, c):
        if not isinstance(c, E):
            if not c:
                raise Infeasible()
            return
        self.assumes.append(c)

    def feasible(self, extra):
        import time
        z3 = self.conv.z3
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 4000)
        cs = self.conds() + [extra]
        for c in cs:
            s.add(self.conv(c))
        for c in self.conv.sides(cs):
            s.add(c)
        r = s.check()
        self.stats["feasibility_queries"] += 1
        self.stats["feas_s"] += time.time() - t
        return r != z3.unsat

    def decide(self, cond):
        if not isinstance(cond, E):
            return bool(cond)
        if not self.active:
            raise Unsupported("branch on a symbolic condition outside an exploration: " + show(cond))
        neg = False
        if cond.op == "not":
            cond, neg = cond.args[0], True
        for c, taken, _ in self.trace:
            if c is cond:
                return taken != neg
        i = len(self.trace)
        if i >= self.max_decisions:
            raise BoundExceeded("decision bound")
        if i < len(self.prefix):
            taken = self.prefix[i]
            self.trace.append((cond, taken, None))
            return taken != neg
        if cond.op == "var" and cond.args[0].startswith("choice_"):
            self.trace.append((cond, True, True))      # a fresh choice: both sides feasible
            return True != neg
        t_ok = self.feasible(cond)
        f_ok = self.feasible(bnot(cond)) if t_ok else True
        if t_ok and f_ok:
            self.trace.append((cond, True, True))
            return True != neg
        taken = t_ok
        self.trace.append((cond, taken, False))
        return taken != neg

    def choose(self, n, label):
        """nondeterministic choice among n alternatives (symbolic schedule)"""
        for i in range(n - 1):
            b = var(f"choice_{label}_{len(self.trace)}_{i}", "B")
            if self.decide(b):
                return i
        return n - 1


PATH = Path()


def explore(fn, max_paths=4000, shard=None):
    """run fn() along every feasible path; yields (result, path conditions).
    shard=(i, n): every process expands the same first subtrees, then takes its
    share of the open ones (the union over i is the whole tree)."""
    work = [[]]
    out = []
    split = shard is not None and shard[1] > 1
    while work:
        if split and len(work) >= 6 * shard[1]:
            if shard[0] != 0:
                PATH.stats["paths"] -= len(out)
                out = []
            work = [w for j, w in enumerate(work) if j % shard[1] == shard[0]]
            split = False
        prefix = work.pop(0) if split else work.pop()
        PATH.start(prefix)
        try:
            res = ("ok", fn())
        except Infeasible:
            res = None
        except BoundExceeded as e:
            PATH.stats["cut"] += 1
            res = ("cut", str(e))
        trace = PATH.trace
        if res is not None:
            PATH.stats["paths"] += 1
            out.append((res[0], res[1], PATH.conds(), [t[1] for t in trace]))
        for i in range(len(prefix), len(trace)):
            if trace[i][2]:
                work.append([t[1] for t in trace[:i]] + [not trace[i][1]])
        if len(out) > max_paths:
            raise BoundExceeded("path bound")
    if split and shard[0] != 0:
        PATH.stats["paths"] -= len(out)
        out = []
    PATH.active = False
    return out


# --------------------------------------------------------------------------
# expansion into a canonical sum of (Laurent) monomials over atoms
EXPAND_LIMIT = 4000


def expand(e, pos=frozenset(), _memo=None):
    """algebraically equal form of e: sums and products multiplied out; |v| -> v for
    the variables named in pos (which the caller has assumed positive)"""
    if isinstance(e, C):
        return mkc(expand(e.re, pos), expand(e.im, pos))
    if isinstance(e, S):
        return mks(e.v, [expand(c, pos) for c in e.c], e.prec)
    if not isinstance(e, E) or e.sort != "R":
        return e
    d = _lpoly(e, pos, {})
    if d is None:
        return e
    out = {}
    c0 = Fraction(0)
    for mono, c in d.items():
        if not mono:
            c0 += c
            continue
        t = Fraction(1)
        for n, p in mono:
            if p >= 0:
                t = mul(t, power(n, p))
            else:
                t = mul(t, E("*", ((n, p),)))
        if not isinstance(t, E):
            c0 += c * t
        else:
            cc, ts = _terms(mul(c, t))
            c0 += cc
            for n, k in ts:
                out[n] = out.get(n, 0) + k
    return _mk_sum(c0, out)


def _lmul(a, b):
    out = {}
    for ma, ca in a.items():
        da = dict(ma)
        for mb, cb in b.items():
            d = dict(da)
            for n, p in mb:
                d[n] = d.get(n, 0) + p
            ex = None
            for n in list(d):
                if d[n] == 0:
                    del d[n]
                elif n.op == "sqrt" and abs(d[n]) >= 2:
                    ex = True
            m = tuple(sorted(d.items(), key=lambda t: t[0].id))
            out[m] = out.get(m, 0) + ca * cb
    return {m: c for m, c in out.items() if c != 0}


def _lpoly(e, pos, memo):
    if not isinstance(e, E):
        return None if is_special(e) else ({(): Fraction(e)} if e != 0 else {})
    if e in memo:
        return memo[e]
    if e.op == "+":
        out = {}
        c, ts = e.args
        if c != 0:
            out[()] = Fraction(c)
        for n, k in ts:
            d = _lpoly(n, pos, memo)
            if d is None:
                return None
            for m, x in d.items():
                out[m] = out.get(m, 0) + k * x
        r = {m: x for m, x in out.items() if x != 0}
    elif e.op == "*":
        r = {(): Fraction(1)}
        for n, p in e.args:
            d = _lpoly(n, pos, memo)
            if d is None or len(d) == 0:
                return None if d is None or p < 0 else {}
            if p < 0:
                if len(d) == 1:
                    (m, x), = d.items()
                    d = {tuple((a, -q) for a, q in m): 1 / x}
                else:
                    d = {((_atom(d, n), -1),): Fraction(1)}
            for _ in range(abs(p)):
                r = _lmul(r, d)
                if len(r) > EXPAND_LIMIT:
                    return None
    elif e.op == "abs" and isinstance(e.args[0], E) and e.args[0].op == "var" and e.args[0].args[0] in pos:
        r = {((e.args[0], 1),): Fraction(1)}
    else:
        r = {((e, 1),): Fraction(1)}
    memo[e] = r
    return r


def _atom(d, n):
    """the expanded sum as one node, so that equal denominators coincide"""
    out = {}
    c0 = Fraction(0)
    for mono, c in d.items():
        t = Fraction(1)
        for a, p in mono:
            t = mul(t, power(a, p) if p >= 0 else E("*", ((a, p),)))
        if isinstance(t, E):
            cc, ts = _terms(mul(c, t))
            c0 += cc
            for a, k in ts:
                out[a] = out.get(a, 0) + k
        else:
            c0 += c * t
    r = _mk_sum(c0, out)
    return r if isinstance(r, E) and r.op == "+" else n
