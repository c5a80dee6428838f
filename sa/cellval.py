"""Cell values of the provenance domain: what one array element is a function of.

A cell is a number or a polynomial over the symbols of the input cells and
opaque applications (exp, tanh, an inverse ...), which are shared.  An order of
two cells is that of the order type the scenario fixes for the symbols."""
import math
from fractions import Fraction


class Unsup(Exception):
    """Construct outside the fragment the analysis reads."""


class Viol(Exception):
    """A memory access or effect that is wrong whatever the values are."""

    def __init__(self, what, where=""):
        super().__init__(what)
        self.what = what
        self.where = where


class PyErr(Exception):
    """An exception of the analysed program."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Uninit:
    def __repr__(self):
        return "<uninitialised>"

    def _bad(self, *a):
        raise Viol("a value that was never written is used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __abs__ = __bool__ = __int__ = __float__ = __floordiv__ = __mod__ = _bad
    __index__ = __lshift__ = __rshift__ = __and__ = __or__ = __xor__ = _bad

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 7


UNINIT = Uninit()


class Atoms:
    def __init__(self):
        self.reset()

    def reset(self):
        self.tab = []          # (kind, payload)
        self.index = {}
        self.wit = {}          # symbol name -> number
        self.memo = {}
        self.dmemo = {}
        self.points = {}

    def atom(self, kind, *payload):
        k = (kind,) + payload
        i = self.index.get(k)
        if i is None:
            i = len(self.tab)
            self.tab.append(k)
            self.index[k] = i
        return i

    def value(self, i):
        v = self.memo.get(i)
        if v is None:
            k = self.tab[i]
            if k[0] == "sym":
                v = self.wit.get(k[1])
                if v is None:
                    # symbols without a fixed order get distinct values
                    v = Fraction(1 + (hash_name(k[1]) % 9973), 10007)
            else:
                args = [evalm(dict(a)) for a in k[1:]]
                try:
                    v = Fraction(FUN[k[0]](*[float(a) for a in args]))
                except (OverflowError, ValueError, ZeroDivisionError):
                    raise Unsup(f"order of {k[0]} is not determined")
            self.memo[i] = v
        return v


def hash_name(s):
    h = 5381
    for c in s:
        h = (h * 33 + ord(c)) & 0xffffffff
    return h


FUN = {"exp": math.exp, "log": math.log, "tanh": math.tanh, "sqrt": math.sqrt, "erf": math.erf, "sin": math.sin, "cos": math.cos, "log1p": math.log1p,
       "inv": lambda x: 1 / x, "pow": lambda a, b: a ** b, "cosh": math.cosh, "sinh": math.sinh, "abs": abs, "rsqrt": lambda x: x ** -0.5}
A = Atoms()


def evalm(m):
    t = Fraction(0)
    for mono, c in m.items():
        v = c
        for i, p in mono:
            v = v * A.value(i) ** p
        t += v
    return t


def num(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsup("non-finite constant in a cell")
        return Fraction(repr(x))
    raise Unsup(f"{type(x).__name__} in a cell")


NUM = (int, float, Fraction)
NAN = float("nan")
LIMIT = 4000


class P:
    __slots__ = ("m",)
    __array_priority__ = 1000

    def __init__(self, m):
        self.m = m

    def key(self):
        return tuple(sorted(self.m.items()))

    def _o(self, o):
        if isinstance(o, P):
            return o.m
        if isinstance(o, NUM):
            c = num(o)
            return {(): c} if c else {}
        return None

    def __add__(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o
        m = self._o(o)
        if m is None:
            return o.__radd__(self) if o is UNINIT else NotImplemented
        r = dict(self.m)
        for k, c in m.items():
            v = r.get(k, 0) + c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        return simp(r)
    __radd__ = __add__

    def __neg__(self):
        return P({k: -c for k, c in self.m.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if o is UNINIT:
            o._bad()
        if not isinstance(o, (P,) + NUM):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        m = self._o(o)
        if m is None:
            return o.__radd__(self) if o is UNINIT else NotImplemented
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in m.items():
                k = mmul(k1, k2)
                v = r.get(k, 0) + c1 * c2
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > LIMIT:
            raise Unsup("cell too large")
        return simp(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, NUM):
            if o == 0:
                return NAN
            return P({k: c / num(o) for k, c in self.m.items()})
        if isinstance(o, P):
            return self * inv(o)
        if o is UNINIT:
            o._bad()
        return NotImplemented

    def __rtruediv__(self, o):
        return inv(self) * o

    def __pow__(self, o):
        if isinstance(o, NUM) and num(o).denominator == 1 and abs(num(o)) <= 8:
            n = int(o)
            if n >= 0:
                r = 1
                for _ in range(n):
                    r = self * r
                return r
            return inv(self) ** (-n)
        return fun("pow", self, o)

    def __rpow__(self, o):
        return fun("pow", o, self)

    def __abs__(self):
        return self if evalm(self.m) >= 0 else -self

    def __lt__(self, o): return evalm(self.m) < val(o)
    def __le__(self, o): return evalm(self.m) <= val(o)
    def __gt__(self, o): return evalm(self.m) > val(o)
    def __ge__(self, o): return evalm(self.m) >= val(o)

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, (P,) + NUM):
            return False
        return evalm(self.m) == val(o)

    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.key())
    def __bool__(self): return evalm(self.m) != 0

    def __float__(self):
        raise Unsup("a symbolic value is turned into a plain number")
    __int__ = __index__ = __float__

    def __repr__(self):
        return show(self)


def _nan_ok(n):
    f = getattr(P, n)

    def g(self, o):
        if isinstance(o, float) and o != o:
            return NAN
        return f(self, o)
    setattr(P, n, g)


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__", "__rpow__"):
    _nan_ok(_n)


def simp(r):
    if not r:
        return Fraction(0)
    if len(r) == 1 and () in r:
        return r[()]
    return P(r)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, p in b:
        q = d.get(i, 0) + p
        if q:
            d[i] = q
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def val(o):
    if isinstance(o, P):
        return evalm(o.m)
    if o is UNINIT:
        o._bad()
    return o if isinstance(o, (int, Fraction)) else (Fraction(repr(o)) if isinstance(o, float) and o == o and abs(o) != float("inf") else o)


def sym(name):
    return P({((A.atom("sym", name), 1),): Fraction(1)})


def poly(x):
    return x.m if isinstance(x, P) else ({(): num(x)} if num(x) else {})


def frozen(x):
    return tuple(sorted(poly(x).items()))


def inv(p):
    if isinstance(p, NUM):
        return Fraction(1) / num(p)
    if len(p.m) == 1:
        (k, c), = p.m.items()
        return P({tuple((i, -q) for i, q in k): 1 / c})
    # take out the leading coefficient, so that multiples share the atom
    k0 = min(p.m)
    c = p.m[k0]
    q = P({k: v / c for k, v in p.m.items()})
    return P({((A.atom("inv", frozen(q)), 1),): 1 / c})


def fun(name, *args):
    if all(isinstance(a, NUM) for a in args):
        try:
            v = FUN[name](*[float(a) for a in args])
        except OverflowError:
            return float("inf")
        except (ValueError, ZeroDivisionError):
            raise Viol(f"{name} outside its domain")
        return Fraction(v)
    for a in args:
        if a is UNINIT:
            a._bad()
    if name in ("tanh", "erf", "sin", "sinh") and isinstance(args[0], P):     # odd functions
        k0 = min(args[0].m)
        if args[0].m[k0] < 0:
            return -fun(name, -args[0])
    if name in ("cos", "cosh", "abs") and isinstance(args[0], P):
        k0 = min(args[0].m)
        if args[0].m[k0] < 0:
            return fun(name, -args[0])
    return P({((A.atom(name, *[frozen(a) for a in args]), 1),): Fraction(1)})


def close(a, b, tol=Fraction(1, 10 ** 5)):
    """Equal as functions, constants up to rounding of their literals."""
    if a is UNINIT or b is UNINIT:
        return a is b
    if not isinstance(a, (P,) + NUM) or not isinstance(b, (P,) + NUM):
        return a == b
    for x in (a, b):
        if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            return isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b))
    ma, mb = poly(a), poly(b)
    ks = set(ma) | set(mb)
    for k in ks:
        x, y = ma.get(k, 0), mb.get(k, 0)
        if x != y and abs(x - y) > tol * max(1, abs(x), abs(y)):
            break
    else:
        return True
    # constants inside opaque applications: compare by value at several points
    if any(A.tab[i][0] != "sym" for m in (ma, mb) for k in m for i, _ in k):
        return (len(ma) < 40 and same_terms(ma, mb, tol)) or same_values(ma, mb)
    return False


POINTS = [(0.3, 1.7), (-1.4, 0.9), (-2.0, -0.2), (0.5, 3.0), (0.2, 0.8)]


def point(n, i):
    """Value of an atom at the n-th point."""
    t = A.points.setdefault(n, {})
    v = t.get(i)
    if v is None:
        k = A.tab[i]
        if k[0] == "sym":
            lo, hi = POINTS[n]
            v = lo + (hi - lo) * ((hash_name(k[1]) * 7919 + n * 104729) % 10007) / 10007
        else:
            try:
                v = FUN[k[0]](*[evalf(dict(a), n) for a in k[1:]])
            except (ValueError, OverflowError, ZeroDivisionError, TypeError, KeyError) as e:
                v = e
        t[i] = v
    if isinstance(v, Exception):
        raise v
    return v


def evalf(m, n):
    t = 0.0
    for mono, c in m.items():
        v = c.numerator / c.denominator if isinstance(c, Fraction) else float(c)
        for i, p in mono:
            v *= point(n, i) ** p
        t += v
    return t


def same_values(ma, mb):
    """Equality of two closed formulas, decided on several points."""
    good = 0
    for n in range(len(POINTS)):
        try:
            a, b = evalf(ma, n), evalf(mb, n)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError, KeyError):
            continue
        if isinstance(a, complex) or isinstance(b, complex):
            continue
        if abs(a - b) > 2e-5 * max(abs(a), abs(b), 1e-2):
            return False
        good += 1
    return good >= 2


def same_terms(ma, mb, tol):
    """Match monomials up to constants inside opaque applications."""
    if len(ma) != len(mb):
        return False
    left = list(mb.items())
    for k, c in ma.items():
        for j, (k2, c2) in enumerate(left):
            if abs(c - c2) <= tol * max(1, abs(c)) and mono_close(k, k2, tol):
                left.pop(j)
                break
        else:
            return False
    return True


def mono_close(k, k2, tol):
    if len(k) != len(k2):
        return False
    left = list(k2)
    for i, p in k:
        for j, (i2, p2) in enumerate(left):
            if p == p2 and atom_close(i, i2, tol):
                left.pop(j)
                break
        else:
            return False
    return True


def atom_close(i, j, tol):
    if i == j:
        return True
    a, b = A.tab[i], A.tab[j]
    if a[0] != b[0] or a[0] == "sym" or len(a) != len(b):
        return False
    return all(close(P(dict(x)), P(dict(y)), tol) for x, y in zip(a[1:], b[1:]))


def symname(c):
    """Name of a cell that is a symbol."""
    (k, _), = c.m.items()
    (i, _), = k
    return A.tab[i][1]


def show(x, lim=90):
    if not isinstance(x, P):
        if isinstance(x, Fraction):
            return str(x.numerator) if x.denominator == 1 else f"{float(x):.6g}"
        return repr(x)
    out = []
    for k, c in sorted(x.m.items())[:6]:
        fs = []
        for i, p in k:
            t = A.tab[i]
            n = t[1] if t[0] == "sym" else f"{t[0]}({', '.join(show(simp(dict(a)), 40) for a in t[1:])})"
            fs.append(n if p == 1 else f"{n}^{p}")
        body = "*".join(fs)
        if c == 1 and body:
            out.append(body)
        else:
            out.append(show(c) + ("*" + body if body else ""))
    s = " + ".join(out) + (" + ..." if len(x.m) > 6 else "")
    return s if len(s) <= lim else s[:lim - 3] + "..."


def coef(x, s):
    """Coefficient of the symbol s where x is linear in it; None when not linear."""
    i = A.atom("sym", s)
    if not isinstance(x, P):
        return Fraction(0)
    t = {}
    for k, c in x.m.items():
        d = dict(k)
        p = d.pop(i, 0)
        if p == 1:
            t[tuple(sorted(d.items()))] = c
        elif p:
            return None
    return simp(t)


def deriv(x, s):
    """Partial derivative with respect to the symbol s, through applications."""
    i0 = A.atom("sym", s)
    if not isinstance(x, P):
        return Fraction(0)
    tot = Fraction(0)
    for k, c in x.m.items():
        for n, (i, p) in enumerate(k):
            da = datom(i, i0)
            if not isinstance(da, P) and da == 0:
                continue
            rest = dict(k)
            if p == 1:
                rest.pop(i)
            else:
                rest[i] = p - 1
            tot = tot + P({tuple(sorted(rest.items())): c * p}) * da if rest else tot + da * (c * p)
    return tot


def datom(i, i0):
    r = A.dmemo.get((i, i0))
    if r is None:
        r = A.dmemo[i, i0] = datom_(i, i0)
    return r


def datom_(i, i0):
    if i == i0:
        return Fraction(1)
    k = A.tab[i]
    if k[0] == "sym":
        return Fraction(0)
    u = simp(dict(k[1]))
    du = deriv(u, A.tab[i0][1])
    self_ = P({((i, 1),): Fraction(1)})
    if k[0] == "pow":
        b = simp(dict(k[2]))
        if isinstance(b, P):
            raise Unsup("derivative of a power")
        return du * fun("pow", u, b - 1) * b if not (not isinstance(du, P) and du == 0) else Fraction(0)
    if not isinstance(du, P) and du == 0:
        return Fraction(0)
    d = {"exp": lambda: self_, "log": lambda: inv(u) if isinstance(u, P) else 1 / u, "tanh": lambda: 1 - self_ * self_, "inv": lambda: -(self_ * self_),
         "sqrt": lambda: inv(self_) / 2, "erf": lambda: fun("exp", -(u * u)) * Fraction("1.1283791670955126"), "sin": lambda: fun("cos", u), "cos": lambda: -fun("sin", u), "log1p": lambda: inv(1 + u)}.get(k[0])
    if d is None:
        raise Unsup(f"derivative of {k[0]}")
    return d() * du
