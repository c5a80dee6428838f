"""Canonical forms of arithmetic terms: quotients of polynomials over the
non-arithmetic subterms.  Two terms with equal forms are equal as real
functions, however they are written."""
from fractions import Fraction

from .interp import Term, mk, is_const, cval, fmt


class TooBig(Exception):
    pass


ONE = {(): Fraction(1)}


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        x = r.get(k, 0) + s * v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 4000:
        raise TooBig
    r = {}
    for k, v in a.items():
        for l, u in b.items():
            d = dict(k)
            for n, e in l:
                d[n] = d.get(n, 0) + e
            key = tuple(sorted((n, e) for n, e in d.items() if e))
            x = r.get(key, 0) + u * v
            if x:
                r[key] = x
            else:
                r.pop(key, None)
    return r


class Forms:
    def __init__(self, it=None):
        self.it = it
        self.atoms = {}
        self.names = {}
        self.memo = {}

    def atom(self, t):
        k = self.key(t)
        if k not in self.atoms:
            self.atoms[k] = f"v{len(self.atoms):04d}"
            self.names[self.atoms[k]] = t
        return {((self.atoms[k], 1),): Fraction(1)}, ONE

    def key(self, t):
        """Identity of a non-arithmetic term; arithmetic arguments count by form."""
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return tuple(self.key(x) for x in t)
            return t
        if t.op == "const":
            return ("c", repr(cval(t)) if not isinstance(cval(t), (int, float)) else float(cval(t)))
        if self.arith(t):
            return ("r", self.frozen(self.form(t)))
        if t.op == "call" and str(t.args[0]).split(".")[-1] in ("max", "min", "maximum", "minimum"):
            a = [self.key(x) for x in (t.args[1] if len(t.args[1]) != 1 else t.args[1])]
            return ("call", str(t.args[0]).split(".")[-1][:3], tuple(sorted(a, key=repr)))
        return (t.op,) + tuple(self.key(x) for x in t.args)

    @staticmethod
    def arith(t):
        return t.op == "bin" and t.args[0] in ("Add", "Sub", "Mult", "Div", "Pow") or t.op == "un" and t.args[0] in ("USub", "UAdd")

    @staticmethod
    def frozen(f):
        p, q = f
        # scale so that the leading coefficient of the denominator is one
        lead = q[max(q)] if q else Fraction(1)
        return (tuple(sorted((k, v / lead) for k, v in p.items())), tuple(sorted((k, v / lead) for k, v in q.items())))

    def form(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self.form1(t)
        return r

    def form1(self, t):
        if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
            v = cval(t)
            if v != v or v in (float("inf"), float("-inf")):
                return self.atom(t)
            f = Fraction(str(v))
            return ({(): f} if f else {}), ONE
        if isinstance(t, Term) and t.op == "un" and self.arith(t):
            p, q = self.form(t.args[1])
            return (padd({}, p, -1) if t.args[0] == "USub" else p), q
        fn = str(t.args[0]).split(".")[-1] if isinstance(t, Term) and t.op == "call" and len(t.args[1]) == 1 else None
        if fn == "floor" or isinstance(t, Term) and t.op == "bin" and t.args[0] == "FloorDiv":
            p, q = self.form(t.args[1][0] if fn else mk("bin", "Div", t.args[1], t.args[2]))
            lead = max(q)
            n = p.get(lead, Fraction(0)) / q[lead]
            n = Fraction(n.numerator // n.denominator)
            p = padd(p, {k: v * n for k, v in q.items()}, -1)
            f, _ = self.atom(mk("floor", mk("form", self.frozen((p, q)))))
            return padd(f, {(): n} if n else {}), ONE
        if fn in ("abs", "absolute", "fabs"):
            p, q = self.form(t.args[1][0])
            p, q = self.frozen((p, q))
            if p and p[-1][1] < 0:
                p = tuple((k, -v) for k, v in p)
            return self.atom(mk("abs", mk("form", (p, q))))
        if isinstance(t, Term) and t.op == "bin" and self.arith(t):
            op, a, b = t.args
            pa, qa = self.form(a)
            if op == "Pow":
                pb, qb = self.form(b)
                if pb == {} or (len(pb) == 1 and () in pb and qb == ONE and pb[()].denominator == 1 and abs(pb[()]) <= 8):
                    n = int(pb.get((), 0)) if pb else 0
                    p, q = ONE, ONE
                    for _ in range(abs(n)):
                        p, q = pmul(p, pa), pmul(q, qa)
                    return (p, q) if n >= 0 else (q, p)
                return self.atom(mk("pow", mk("form", self.frozen((pa, qa))), mk("form", self.frozen((pb, qb)))))
            pb, qb = self.form(b)
            if op in ("Add", "Sub"):
                s = 1 if op == "Add" else -1
                if qa == qb:
                    return padd(pa, pb, s), qa
                return padd(pmul(pa, qb), pmul(pb, qa), s), pmul(qa, qb)
            if op == "Mult":
                return pmul(pa, pb), pmul(qa, qb)
            return pmul(pa, qb), pmul(qa, pb)
        return self.atom(t)

    def equal(self, a, b):
        try:
            (p, q), (r, s) = self.form(a), self.form(b)
            return not padd(pmul(p, s), pmul(r, q), -1)
        except TooBig:
            return a is b

    def sign_key(self, a, b):
        """A key for `a - b` up to a positive factor, and the sign taken out."""
        p, q = self.form(a)
        r, s = self.form(b)
        d = padd(pmul(p, s), pmul(r, q), -1)
        if not d:
            return (), 1
        lead = d[max(d)]
        return tuple(sorted((k, v / abs(lead)) for k, v in d.items())), 1


def decided(it, forms, a, b):
    """What the path decided about `a < b` (True, False or None)."""
    want = forms.sign_key(a, b)[0]
    neg = tuple(sorted((k, -v) for k, v in dict(want).items()))
    for d, c, _ in it.taken:
        pol = True
        while isinstance(c, Term) and c.op == "not":
            c, pol = c.args[0], not pol
        if not (isinstance(c, Term) and c.op == "cmp" and c.args[0] == "<"):
            continue
        k = forms.sign_key(c.args[1], c.args[2])[0]
        d = d if pol else not d
        if k == want:
            return d
        if k == neg and d:
            return False    # b < a
    return None
