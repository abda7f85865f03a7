"""Hash-consed value terms, polynomial normal form and boolean formulas (ROBDD).

Terms are the value numbers of the analysis: two expressions with the same term
compute the same value whatever way they are written.  Formulas are reduced
ordered BDDs over atomic terms, so a guard is judged by its truth table and not
by the way the branch is written."""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "_free")
    tab = {}
    n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = T.tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._free = op, a, T.n, None
        T.n += 1
        T.tab[k] = t
    return t


# ------------------------------------------------------------------ BDD
class BDD:
    """Reduced ordered BDD; 0/1 terminals, nodes are ints."""

    limit = 1500000

    def __init__(self):
        self.nodes = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.uniq = {}
        self.memo = {}
        self.atoms = []          # level -> term
        self.level = {}          # term -> level

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
            if n > self.limit:
                raise Giveup("guard formula too large")
        return n

    def atom(self, t):
        lv = self.level.get(t)
        if lv is None:
            lv = len(self.atoms)
            self.atoms.append(t)
            self.level[t] = lv
        return self.node(lv, 0, 1)

    def ite(self, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None: return r
        N = self.nodes
        v = min(N[f][0], N[g][0], N[h][0])
        def co(x, b):
            return (N[x][2] if b else N[x][1]) if N[x][0] == v else x
        lo = self.ite(co(f, 0), co(g, 0), co(h, 0))
        hi = self.ite(co(f, 1), co(g, 1), co(h, 1))
        r = self.node(v, lo, hi)
        self.memo[k] = r
        return r

    def AND(self, *fs):
        r = 1
        for f in fs: r = self.ite(r, f, 0)
        return r

    def OR(self, *fs):
        r = 0
        for f in fs: r = self.ite(r, 1, f)
        return r

    def NOT(self, f): return self.ite(f, 0, 1)

    def restrict(self, f, c):
        """f simplified under care set c (generalised cofactor)."""
        if c == 0: return f
        memo = {}
        N = self.nodes
        def rec(f, c):
            if c == 1 or f <= 1: return f
            k = (f, c)
            if k in memo: return memo[k]
            v = min(N[f][0], N[c][0])
            c0 = N[c][1] if N[c][0] == v else c
            c1 = N[c][2] if N[c][0] == v else c
            f0 = N[f][1] if N[f][0] == v else f
            f1 = N[f][2] if N[f][0] == v else f
            if N[f][0] != v: r = rec(f, self.OR(c0, c1))
            elif c0 == 0: r = rec(f1, c1)
            elif c1 == 0: r = rec(f0, c0)
            else: r = self.node(v, rec(f0, c0), rec(f1, c1))
            memo[k] = r
            return r
        return rec(f, c)

    def support(self, f):
        seen, out, st = set(), [], [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen: continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.append(v)
            st += [lo, hi]
        return [self.atoms[v] for v in sorted(set(out))]

    def subst(self, f, fn):
        """replace every atom a by the formula fn(a)."""
        memo = {}
        def rec(x):
            if x <= 1: return x
            if x in memo: return memo[x]
            v, lo, hi = self.nodes[x]
            r = self.ite(fn(self.atoms[v]), rec(hi), rec(lo))
            memo[x] = r
            return r
        return rec(f)

    def quant(self, f, t, val):
        return self.subst(f, lambda a: val if a is t else self.atom(a))

    def one(self, f):
        """one satisfying assignment (list of (term,bool))."""
        out = []
        while f > 1:
            v, lo, hi = self.nodes[f]
            if hi != 0: out.append((self.atoms[v], True)); f = hi
            else: out.append((self.atoms[v], False)); f = lo
        return out


B = BDD()


class Giveup(Exception):
    pass


# ------------------------------------------------------------ constants
def const(v):
    if isinstance(v, bool): return mk("c", "b", v)
    if isinstance(v, (int, Fraction)): return num(Fraction(v))
    if v is None: return NULL
    return mk("c", "s", v)


NULL = mk("c", "null", None)


def enum(q): return mk("c", "e", q)


def isnum(t): return t.op == "poly"


# --------------------------------------------------------- polynomials
# poly.args = tuple of ((mono, coef)...) sorted; mono = tuple of (atom, exp)
def num(fr):
    fr = Fraction(fr)
    return mk("poly", () if fr == 0 else (((), fr),))


ZERO, ONE = num(0), num(1)


def pd(t):
    """polynomial dict of a term."""
    if t.op == "poly": return dict(t.a[0])
    if t.op == "c" and t.a[0] == "b": return {(): Fraction(int(t.a[1]))} if t.a[1] else {}
    return {((t, 1),): Fraction(1)}


def mkpoly(d):
    it = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: [(a.id, e) for a, e in x[0]]))
    if len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 1 and it[0][0][0][1] == 1:
        return it[0][0][0][0]
    return mk("poly", it)


def numval(t):
    """rational value of a constant polynomial, else None"""
    if t.op == "poly":
        if not t.a[0]: return Fraction(0)
        if len(t.a[0]) == 1 and t.a[0][0][0] == (): return t.a[0][0][1]
    if t.op == "c" and t.a[0] == "b": return Fraction(int(t.a[1]))
    return None


def add(a, b, s=1):
    d = dict(pd(a))
    for m, c in pd(b).items():
        d[m] = d.get(m, 0) + s * c
    return mkpoly(d)


def sub(a, b): return add(a, b, -1)


def neg(a): return sub(ZERO, a)


def _mm(m1, m2):
    d = {}
    for a, e in m1 + m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def mul(a, b):
    d = {}
    pa, pb = pd(a), pd(b)
    if len(pa) * len(pb) > 4000: return mk("op", "*", *sorted((a, b)))
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    r = mkpoly(d)
    # |x|^2 = x^2, sqrt(x)^2 = x
    odd = [m for m in d if any(e > 1 and a.op in ("abs", "sqrt") for a, e in m)]
    if odd:
        r = mkpoly({m: c for m, c in d.items() if m not in odd})
        for m in odd:
            t = mkpoly({tuple((a, e if a.op not in ("abs", "sqrt") or e < 2 else e % 2) for a, e in m if a.op not in ("abs", "sqrt") or e < 2 or e % 2): d[m]})
            for a, e in m:
                if a.op in ("abs", "sqrt") and e > 1:
                    for _ in range(e - e % 2 if a.op == "abs" else e // 2): t = mul(t, a.a[0])
            r = add(r, t)
    # y*(x/y) = x - x%y for whole numbers
    for m, c in pd(r).items():
        for q, e in m:
            if q.op != "idiv" or e != 1: continue
            y, k = q.a[1], numval(q.a[1])
            rest = tuple(z for z in m if z[0] is not q)
            if k is not None:
                if k in (0, 1) or (c / k).denominator != 1: continue
                t = mkpoly({rest: c / k})
            elif any(z[0] is y and z[1] > 0 for z in rest):
                t = mkpoly({tuple((z[0], z[1] - (z[0] is y)) for z in rest if z[0] is not y or z[1] > 1): c})
            else: continue
            return add(sub(r, mkpoly({m: c})), mul(t, sub(q.a[0], modt(q.a[0], y))))
    return r


def inv(b):
    v = numval(b)
    if v is not None and v != 0: return num(1 / v)
    p = pd(b)
    if not p: return mk("inv", ZERO)
    if len(p) == 1:
        (m, c), = p.items()
        r = mkpoly({tuple((a, -e) for a, e in m if not (a.op == "ite" and e > 0)): 1 / c})
        for a, e in m:
            if a.op == "ite" and e > 0:
                x = ite(a.a[0], inv(a.a[1]), inv(a.a[2]))
                for _ in range(e): r = mul(r, x)
        return r
    # normalise the sign / scale of the denominator
    m0 = sorted(p.items(), key=lambda x: [(a.id, e) for a, e in x[0]])[-1]
    k = m0[1]
    return mkpoly({((mk("inv", mkpoly({m: c / k for m, c in p.items()})), 1),): 1 / k})


def div(a, b): return mul(a, inv(b))


# ------------------------------------------------------------- booleans
def boolt(f):
    """formula -> term"""
    if f == 1: return mk("c", "b", True)
    if f == 0: return mk("c", "b", False)
    n = B.nodes[f]
    if n[1] == 0 and n[2] == 1: return B.atoms[n[0]]
    return mk("bool", f)


TRUE, FALSE = boolt(1), boolt(0)


def fm_bit(base, m): return B.atom(mk("truth", mk("bit", base, m)))


def fm(t):
    """term -> formula (C++ conversion to bool)"""
    if t.op == "bool": return t.a[0]
    if t.op == "c":
        if t.a[0] == "b": return 1 if t.a[1] else 0
        if t.a[0] == "null": return 0
        return B.atom(t)
    if t.op == "poly":
        v = numval(t)
        if v is not None: return 1 if v != 0 else 0
        return B.NOT(eq(t, ZERO))
    if t.op == "ite":
        return B.ite(t.a[0], fm(t.a[1]), fm(t.a[2]))
    if t.op in ("gt0", "eq", "any", "exc", "truth"): return B.atom(t)
    if t.op == "flags": return B.NOT(eq(t, ZERO, True))
    if t.op in ("new", "loc", "iter", "elem"): return 1
    if t.op == "mod" and numval(t.a[1]) == 2: return fm_bit(t.a[0], 1)
    return B.atom(mk("truth", t)) if t.op != "truth" else B.atom(t)


NONNEG = {"size", "iv", "abs", "sqrt"}


def integral(p, intflag):
    return intflag


def exists(iv, f):
    """formula: f holds for some iteration"""
    f = canon(f)
    if f == 0: return 0
    sup = B.support(f)
    dep = [a for a in sup if contains(a, lambda x: x is iv or x.op == "phi")]
    if f == 1: return B.atom(mk("any", iv, 1))
    if dep and len(dep) < len(sup) and len(sup) - len(dep) <= 6:
        x = next(a for a in sup if a not in dep)
        return B.ite(B.atom(x), exists(iv, B.quant(f, x, 1)), exists(iv, B.quant(f, x, 0)))
    if not dep: return B.AND(B.atom(mk("any", iv, 1)), f)
    return B.atom(mk("any", iv, f))


def counted(t):
    """a count of the iterations where something holds: the formula for 'not zero'"""
    if t.a[0] != "sum" or t.a[1].a[0] != "r": return None
    b = t.a[2]
    if b.op == "ite" and numval(b.a[1]) is not None and numval(b.a[2]) is not None:
        x, y = numval(b.a[1]), numval(b.a[2])
        if x > 0 and y == 0: return exists(t.a[1], b.a[0])
        if x == 0 and y > 0: return exists(t.a[1], B.NOT(b.a[0]))
    return None


def gt0(p, isint=False):
    """formula for  p > 0"""
    v = numval(p)
    if v is not None: return 1 if v > 0 else 0
    if p.op == "ite":
        return B.ite(p.a[0], gt0(p.a[1], isint), gt0(p.a[2], isint))
    d = pd(p)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "agg":
            f = counted(m[0][0])
            if f is not None: return f if c > 0 else 0
    for m in d:
        for a, e in m:
            if a.op == "ite" and cleaf(a):
                def at(v):
                    r = ZERO
                    for mm, c in d.items():
                        t = num(c)
                        for x, ex in mm:
                            if x is a:
                                for _ in range(abs(ex)): t = mul(t, v) if ex > 0 else div(t, v)
                            else: t = mul(t, mkpoly({((x, ex),): Fraction(1)}))
                        r = add(r, t)
                    return r
                if e > 0: return B.ite(a.a[0], gt0(at(a.a[1]), isint), gt0(at(a.a[2]), isint))
    # known sign
    c0 = d.get((), 0)
    nn = all(all(unsigned(a) or e % 2 == 0 for a, e in m) for m in d)
    if nn:
        if all(c >= 0 for m, c in d.items() if m) and c0 > 0: return 1
        if all(c <= 0 for m, c in d.items() if m) and c0 <= 0: return 0
    items = sorted(d.items(), key=lambda x: [(a.id, e) for a, e in x[0]])
    lead = ([x for x in items if x[0]] or [((), Fraction(1))])[0]
    k = abs(lead[1])
    if k != 1: d = {m: c / k for m, c in d.items()}
    p = mkpoly(d)
    if isint and lead[1] < 0 and all(c.denominator == 1 for c in d.values()):
        # integers: p>0  <=>  not (1-p > 0)
        return B.NOT(B.atom(mk("gt0", sub(ONE, p), True)))
    return B.atom(mk("gt0", p, bool(isint)))


def cleaf(t, n=6):
    """a selection among numbers"""
    if t.op == "ite": return n > 0 and cleaf(t.a[1], n - 1) and cleaf(t.a[2], n - 1)
    return numval(t) is not None


def lt(a, b, isint=False): return gt0(sub(b, a), isint)


ENUMVAL = {}
TWO = {}


def cval(t):
    if t.op == "c" and t.a[0] == "e": return ENUMVAL.get(t.a[1])
    return numval(t)


def nonneg(t):
    if t.op == "agg": return t.a[0] == "sum" and nonneg(t.a[2])
    if t.op == "ite": return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == "poly": return all(c > 0 and all(nonneg(x) for x, _ in m) for m, c in t.a[0])
    return unsigned(t) or t.op in ("mod",)


UNSIGNED = set()    # functions and members of an unsigned type


def unsigned(t): return t.op in NONNEG or t.op == "call" and t.a[0] in UNSIGNED or t.op == "f" and t.a[1] in UNSIGNED or t.op == "after" and unsigned(t.a[1])


def odd(t): return fm_bit(t, 1)


def eq(a, b, isint=False):
    if a is b: return 1
    for x, y in ((a, b), (b, a)):
        if x.op == "mod" and numval(x.a[1]) == 2:
            n = numval(y)
            if n == 0: return B.NOT(odd(x.a[0]))
            if n == 1 and nonneg(x.a[0]): return odd(x.a[0])
    if a.op == "flags" or b.op == "flags":
        if b.op == "flags": a, b = b, a
        k = cval(b)
        if k is not None:
            base, s, c = a.a
            k = int(k) & 0xffffffff
            free = 0xffffffff & ~(s | c)
            if k & c or s & ~k: return 0
            bits = [1 << i for i in range(32) if free >> i & 1]
            if len(bits) <= 8: return B.AND(*[fm_bit(base, m) if k & m else B.NOT(fm_bit(base, m)) for m in bits])
    if a.op != b.op and "c" in (a.op, b.op):
        x, y = cval(a), cval(b)
        if x is not None and y is not None: return 1 if x == y else 0
    for x, y in ((a, b), (b, a)):
        # enumerations with two members: one is the complement of the other
        if x.op == "c" and x.a[0] == "e" and x.a[1] in TWO and not (y.op == "c"): return B.NOT(eq(enum(TWO[x.a[1]]), y, isint))
        # the position of a hit is not the end of the range
        if x.op == "first" and x.a[0].a[0] == "r" and len(x.a[0].a) == 3 and x.a[2] is not y and sub(y, x.a[2]) is sub(x.a[0].a[2], x.a[0]): return 0
    if a.op == "ite": return B.ite(a.a[0], eq(a.a[1], b, isint), eq(a.a[2], b, isint))
    if b.op == "ite": return B.ite(b.a[0], eq(a, b.a[1], isint), eq(a, b.a[2], isint))
    if a.op == "c" and b.op == "c": return 0
    if a.op == "vec" and b.op == "vec" and len(a.a) == len(b.a):
        return B.AND(*[eq(x, y) for x, y in zip(a.a, b.a)])
    isb = lambda t: t.op in ("bool", "gt0", "eq", "any", "truth", "exc") or (t.op == "c" and t.a[0] == "b")
    if isb(a) or isb(b):
        if not (a.op == "poly" or b.op == "poly"):
            return B.ite(fm(a), fm(b), B.NOT(fm(b)))
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
        return eq(a.a[1], b.a[1], True)
    if a.op == "poly" or b.op == "poly":
        p = sub(a, b)
        if isint:
            d = {k: v for k, v in pd(p).items() if k}
            # positive-leading normal form so that both orders agree
            l = sorted(d.items(), key=lambda x: [(q.id, e) for q, e in x[0]])
            if l and l[0][1] < 0: p = neg(p)
        return B.AND(B.NOT(gt0(p, isint)), B.NOT(gt0(neg(p), isint)))
    if {a.op, b.op} & {"new", "loc"} and (a is NULL or b is NULL): return 0
    if a is NULL: return B.NOT(fm(b))
    if b is NULL: return B.NOT(fm(a))
    if a.op == "new" and b.op == "new" and (a.a[0] != b.a[0] or not free(a) and not free(b)): return 0
    x, y = sorted((a, b))
    return B.atom(mk("eq", x, y))


# loops being evaluated that run over 0 .. hi-1: index term -> hi
RANGES = {}


def wrap(f, a, b):
    """f ? a : b  written as a step around a cycle of the length of the loop"""
    for f2, x, y in ((f, a, b), (None, b, a)):
        if f2 is None: f2 = B.NOT(f)
        for iv, n in list(RANGES.items()):
            for i in (iv, sub(sub(n, ONE), iv)):
                up, dn = add(i, ONE), sub(i, ONE)
                if x is up and numval(y) == 0 and f2 in (gt0(sub(n, up), True), B.NOT(eq(up, n, True)), B.NOT(eq(i, sub(n, ONE), True))): return modt(up, n)
                if x is dn and y is sub(n, ONE) and f2 in (gt0(i, True), B.NOT(eq(i, ZERO, True))): return modt(dn, n)
    return None


def modt(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y and x == int(x) and y == int(y): return num(int(x) % int(y))
    # ((n % M) + M) % M  ==  n % M (non-negative representative)
    d = pd(a)
    bt = ((b, 1),)
    if d.get(bt) and len(pd(b)) == 1 and b.op != "poly":
        d = dict(d); del d[bt]
        a = mkpoly(d)
        if a.op == "mod" and a.a[1] is b: return a
    if a.op == "mod" and a.a[1] is b: return a
    return mk("mod", a, b)


def minmax(k, *xs):
    s = []
    for x in xs:
        if x.op == k: s += list(x.a)
        else: s.append(x)
    vals = [numval(x) for x in s]
    cs = [v for v in vals if v is not None]
    s = sorted(set(x for x, v in zip(s, vals) if v is None))
    if cs: s.append(num(min(cs) if k == "min" else max(cs)))
    if len(s) == 1: return s[0]
    if k == "max" and cs and len(s) == 2 and s[0].op == "min":
        # into an interval: the same from either side
        hi = [x for x in s[0].a if numval(x) is not None]
        if hi and numval(hi[0]) >= max(cs):
            return minmax("min", hi[0], *[minmax("max", s[1], x) for x in s[0].a if x is not hi[0]])
    return mk(k, *s)


def isnumeric(t): return t.op not in ("ite", "vec", "c", "bool")


def _leaves(t, g, out, lim=8):
    if g == 0: return True
    if t.op == "ite": return _leaves(t.a[1], B.AND(g, t.a[0]), out) and _leaves(t.a[2], B.AND(g, B.NOT(t.a[0])), out)
    out[t] = B.OR(out[t], g) if t in out else g
    return len(out) <= lim


def flagite(f, a, b):
    """(bit set ? value without the bit : value) is the value without the bit, and so on"""
    for x, y, g in ((a, b, B.NOT(f)), (b, a, f)):
        if x.op != "flags": continue
        base, s, c = x.a
        yb, ys, yc = y.a if y.op == "flags" else (y, 0, 0)
        if base is not yb or ys & ~s or yc & ~c: continue
        bits = [(1 << i, bool(s >> i & 1)) for i in range(32) if (s & ~ys | c & ~yc) >> i & 1]
        if len(bits) <= 4 and all(B.AND(g, B.NOT(fm_bit(base, m)) if on else fm_bit(base, m)) == 0 for m, on in bits): return x
    return None


def ite(f, a, b):
    if f == 1: return a
    if f == 0: return b
    if a is b: return a
    if a.op == "vec" and b.op == "vec" and len(a.a) == len(b.a):
        return mk("vec", *[ite(f, x, y) for x, y in zip(a.a, b.a)])
    isb = lambda t: t.op in ("bool", "gt0", "eq", "any", "truth", "exc") or (t.op == "c" and t.a[0] == "b")
    if isb(a) and isb(b): return boolt(B.ite(f, fm(a), fm(b)))
    if a.op == "ite" or b.op == "ite":
        # selections are kept flat: one guard per distinct value, values in a fixed order
        out = {}
        if _leaves(a, f, out) and _leaves(b, B.NOT(f), out):
            vs = sorted(out, key=lambda t: t.id)
            if len(vs) == 1: return vs[0]
            if len(vs) == 2: f, a, b = out[vs[0]], vs[0], vs[1]
            else:
                if len(vs) == 3:
                    cs = sorted([v for v in vs if numval(v) is not None], key=numval)
                    xs = [v for v in vs if numval(v) is None]
                    if len(cs) == 2 and isnumeric(xs[0]):
                        lo, hi, x = cs[0], cs[1], xs[0]
                        below = {gt0(sub(lo, x)), B.NOT(gt0(sub(x, lo)))}
                        above = {gt0(sub(x, hi)), B.NOT(gt0(sub(hi, x)))}
                        for u in below:
                            for o in above:
                                if (out[lo] == u and out[hi] in (o, B.AND(o, B.NOT(u)))) or (out[hi] == o and out[lo] == B.AND(u, B.NOT(o))):
                                    return minmax("min", hi, minmax("max", lo, x))
                r = vs[-1]
                for v in vs[-2::-1]: r = mk("ite", out[v], v, r)
                return r
    if a.op == "flags" or b.op == "flags":
        w = flagite(f, a, b)
        if w is not None: return w
    if RANGES:
        w = wrap(f, a, b)
        if w is not None: return w
    n = B.nodes[f]
    # branches already decided by the same selector
    if a.op == "ite" and a.a[0] == f: a = a.a[1]
    if b.op == "ite" and b.a[0] == f: b = b.a[2]
    if a is b: return a
    if n[1] == 0 and n[2] == 1 or n[1] == 1 and n[2] == 0:
        at = B.atoms[n[0]]
        pos = n[2] == 1
        if at.op == "gt0":
            p = at.a[0]
            x, y = (a, b) if pos else (b, a)        # p>0 ? x : y
            dd = sub(y, x)
            for cand, k in ((dd, "min"), (neg(dd), "max")):
                if gt0(cand, at.a[1]) == B.atom(at): return minmax(k, x, y)
                if at.a[1] and gt0(add(cand, ONE), True) == B.atom(at): return minmax(k, x, y)
            for f2, v, w in ((f, a, b), (B.NOT(f), b, a)):
                # below the interval: its lower end; above: its upper end
                if numval(v) is not None and w.op in ("min", "max") and len(w.a) == 2:
                    k = [z for z in w.a if numval(z) is not None]
                    r = [z for z in w.a if numval(z) is None]
                    if len(k) == 1:
                        if w.op == "min" and numval(v) <= numval(k[0]) and f2 in (gt0(sub(v, r[0])), B.NOT(gt0(sub(r[0], v)))): return minmax("min", k[0], minmax("max", v, r[0]))
                        if w.op == "max" and numval(v) >= numval(k[0]) and f2 in (gt0(sub(r[0], v)), B.NOT(gt0(sub(v, r[0])))): return minmax("min", v, minmax("max", k[0], r[0]))
    # canonical polarity
    if B.nodes[f][0] < (1 << 60):
        g = B.NOT(f)
        if g < f: return mk("ite", g, b, a)
    return mk("ite", f, a, b)


# ------------------------------------------------------ substitution
def free(t):
    """all sub-terms' loop indices (iv / phi uids) as frozenset"""
    if t._free is not None: return t._free
    s = set()
    if t.op in ("iv", "phi"): s.add(t)
    for x in _kids(t): s |= free(x)
    t._free = frozenset(s)
    return t._free


def _kids(t):
    if t.op == "poly":
        for m, c in t.a[0]:
            for a, e in m: yield a
        return
    if t.op == "bool" or t.op == "ite" or t.op in ("any", "first", "last", "agg", "compr"):
        for x in t.a:
            if isinstance(x, T): yield x
            elif isinstance(x, int) and not isinstance(x, bool):
                for y in B.support(x): yield y
        return
    for x in t.a:
        if isinstance(x, T): yield x


def contains(t, pred, memo=None):
    memo = {} if memo is None else memo
    if t.id in memo: return memo[t.id]
    memo[t.id] = False
    r = bool(pred(t)) or any(contains(x, pred, memo) for x in _kids(t))
    memo[t.id] = r
    return r


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen: return
    seen.add(t)
    yield t
    for x in _kids(t): yield from subterms(x, seen)


def rebuild(t, fn, memo):
    """apply fn bottom-up; fn(term) returns a replacement or the term."""
    if t.id in memo: return memo[t.id]
    r = fn(t)
    if r is not t:
        memo[t.id] = r
        return r
    if t.op == "poly":
        out = ZERO
        for m, c in t.a[0]:
            x = num(c)
            for a, e in m:
                y = rebuild(a, fn, memo)
                for _ in range(abs(e)): x = mul(x, y) if e > 0 else div(x, y)
            out = add(out, x)
        r = out
    elif t.op == "bool": r = boolt(rebuild_f(t.a[0], fn, memo))
    elif t.op == "ite": r = ite(rebuild_f(t.a[0], fn, memo), rebuild(t.a[1], fn, memo), rebuild(t.a[2], fn, memo))
    elif t.op in ("any", "first", "last", "agg", "compr"):
        r = mk(t.op, *[rebuild(x, fn, memo) if isinstance(x, T) else (rebuild_f(x, fn, memo) if isinstance(x, int) and not isinstance(x, bool) else x) for x in t.a])
        if t.op == "any" and r.a[1] == 0: r = FALSE
    elif t.op == "gt0": r = boolt(gt0(rebuild(t.a[0], fn, memo), t.a[1]))
    elif t.op == "eq":
        a, b = rebuild(t.a[0], fn, memo), rebuild(t.a[1], fn, memo)
        r = t if (a is t.a[0] and b is t.a[1]) else boolt(eq(a, b))
    elif t.op in ("min", "max"): r = minmax(t.op, *[rebuild(x, fn, memo) for x in t.a])
    elif t.op == "truth": r = boolt(fm(rebuild(t.a[0], fn, memo)))
    else:
        na = tuple(rebuild(x, fn, memo) if isinstance(x, T) else x for x in t.a)
        r = t if na == t.a else remk(t.op, na)
    memo[t.id] = r
    return r


REMK = {}


def remk(op, a):
    h = REMK.get(op)
    if h: return h(*a)
    return mk(op, *a)


def rebuild_f(f, fn, memo):
    return B.subst(f, lambda a: fm(rebuild(a, fn, memo)))


def replace(t, mapping):
    """mapping: dict term->term"""
    memo = {}
    return rebuild(t, lambda x: mapping.get(x, x), memo)


def replace_f(f, mapping):
    memo = {}
    return rebuild_f(f, lambda x: mapping.get(x, x), memo)


# --------------------------------------------------------------- theory
_swapped = {}


def swapped(b, x, y):
    """atom b with x for y, where it is an atom again"""
    k = (b.id, x.id, y.id)
    if k in _swapped: return _swapped[k]
    r = None
    if b.op in ("eq", "truth") and contains(b, lambda t: t is x):
        f = replace_f(B.atom(b), {x: y})
        if f > 1:
            n = B.nodes[f]
            if n[1] == 0 and n[2] == 1: r = B.atoms[n[0]]
    _swapped[k] = r
    return r


def axioms(atoms):
    """facts relating the given atoms: p>0 and -p>0 exclude each other, a
    value equals at most one of several distinct constants."""
    f = 1
    gts = {}
    eqs = {}
    for a in atoms:
        if a.op == "gt0": gts[a.a[0]] = a
        if a.op == "eq":
            x, y = a.a
            if y.op == "c": x, y = y, x
            if x.op == "c": eqs.setdefault(y, []).append(a)
    for p, a in gts.items():
        for q, b in gts.items():
            if q.id <= p.id: continue
            s = numval(add(p, q))
            if s is not None and s <= (1 if a.a[1] and b.a[1] else 0):          # p>0 and q>0 would give p+q>0
                f = B.AND(f, B.NOT(B.AND(B.atom(a), B.atom(b))))
            d = numval(sub(p, q))
            if d is not None:
                # p = q + d
                if d >= 0: f = B.AND(f, B.OR(B.NOT(B.atom(b)), B.atom(a)))
                if d <= 0: f = B.AND(f, B.OR(B.NOT(B.atom(a)), B.atom(b)))
    for y, l in eqs.items():
        for i in range(len(l)):
            for j in range(i):
                f = B.AND(f, B.NOT(B.AND(B.atom(l[i]), B.atom(l[j]))))
    # what equals a value has its properties
    names = None
    for a in atoms:
        if a.op != "eq" or a.a[0].op == "c" or a.a[1].op == "c" or a.a[0].op == "poly" or a.a[1].op == "poly": continue
        if names is None: names = set(atoms)
        if len(names) < 3: break
        x, y = a.a
        for b in atoms:
            if b is a: continue
            c = swapped(b, x, y)
            if c is not None and c in names and c is not b and c is not a:
                f = B.AND(f, B.OR(B.NOT(B.atom(a)), B.ite(B.atom(b), B.atom(c), B.NOT(B.atom(c)))))
    # existentials over one iteration space: union and monotonicity
    anys = {}
    for a in atoms:
        if a.op == "any": anys.setdefault(a.a[0], []).append(a)
    for l in anys.values():
        if len(l) < 2: continue
        for r in l:
            sub_ = [p for p in l if p is not r and implies(p.a[1], r.a[1])]
            for p in sub_: f = B.AND(f, B.OR(B.NOT(B.atom(p)), B.atom(r)))
            if sub_ and implies(r.a[1], B.OR(*[p.a[1] for p in sub_])):
                f = B.AND(f, B.OR(B.NOT(B.atom(r)), *[B.atom(p) for p in sub_]))
    return f


def implies(f, g):
    """f => g modulo the theory axioms"""
    h = B.AND(f, B.NOT(g))
    if h == 0: return True
    return B.AND(h, axioms(B.support(h))) == 0


def unsat(f):
    return f == 0 or B.AND(f, axioms(B.support(f))) == 0


def feasible(cons, limit=4000):
    """rational solutions of linear constraints [(coefficients, constant, strict)]:  sum + constant > 0 or >= 0 (Fourier-Motzkin)"""
    cons = list(cons)
    while True:
        left = []
        for d, c, s in cons:
            if d: left.append((d, c, s))
            elif c < 0 or c == 0 and s: return False
        if not left: return True
        cnt = {}
        for d, c, s in left:
            for v, k in d.items():
                n = cnt.setdefault(v, [0, 0])
                n[k > 0] += 1
        v = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        lo = [x for x in left if x[0].get(v, 0) > 0]
        hi = [x for x in left if x[0].get(v, 0) < 0]
        cons = [x for x in left if v not in x[0]]
        for d1, c1, s1 in lo:
            for d2, c2, s2 in hi:
                k1, k2 = -d2[v], d1[v]
                d = {}
                for m in set(d1) | set(d2):
                    k = k1 * d1.get(m, 0) + k2 * d2.get(m, 0)
                    if k: d[m] = k
                cons.append((d, k1 * c1 + k2 * c2, s1 or s2))
        if len(cons) > limit: return True


def valid(g, limit=3000):
    """a formula that holds in every model: minima and maxima split into their cases, every falsifying cube is infeasible"""
    def split(t):
        if t.op in ("min", "max") and len(t.a) <= 4:
            r = t.a[0]
            for x in t.a[1:]:
                f = gt0(sub(x, r)) if t.op == "max" else gt0(sub(r, x))
                r = mk("ite", f, x, r) if f > 1 else (x if f else r)
            return r
        return t
    def spread(f):
        """atoms whose polynomial holds a selection"""
        def one(a):
            if a.op == "eq" and any(x.op in ("min", "max", "poly") for x in a.a):
                d = sub(*a.a)
                return spread(B.AND(B.NOT(gt0(d)), B.NOT(gt0(neg(d)))))
            if a.op == "gt0":
                for s in subterms(a.a[0]):
                    if s.op in ("min", "max"):
                        x = split(s)
                        return spread(B.ite(x.a[0], fm(rebuild(a, lambda z: x.a[1] if z is s else z, {})), fm(rebuild(a, lambda z: x.a[2] if z is s else z, {})))) if x.op == "ite" else spread(fm(rebuild(a, lambda z: x if z is s else z, {})))
            return B.atom(a)
        return B.subst(f, one)
    h = spread(B.NOT(g))
    if h == 0: return True
    h = B.AND(h, axioms(B.support(h)))
    n = [0]
    def rec(x, cons):
        """no feasible cube"""
        if x == 0: return True
        n[0] += 1
        if n[0] > limit: return False
        if not feasible(cons): return True
        if x == 1: return False
        v, lo, hi = B.nodes[x]
        a = B.atoms[v]
        if a.op == "gt0":
            d = dict(pd(a.a[0]))
            c = d.pop((), 0)
            up = [(d, c, True)] if not a.a[1] else [(d, c - 1, False)]
            dn = [({m: -k for m, k in d.items()}, -c, False)]
        else: up = dn = []
        return rec(hi, cons + up) and rec(lo, cons + dn)
    return rec(h, [])


_canon = {}


def canon(f):
    """f modulo the theory axioms, on as few atoms as possible: one formula
    per meaning, so that it can be part of a term's name"""
    if f <= 1: return f
    r = _canon.get(f)
    if r is not None: return r
    sup = B.support(f)
    A = axioms(sup)
    r = f
    if A != 1:
        if B.AND(f, A) == 0: r = 0
        elif B.AND(B.NOT(f), A) == 0: r = 1
        else:
            again = True
            while again:
                again = False
                for x in reversed(B.support(r)):
                    A = axioms(B.support(r))
                    g = B.AND(r, A)
                    g = B.OR(B.quant(g, x, 0), B.quant(g, x, 1))
                    if B.AND(g, A, B.NOT(r)) == 0: r, again = g, True
            s2 = B.support(r)
            r = B.AND(r, axioms(s2))
    _canon[f] = r
    return r


def equiv(f, g): return implies(f, g) and implies(g, f)


# -------------------------------------------------------------- printing
def show(t, depth=6):
    if depth < 0: return "…"
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else (showf(x, depth - 1) if isinstance(x, int) and not isinstance(x, bool) and t.op in ("any", "first", "last", "compr", "bool", "ite", "agg") else str(x).split("::")[-1])
    if t.op == "c":
        v = t.a[1]
        return repr(v) if t.a[0] == "s" else str(v).split("::")[-1]
    if t.op == "poly":
        if not t.a[0]: return "0"
        r = []
        for m, c in t.a[0][:8]:
            x = "*".join(s(a) + ("^%d" % e if e != 1 else "") for a, e in m)
            r.append((str(c) if not x else (x if c == 1 else ("-" + x if c == -1 else "%s*%s" % (c, x)))))
        if len(t.a[0]) > 8: r.append("…")
        return "(" + "+".join(r) + ")" if len(r) > 1 else r[0]
    if t.op == "f": return "%s.%s" % (s(t.a[0]), t.a[1])
    if t.op == "ix": return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if t.op == "iv": return "i%s" % t.a[1] if t.a[0] == "r" else "w%s" % t.a[1]
    if t.op == "phi": return "phi" + str(t.id)
    if t.op == "comp": return s(t.a[0]) + "." + "xyzw"[t.a[1]]
    if t.op == "sym": return str(t.a[0])
    if t.op == "call": return "%s(%s)" % (t.a[0].split("::")[-1], ",".join(s(x) for x in t.a[1:]))
    if t.op == "bool": return showf(t.a[0], depth - 1)
    if t.op == "ite": return "(%s ? %s : %s)" % (showf(t.a[0], depth - 1), s(t.a[1]), s(t.a[2]))
    if t.op == "gt0": return "%s>0" % s(t.a[0])
    if t.op == "eq": return "%s==%s" % (s(t.a[0]), s(t.a[1]))
    if t.op == "truth": return s(t.a[0])
    return "%s(%s)" % (t.op, ",".join(s(x) for x in t.a))


def showf(f, depth=4):
    if f == 1: return "true"
    if f == 0: return "false"
    # list cubes (up to 4)
    cubes = []
    def rec(x, acc):
        if len(cubes) > 4: return
        if x == 0: return
        if x == 1: cubes.append(acc); return
        v, lo, hi = B.nodes[x]
        rec(hi, acc + [show(B.atoms[v], depth)])
        rec(lo, acc + ["!" + show(B.atoms[v], depth)])
    rec(f, [])
    return " | ".join(" & ".join(c) if c else "true" for c in cubes[:4]) + (" | …" if len(cubes) > 4 else "")
