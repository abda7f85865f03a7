"""Random interpretation (Gulwani, Necula): two terms that take the same value
under many random interpretations of their symbols are taken for equal as far
as raising an alarm goes.  It never discharges an obligation; a difference it
cannot tell apart is reported as undecided instead of as a violation."""
import math, hashlib
from terms import *


class Skip(Exception): pass


def _h(seed, *k):
    return int.from_bytes(hashlib.md5(repr((seed,) + k).encode()).digest()[:4], "big") / 4294967296.0


class World:
    def __init__(self, seed):
        self.seed = seed
        self.regime = seed % 4
        self.memo = {}
        self.fuel = 60000

    def number(self, key, pos):
        u = _h(self.seed, key)
        if self.regime == 0: v = 0.1 + 2.9 * u
        elif self.regime == 1: v = float(int(u * 4))
        elif self.regime == 2: v = 6.0 * u - 3.0
        else: v = float(int(u * 7)) - 3.0
        return abs(v) if pos else v

    def key(self, v): return round(v, 7) + 0.0 if isinstance(v, float) else v

    def ev(self, t, env):
        k = (t.id, tuple(sorted(env.items())) if env else ())
        r = self.memo.get(k)
        if r is None:
            self.fuel -= 1
            if self.fuel < 0: raise Skip
            r = self.memo[k] = self.ev_(t, env)
        return r

    def num(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, tuple) and v and v[0] == "leaf": v = self.number(v, v[3])
        elif isinstance(v, tuple) and v and v[0] == "iv" and len(v) == 2: v = v[1]
        elif isinstance(v, (bool, int)): v = float(v)
        elif not isinstance(v, float): v = self.number(v, False)
        if v != v or abs(v) > 1e12: raise Skip
        return v

    def formula(self, f, env):
        while f > 1:
            v, lo, hi = B.nodes[f]
            f = hi if self.truth(B.atoms[v], env) else lo
        return f == 1

    def truth(self, a, env):
        if a.op == "gt0": return self.num(a.a[0], env) > 1e-12
        if a.op == "eq":
            x, y = self.ev(a.a[0], env), self.ev(a.a[1], env)
            if isinstance(x, float) and isinstance(y, float): return abs(x - y) <= 1e-12
            # different objects may well be the same one
            return x == y or _h(self.seed, "eq", *sorted((repr(x), repr(y)))) < 0.5
        if a.op == "bool": return self.formula(a.a[0], env)
        if a.op == "any":
            iv = a.a[0]
            return any(self.formula(a.a[1], {**env, iv.id: i}) for i in range(2))
        if a.op == "truth":
            v = self.ev(a.a[0], env)
            if isinstance(v, bool): return v
            return _h(self.seed, "truth", self.key(v)) < 0.5
        v = self.ev(a, env)
        if isinstance(v, bool): return v
        return _h(self.seed, "b", self.key(v)) < 0.5

    def ev_(self, t, env):
        op = t.op
        if op == "poly":
            s = 0.0
            for m, c in t.a[0]:
                p = float(c)
                for x, e in m:
                    v = self.num(x, env)
                    if e < 0 and abs(v) < 1e-9: raise Skip
                    p *= v ** e
                s += p
            return s
        if op in ("min", "max"):
            vs = [self.num(x, env) for x in t.a]
            return min(vs) if op == "min" else max(vs)
        if op == "abs": return abs(self.num(t.a[0], env))
        if op in ("sqrt", "exp", "acos", "sin", "cos"):
            v = self.num(t.a[0], env)
            if op == "sqrt" and v < 0 or op == "acos" and abs(v) > 1: raise Skip
            return getattr(math, op)(v)
        if op == "ite": return self.ev(t.a[1] if self.formula(t.a[0], env) else t.a[2], env)
        if op == "vec": return tuple(self.ev(x, env) for x in t.a)
        if op == "c":
            if t.a[0] == "b": return bool(t.a[1])
            return ("c",) + tuple(t.a)
        if op in ("bool", "gt0", "eq", "any"): return self.truth(t, env)
        if op == "agg" and t.a[0] in ("min", "max", "sum") and len(t.a) == 3:
            vs = []
            for i in range(2):
                x = self.ev(t.a[2], {**env, t.a[1].id: i})
                if x == ("sym", "none"): continue
                vs.append(self.num(t.a[2], {**env, t.a[1].id: i}))
            if t.a[0] == "sum": return sum(vs)
            return (min(vs) if t.a[0] == "min" else max(vs)) if vs else (1e9 if t.a[0] == "min" else -1e9)
        if op in ("first", "last") and len(t.a) == 3 and isinstance(t.a[1], int) and isinstance(t.a[2], T) and isinstance(t.a[0], T) and t.a[0].op == "iv":
            for i in (range(2) if op == "first" else (1, 0)):
                e2 = {**env, t.a[0].id: i}
                if self.formula(t.a[1], e2): return self.ev(t.a[2], e2)
            return ("sym", "none")
        if op == "iv": return ("iv", float(env[t.id])) if t.id in env else ("iv", t.id, "")
        if op == "sym": return ("sym", t.a[0]) if len(t.a) == 1 else ("sym", t.id)
        # anything else: the same function of equal arguments
        args = []
        for x in t.a:
            if isinstance(x, T): args.append(self.key(self.ev(x, env)))
            elif isinstance(x, int) and not isinstance(x, bool) and op in ("first", "last", "compr", "gv"): raise Skip
            else: args.append(repr(x))
        nm = str(t.a[1]) if op == "f" and len(t.a) > 1 else ""
        if op in ("f", "call", "size", "ix", "iter", "obj", "new", "ph", "phi"):
            return ("leaf", op, tuple(args), unsigned(t) or nm in ("length_", "area_"))
        return ("leaf", op, tuple(args), False)

    def value(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, tuple) and v and v[0] == "leaf": return self.number(v, v[3])
        return v


def close(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): return all(close(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, float): return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))
    return x == y


def indistinct(a, b, g=1, n=160):
    """no random interpretation in which the guard holds tells the terms apart"""
    if not (arith(a) or arith(b)): return False
    ok, seen = 0, []
    for seed in range(n):
        w = World(seed)
        try:
            if not w.formula(g, {}): continue
            x, y = w.value(a, {}), w.value(b, {})
            if isinstance(x, float) != isinstance(y, float):
                x, y = w.num(a, {}), w.num(b, {})
        except (Skip, OverflowError, ZeroDivisionError, ValueError, RecursionError): continue
        if not close(x, y): return False
        ok += 1
        seen.append(x)
    # the same thing in all of them: too few to tell
    return ok >= 12 and (isinstance(seen[0], float) or any(x != seen[0] for x in seen))


def arith(t):
    return isinstance(t, T) and contains(t, lambda s: s.op in ("poly", "min", "max", "abs", "sqrt", "exp", "ite"))
