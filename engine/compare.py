"""Comparison of two denotations (implementation against specification program).

Both are value-numbered by the same analysis; what is compared is
  * the result,
  * the net effect on every location / container / stream,
  * the relative order of effects that do not commute.
"""
import copy
from terms import *
from randint import indistinct
from interp import *
import terms as TM

DROP = {"pure", "new"}


class Ev:
    __slots__ = ("kind", "name", "args", "guard", "loops", "loc", "src", "cls")

    def key(self):
        return (self.kind, self.name, self.args, self.guard,
                tuple((L.uid, L.exit) for L in self.loops))


def console(t):
    return t.op == "sym" and ("cout" in str(t.a[0]) or "cerr" in str(t.a[0]) or "clog" in str(t.a[0]))


def islog(t): return t.op == "new" and t.a[0].startswith("CppUtils::LOG")


def target(e): return e.args[0] if e.args else None


MUT = {"store", "append", "clear", "assign", "remove", "erase", "insert", "sort", "resize", "fill", "reverse", "splice", "pop_back", "concat", "swap", "remove_if", "grow"}


def normal(den, keep=None, ret=True):
    evs = []
    for e in den.effects:
        if e.kind in DROP: continue
        if e.kind == "out" and (console(e.args[0]) or islog(e.args[0])): continue
        if e.kind == "call" and e.name.startswith(("CppUtils::LOG", "std::basic_ostream::flush")): continue
        if e.args and isinstance(e.args[0], T) and islog(e.args[0]): continue
        x = Ev()
        x.kind, x.name, x.args, x.guard, x.loops, x.loc, x.src = e.kind, e.name, e.args, e.guard, e.loops, e.loc, e
        if e.kind == "throw": x.args = ()
        evs.append(x)
    # an assignment of the value a member has at entry changes nothing
    out, stored = [], set()
    for x in evs:
        if x.kind == "store" and len(x.args) == 2 and x.name not in stored and isinstance(x.args[1], T):
            old, v = mkf(x.args[0], x.name), x.args[1]
            if v is old: continue
            if v.op == "ite":
                keep_ = 0
                def leaves(t, f):
                    nonlocal keep_
                    if t.op == "ite":
                        leaves(t.a[1], B.AND(f, t.a[0]))
                        leaves(t.a[2], B.AND(f, B.NOT(t.a[0])))
                    elif t is old: keep_ = B.OR(keep_, f)
                leaves(v, 1)
                if keep_:
                    x.guard = B.AND(x.guard, B.NOT(keep_))
                    if unsat(x.guard): continue
                    x.args = (x.args[0], under(v, B.NOT(keep_)))
        if x.kind == "store": stored.add(x.name)
        if x.kind == "call": stored.add(x.name)
        out.append(x)
    evs = out
    for x in decided(evs): grown(x)
    # effects on objects that never leave the function are not observable
    def roots(t, acc):
        for s in subterms(t):
            if s.op == "new": acc.add(s)
    live = set()
    if ret and isinstance(den.ret, T): roots(den.ret, live)
    changed = True
    kept = set()
    def local_target(x):
        if (x.kind not in MUT and x.kind != "out") or not x.args: return None
        t = x.args[0]
        if x.kind == "out" and not (t.op == "new" and "stringstream" in t.a[0]): return None
        while t.op in ("f", "ix"): t = t.a[0]
        return t if t.op == "new" and not inserted(t) else None
    ins = {x.src.val for x in evs if x.kind == "insert" and x.src.val is not None}
    def inserted(t): return t in ins
    while changed:
        changed = False
        for i, x in enumerate(evs):
            if i in kept: continue
            lt = local_target(x)
            if lt is not None and lt not in live: continue
            kept.add(i)
            changed = True
            for a in x.args:
                if isinstance(a, T): roots(a, live)
            for a in B.support(x.guard): roots(a, live)
    evs = [x for i, x in enumerate(evs) if i in kept]
    if keep is not None: evs = [x for x in evs if keep(x)]
    return net(joinout(overwritten(evs)))


def grown(x):
    """one value appended so many times, however it is written"""
    if x.kind == "append" and len(x.args) == 2 and x.loops and x.name in ("push_back", "emplace_back", "append"):
        L = x.loops[-1]
        i = IV(L.uid)
        if L.partial or L.exit != 0 or not isinstance(L.lo, T) or not isinstance(L.hi, T) or i in free(x.args[1]) or any(i in free(t) for t in B.support(x.guard)): return
        if contains(x.args[1], lambda s: s.op in ("new", "phi")): return
        x.kind, x.name, x.args, x.loops = "grow", "grow", (x.args[0], sub(L.hi, L.lo), x.args[1]), x.loops[:-1]
    elif x.kind == "resize" and len(x.args) == 3:
        n, k = mk("size", x.args[0]), sub(x.args[1], mk("size", x.args[0]))
        if n not in set(subterms(k)): x.kind, x.name, x.args = "grow", "grow", (x.args[0], k, x.args[2])


def joinout(evs):
    """adjacent constant text on one stream is one piece of text"""
    out, last = [], {}
    cs = lambda t: t.op == "c" and t.a[0] == "s"
    for x in evs:
        if x.kind == "out":
            p = last.get(x.args[0])
            if p is not None and cs(x.args[1]) and cs(p.args[1]) and p.guard == x.guard and p.loops == x.loops:
                p.args = (p.args[0], mk("c", "s", p.args[1].a[1] + x.args[1].a[1]))
                continue
            last[x.args[0]] = x
        elif x.kind == "call": last.clear()
        out.append(x)
    return out


def overwritten(evs):
    """leave out stores in a loop whose location is set anew after the loop before anyone can look"""
    dead = set()
    for i, x in enumerate(evs):
        if x.kind != "store" or not x.loops or x.name in ("=", "[]"): continue
        for j in range(i + 1, len(evs)):
            k = evs[j]
            if k.kind in ("call", "throw"): break
            if k.kind == "store" and k.name == x.name and k.args[0] is x.args[0] and len(k.loops) < len(x.loops) and all(a.uid == b.uid for a, b in zip(k.loops, x.loops)):
                L = x.loops[len(k.loops)].uid
                if implies(x.guard, k.guard) and not any(y.kind in ("call", "throw") and any(l.uid == L for l in y.loops) for y in evs): dead.add(i)
                break
    return [x for i, x in enumerate(evs) if i not in dead]



def seen_by(x, field, obj):
    """the called function may look at (or change) this member"""
    fs = P.byq.get(x.name) if P is not None else None
    if not fs or any(f.get("body") is None for f in fs) or any(field in P.mentions(f["f"]) for f in fs): return True
    at = mkf(obj, field)
    return any(at in set(subterms(a)) for a in x.args if isinstance(a, T))


def net(evs):
    """merge successive stores to one location"""
    out = []
    last = {}
    for x in evs:
        if x.kind == "throw": last.clear()
        if x.kind == "call":
            for k in [k for k in last if seen_by(x, k[0], k[1])]: del last[k]
        if x.kind == "store" and x.name not in ("=", "[]") and isinstance(x.args[1], T):
            k = (x.name, x.args[0], tuple(L.uid for L in x.loops))
            p = last.get(k)
            if p is not None:
                g = B.OR(p.guard, x.guard)
                v = ite(x.guard, x.args[1], p.args[1]) if not implies(p.guard, x.guard) else x.args[1]
                v = cofactor_ite(v, g)
                out.remove(p)
                x.args = (x.args[0], v)
                x.guard = g
            else: x.args = (x.args[0], cofactor_ite(x.args[1], x.guard))
            last[k] = x
        out.append(x)
    return out


def settled(t, g):
    """minima and maxima the guard has already decided"""
    def least(s):
        if s.op not in ("min", "max") or len(s.a) != 2: return s
        d = sub(s.a[0], s.a[1])
        up = implies(g, B.NOT(gt0(neg(d)))) or implies(g, B.NOT(gt0(neg(d), True)))
        dn = implies(g, B.NOT(gt0(d))) or implies(g, B.NOT(gt0(d, True)))
        if up == dn: return s
        return s.a[0] if up == (s.op == "max") else s.a[1]
    return rebuild(t, least, {})


def decided(evs):
    for x in evs:
        if x.guard > 1 and any(isinstance(t, T) and contains(t, lambda z: z.op in ("min", "max")) for t in x.args):
            x.args = tuple(settled(t, x.guard) if isinstance(t, T) else t for t in x.args)
    return evs


def cofactor_ite(v, g):
    """simplify a selected value under the condition it is stored"""
    while v.op == "ite":
        if implies(g, v.a[0]): v = v.a[1]
        elif implies(g, B.NOT(v.a[0])): v = v.a[2]
        else: break
    return v


def classes(x):
    """conflict classes an effect belongs to"""
    if x.kind == "store": return {"s:" + x.name}
    if x.kind == "out": return {"o"}
    if x.kind in ("insert", "remove", "update", "clear_waste", "sort") and x.name.startswith("TQMesh::"): return {"c:" + x.name}
    if x.kind in ("append", "clear", "assign", "remove", "erase", "insert", "sort", "resize", "fill", "reverse", "splice", "pop_back", "concat", "swap", "remove_if", "grow"):
        t = x.args[0]
        return {"l:" + (t.a[1] if t.op == "f" else "%s#%d" % (t.a[0], t.id) if t.op == "new" else "?")}
    if x.kind == "call": return {"*"}
    if x.kind == "throw": return {"*"}
    if x.kind == "delete": return {"d"}
    return {"k:" + x.kind}


def same(x, y):
    if (x.kind, x.name) != (y.kind, y.name) or len(x.args) != len(y.args): return False
    if len(x.loops) != len(y.loops): return False
    for a, b in zip(x.loops, y.loops):
        if a.uid != b.uid or not equiv(a.exit, b.exit): return False
    for a, b in zip(x.args, y.args):
        if a is not b and not (isinstance(a, T) and isinstance(b, T) and eqv(a, b, x.guard)): return False
    return x.guard == y.guard or equiv(x.guard, y.guard)


def eqv(a, b, g=1):
    if a is b: return True
    if isb(a) and isb(b): return equiv(fm(a), fm(b)) or g != 1 and equiv(B.AND(g, fm(a)), B.AND(g, fm(b)))
    if a.op == "vec" and b.op == "vec" and len(a.a) == len(b.a): return all(eqv(x, y, g) for x, y in zip(a.a, b.a))
    # selected values: equal under every selector outcome
    def cases(t, f, acc, n=0):
        if t.op == "ite" and n < 12:
            cases(t.a[1], B.AND(f, t.a[0]), acc, n + 1)
            cases(t.a[2], B.AND(f, B.NOT(t.a[0])), acc, n + 1)
        else: acc.append((f, t))
    if a.op == "ite" or b.op == "ite":
        ca, cb = [], []
        cases(a, g, ca)
        cases(b, g, cb)
        for f, x in ca:
            for h, y in cb:
                if x is y: continue
                if isb(x) and isb(y) and equiv(B.AND(f, h, fm(x)), B.AND(f, h, fm(y))): continue
                if x.op != "ite" and y.op != "ite" and x.op == y.op and len(x.a) == len(y.a) and eqargs(x, y, B.AND(f, h)): continue
                if unsat(B.AND(f, h)): continue
                if not tied(x, y, B.AND(f, h)): return False
        return True
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("poly", "c") and eqargs(a, b, g): return True
    if a.op == "poly" and b.op == "poly" and polyeq(a, b, g): return True
    return samenum(a, b, g)


def tied(x, y, g):
    """two numbers between which the guard leaves no difference"""
    if x.op in ("c", "vec", "bool", "obj", "new") or y.op in ("c", "vec", "bool", "obj", "new") or len(B.support(g)) > 10: return False
    if isb(x) or isb(y): return False
    d = sub(x, y)
    if not any(a.op == "gt0" and (sub(a.a[0], d) is ZERO or add(a.a[0], d) is ZERO) for a in B.support(g)): return False
    return valid(B.OR(B.NOT(g), B.AND(B.NOT(gt0(d)), B.NOT(gt0(neg(d))))))


def polyeq(a, b, g):
    """polynomials over parts that are equal in pairs"""
    ats = lambda t: {x for m, c in t.a[0] for x, e in m}
    A, C = ats(a), ats(b)
    if len(a.a[0]) != len(b.a[0]) or len(A) != len(C): return False
    A, C = sorted(A - C), sorted(C - A)
    if not A or len(A) > 4: return False
    m = {}
    for x in A:
        hit = [y for y in C if y not in m.values() and x.op == y.op and eqv(x, y, g)]
        if not hit: return False
        m[x] = hit[0]
    return replace(a, m) is b


SAMENUM = {}


def samenum(a, b, g):
    """numbers that are the same in every case of the minima and maxima they are made of"""
    if not any(contains(t, lambda s: s.op in ("min", "max")) for t in (a, b)): return False
    if not all(t.op in ("poly", "min", "max", "f", "call", "sym", "size", "iv", "ix", "agg", "ph", "phi") for t in (a, b)): return False
    k = (a.id, b.id, g)
    if k not in SAMENUM:
        d = sub(a, b)
        SAMENUM[k] = sum(1 for s in subterms(d) if s.op in ("min", "max")) <= 4 and len(B.support(g)) <= 12 and valid(B.OR(B.NOT(g), B.AND(B.NOT(gt0(d)), B.NOT(gt0(neg(d))))))
    return SAMENUM[k]


def eqargs(a, b, g):
    if a.op in ("poly", "c"): return False
    if a.op in ("min", "max") and a.op == b.op:
        A, C = [x for x in a.a if x not in b.a], [x for x in b.a if x not in a.a]
        if len(A) != len(C) or len(A) > 4: return False
        for x in A:
            hit = [y for y in C if eqv(x, y, g)]
            if not hit: return False
            C.remove(hit[0])
        return True
    for x, y in zip(a.a, b.a):
        if x is y or x == y: continue
        if isinstance(x, T) and isinstance(y, T) and eqv(x, y, g): continue
        if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) and a.op in ("ite", "any", "first", "last", "compr", "gv", "bool") and equiv(x, y): continue
        return False
    return True


IMPRECISE = {"loopout", "brk", "unk"}


# what the analysis has a meaning for: a difference that involves anything else decides nothing
OPS = set("""abs acos agg any approx approx0 atan2 bit bool bor c call cat comp compr cont cos deref eq exc exp f fill first flags fmt
gt0 gv idiv insiter inv ite iter iv ix last max min mod multi mut new obj pred out ph phi poly rem seq sin size sqrt sym trunc truth tup vec""".split())
KINDS = set("""append assign call clear clear_waste delete erase fill insert new out pop_back pure remove resize sort splice store throw
update concat reverse swap remove_if grow""".split())


SHARED = set()      # unknown values both sides speak of: the same unknown


def unknown(s): return s.op not in OPS or s.op == "sym" and str(s.a[0]).startswith("unk@")


def vague(t): return contains(t, lambda s: unknown(s) and s not in SHARED)


def unknowns(evs, ret):
    out, seen = set(), set()
    for t in [a for x in evs for a in x.args if isinstance(a, T)] + [t for x in evs for t in B.support(x.guard)] + ([ret] if isinstance(ret, T) else []):
        for s in subterms(t, seen):
            if unknown(s): out.add(s)
    return out


def imprecise(x):
    return x.kind not in KINDS or any(vague(t) for t in [a for a in x.args if isinstance(a, T)] + B.support(x.guard))


def carried(evs, ret):
    """number of loop-carried values no closed form was found for, and the constructs little is known about"""
    out, weak = set(), set()
    for x in evs:
        if x.kind == "call" and x.name.startswith("std::"): weak.add(x.name)
    for t in [a for x in evs for a in x.args if isinstance(a, T)] + [t for x in evs for t in B.support(x.guard)] + ([ret] if isinstance(ret, T) else []):
        for s in subterms(t):
            if s.op == "phi": out.add(s)
            elif s.op in ("deref", "insiter", "erasedit"): weak.add(s.op)
            elif s.op == "ix" and len([1 for m in pd(s.a[1]) if m and m[0][0].op == "iv"]) > 1: weak.add("pairs of one loop's indices")
            elif s.op == "size" and s.a[0].op in ("out", "mut", "new"): weak.add("size of " + s.a[0].op)
            elif s.op == "call" and (s.a[0].startswith("std::") or "::" not in s.a[0]): weak.add(s.a[0])
    return len(out), weak


class Diff:
    absent = None
    def __init__(self, what, where, detail, imprecise=False, names=frozenset(), ev=None):
        self.ev = ev
        self.what, self.where, self.detail, self.imprecise, self.names = what, where, detail, imprecise, frozenset(names)

    def __repr__(self): return "%s at %s: %s" % (self.what, self.where, self.detail)


def locals_of(evs, ret):
    """objects created by the function, in order of first use"""
    out = {}
    def see(t):
        if isinstance(t, T):
            for s in subterms(t):
                if s.op == "new": out.setdefault(s, len(out))
    for x in evs:
        for a in x.args: see(a)
        for a in B.support(x.guard): see(a)
    see(ret)
    return list(out)


def signatures(evs, objs):
    """what happens to each local object, irrespective of its name"""
    blank = {o: mk("sym", "local:" + str(o.a[0])) for o in objs}
    sig = {o: [] for o in objs}
    memo = {}
    def mask(t, me):
        k = (t, me)
        if k not in memo: memo[k] = replace(t, {**blank, me: mk("sym", "me")}) if isinstance(t, T) else t
        return memo[k]
    for x in evs:
        used = set()
        for a in x.args:
            if isinstance(a, T): used |= {s for s in subterms(a) if s.op == "new" and s in sig}
        for o in used:
            sig[o].append((x.kind, x.name, tuple((mask(a, o).id if isinstance(a, T) else str(a)) for a in x.args), len(x.loops)))
    return {o: tuple(sorted(map(str, l))) for o, l in sig.items()}


def payload(o):
    """what a library object of the function's own starts with"""
    if not str(o.a[0]).split("local:")[-1].startswith("std::"): return ()
    l = tuple(t for t in o.a[2:] if isinstance(t, T) and t.op != "iv" and not (t.op == "sym" and t.a[0] == "alloc"))
    if len(l) == 2 and "std::vector<" in o.a[0]:
        n = numval(l[0])
        if n is not None and 0 <= n <= 16: l = (mk("seq", *[l[1]] * int(n)),)
    return () if len(l) == 1 and l[0].op == "seq" and not l[0].a else l


def rename_locals(a, b, ra, rb, started=None):
    """align the function's own objects by what is done to them"""
    oa, ob = locals_of(a, ra), locals_of(b, rb)
    if len(oa) < 2 and len(ob) < 2: return b, rb
    sa, sb = signatures(a, oa), signatures(b, ob)
    idx = {}
    for o in oa: idx.setdefault((o.a[0], sa[o]), []).append(o)
    m, taken = {}, set()
    for o in ob:
        l = [x for x in idx.get((o.a[0], sb[o]), []) if x not in taken]
        if l: m[o] = o if o in l else next((x for x in l if payload(x) == payload(o)), l[0]); taken.add(m[o])
    # the rest: in order of first use, per type
    rest = {}
    for o in oa:
        if o not in taken: rest.setdefault(o.a[0], []).append(o)
    for o in ob:
        if o in m: continue
        l = rest.get(o.a[0], [])
        if o in l: m[o] = o; l.remove(o)
    for o in ob:
        if o in m: continue
        l = rest.get(o.a[0], [])
        if l: m[o] = l.pop(0)
        else: m[o] = mk("new", o.a[0], ("extra", o.id))
    m = {k: v for k, v in m.items() if k is not v}
    if not m: return b, rb
    if started is not None:
        for o, p in m.items():
            x, y = payload(p), tuple(replace(t, m) for t in payload(o))
            if p in oa and x != y: started.append((p, x, y))
    for x in b:
        x.args = tuple(replace(t, m) if isinstance(t, T) else t for t in x.args)
        x.guard = replace_f(x.guard, m)
    return b, replace(rb, m) if isinstance(rb, T) else rb


def phis_of(evs, ret):
    out = set()
    for t in [a for x in evs for a in x.args if isinstance(a, T)] + [t for x in evs for t in B.support(x.guard)] + ([ret] if isinstance(ret, T) else []):
        out |= {s for s in subterms(t) if s.op in ("phi", "compr", "first", "last")}
    for x in evs:
        for L in x.loops:
            for t in L.uid:
                if isinstance(t, T): out |= {s for s in subterms(t) if s.op in ("phi", "compr", "first", "last")}
    return out


def align_phis(a, b, ra, rb):
    """loop-carried values with the same first value and an equivalent update are the same"""
    for _ in range(6):
        pa, pb = phis_of(a, ra), phis_of(b, rb)
        xa, xb = sorted(pa - pb, key=lambda t: t.id), sorted(pb - pa, key=lambda t: t.id)
        if not xa or not xb or len(xa) * len(xb) > 64: break
        m = {}
        for q in xb:
            for p in xa:
                if p.op == q.op and p not in m.values() and len(p.a) == len(q.a) and eqargs(p, q, 1): m[q] = p; break
        if not m: break
        seen = {}
        for x in b:
            x.args = tuple(replace(t, m) if isinstance(t, T) else t for t in x.args)
            x.guard = replace_f(x.guard, m)
            ls = []
            for L in x.loops:
                if id(L) not in seen:
                    n = copy.copy(L)
                    n.uid = tuple(replace(t, m) if isinstance(t, T) else t for t in L.uid)
                    n.exit = replace_f(L.exit, m)
                    seen[id(L)] = (L, n)
                ls.append(seen[id(L)][1])
            x.loops = tuple(ls)
        if isinstance(rb, T): rb = replace(rb, m)
    return b, rb


def rebuilt(a, b, ra, rb):
    """a loop carries a value that starts and goes on otherwise than any value of the specification does: the loop is another one"""
    pa, pb = [{t for t in phis_of(e, r) if t.op == "phi"} for e, r in ((a, ra), (b, rb))]
    for p in pa - pb:
        near = False
        for q in pb - pa:
            if len(p.a) != len(q.a): continue
            # distances and their squares order alike
            if contains(p, lambda s: s.op == "sqrt") != contains(q, lambda s: s.op == "sqrt"): continue
            m = {p.a[0]: q.a[0]} if p.a and isinstance(p.a[0], T) and isinstance(q.a[0], T) and p.a[0].op == q.a[0].op == "iv" else {}
            n = sum(not (x is y or x == y or isinstance(x, T) and isinstance(y, T) and eqv(replace(x, m) if m else x, y)) for x, y in zip(p.a, q.a))
            if n <= 1: near = True; break
        if not near: return True
    return False


def special(evs, m):
    """the effects where conditions have the given truth values"""
    out, seen = [], {}
    for x in evs:
        y = copy.copy(x)
        out.append(y)
        if not m: continue
        rs = {IV(L.uid): sub(L.hi, L.lo) for L in x.loops if not L.partial and isinstance(L.hi, T) and isinstance(L.lo, T)}
        rs = {k: v for k, v in rs.items() if k not in TM.RANGES}
        TM.RANGES.update(rs)
        g = replace_f(x.guard, m)
        y.guard, y.args = g, tuple(replace(t, m) if isinstance(t, T) else t for t in x.args)
        ls = []
        for L in x.loops:
            if id(L) not in seen:
                n = copy.copy(L)
                n.uid, n.exit = tuple(replace(t, m) if isinstance(t, T) else t for t in L.uid), replace_f(L.exit, m)
                seen[id(L)] = (L, n)
            ls.append(seen[id(L)][1])
        y.loops = tuple(ls)
        for k in rs: del TM.RANGES[k]
        if g == 0: out.pop()
    return out


def choices(diffs):
    """conditions that hold or not throughout, by which values are selected inside loops"""
    out = {}
    for d in diffs:
        if d.ev is None or not d.ev.loops: continue
        for t in [a for a in d.ev.args if isinstance(a, T)] + B.support(d.ev.guard):
            for s in subterms(t):
                if s.op == "ite":
                    for c in B.support(s.a[0]):
                        if not contains(c, lambda z: z.op in ("iv", "phi")): out[c] = out.get(c, 0) + 1
    return sorted(out, key=lambda c: (-out[c], c.id))


def certain(impl, a0, b0, ir, sr, ret, order, diffs):
    """differences that stand although not all values involved are known"""
    out = []
    # a call the code makes nowhere (or nowhere in a loop)
    have = {(x.name, bool(x.loops)) for x in a0 if x.kind == "call"}
    for d in diffs:
        y = d.ev
        if d.what != "required effect missing" or y is None or y.kind != "call" or y.name.startswith("std::") or y.guard == 0: continue
        if (y.name, True) in have or not y.loops and (y.name, False) in have: continue
        out.append(Diff(d.what, d.where, d.detail, False, ev=y))
        out[-1].absent = y.name
    # always the same answer
    if ret and kind(impl.fn.get("rt", "")) == "bool" and isinstance(ir, T) and isinstance(sr, T) and fm(ir) in (0, 1) and fm(sr) not in (0, 1):
        out += [Diff(d.what, d.where, d.detail) for d in diffs if d.what == "result differs"]
    # a value that has to change from one step to the next stays as it starts
    if not out and any(d.ev is not None for d in diffs):
        qs = sorted((q for q in phis_of(b0, None) if q.op == "phi" and len(q.a) >= 3), key=lambda t: t.id)
        for q in qs[:6]:
            m = {q: q.a[1]}
            exits = [L.exit for x in b0 for L in x.loops if IV(L.uid) is q.a[0]]
            on = 1
            for e in exits[:1]: on = B.NOT(replace_f(e, m))
            if eqv(replace(q.a[2], {mk("sym", "self"): q.a[1]}), q.a[1], on): continue
            try: rest = compare1(impl, special(a0, {}), special(b0, m), None, None, False, order)
            except Giveup: continue
            if not rest:
                out.append(Diff("value never updated", impl.fn["l"], "what starts as %s and must become %s in every step stays as it starts" % (show(q.a[1]), show(q.a[2]))))
                break
    return out


def compare(impl, spec, keep=None, ret=True, order=True):
    """list of Diff"""
    a, b = normal(impl, keep, ret), normal(spec, keep, ret)
    a0, b0 = special(a, {}), special(b, {})
    diffs = compare2(impl, spec, a, b, a0, b0, ret, order)
    if diffs and all(d.imprecise for d in diffs): return certain(impl, a0, b0, impl.ret, spec.ret, ret, order, diffs) + diffs
    return diffs


def compare2(impl, spec, a, b, a0, b0, ret, order):
    diffs = compare1(impl, a, b, impl.ret, spec.ret, ret, order)
    cs = choices(diffs)
    if not diffs or not cs or len(cs) > 3: return diffs
    for k in range(1 << len(cs)):
        m = {c: TRUE if k >> i & 1 else FALSE for i, c in enumerate(cs)}
        sp = lambda t: replace(t, m) if isinstance(t, T) else t
        if compare1(impl, special(a0, m), special(b0, m), sp(impl.ret), sp(spec.ret), ret, order): return diffs
    return []


def compare1(impl, a, b, ir, sr, ret, order):
    diffs = []
    # helper objects one side has more of: what is done through them is named differently
    ta, tb = [{}, {}]
    for evs, r, n in ((a, ir, ta), (b, sr, tb)):
        for o in locals_of(evs, r if ret else None):
            if str(o.a[0]).split("local:")[-1].startswith("std::"): n[o.a[0]] = n.get(o.a[0], 0) + 1
    odd = {t for t in set(ta) | set(tb) if ta.get(t, 0) != tb.get(t, 0)}
    through = lambda ts: bool(odd) and any(contains(t, lambda z: z.op == "new" and z.a[0] in odd) for t in ts if isinstance(t, T))
    started = []
    b, sr = rename_locals(a, b, ir if ret else None, sr if ret else None, started)
    b, sr = align_phis(a, b, ir if ret else None, sr)
    SHARED.clear()
    SHARED.update(unknowns(a, ir if ret else None) & unknowns(b, sr if ret else None))
    if ret:
        r, s = ir, sr
        if kind(impl.fn.get("rt", "")) == "bool" and isinstance(r, T) and isinstance(s, T): r, s = boolt(fm(r)), boolt(fm(s))
        # a result only counts on paths that return
        thrown = 0
        for x in impl.effects:
            if x.kind == "throw" and x.caught is None and not x.loops: thrown = B.OR(thrown, x.guard)
        if isinstance(r, T) and isinstance(s, T) and not eqv(r, s, B.NOT(thrown)):
            if not (r.op == "sym" and s.op == "sym" and r.a[0] in ("void",)):
                parts = [(r, s)]
                if r.op == s.op == "obj" and r.a[0] == s.a[0] and len(r.a) == len(s.a): parts = [(x, y) for x, y in zip(r.a[1:], s.a[1:]) if not eqv(x, y, B.NOT(thrown))] or parts
                for x, y in parts:
                    diffs.append(Diff("result differs", impl.fn["l"], "is %s, must be %s" % (show(x), show(y)), through((x, y)) or x.op != "c" and any(vague(t) for t in (x, y)) or alike(x, y, B.NOT(thrown))))
    for o, x, y in started:
        # the function's own containers: what they start with counts like what is added to them
        if len(x) == len(y) and all(eqv(p, q, 1) for p, q in zip(x, y)): continue
        weak = through((o,)) or any(vague(t) for t in x + y) or len(x) == len(y) and all(eqv(p, q, 1) or alike(p, q, 1) for p, q in zip(x, y))
        for e in a + b:
            if e.args and e.args[0] is o and e.kind not in ("append", "out", "call"): weak = True
        if len([e for e in a if e.args and e.args[0] is o]) != len([e for e in b if e.args and e.args[0] is o]): weak = True
        diffs.append(Diff("contents differ", impl.fn["l"], "%s starts with %s, must start with %s" % (str(o.a[0])[:40], ", ".join(show(t) for t in x) or "nothing", ", ".join(show(t) for t in y) or "nothing"), weak))
    (na, wa), (nb, wb) = carried(a, ir if ret else None), carried(b, sr if ret else None)
    other_loops = na != nb or bool(wa - wb) or rebuilt(a, b, ir if ret else None, sr if ret else None)
    # match
    un_b = list(range(len(b)))
    pairs = []
    idx = {}
    for j, y in enumerate(b): idx.setdefault((y.kind, y.name, len(y.args)), []).append(j)
    free_b = set(un_b)
    lost = []
    for i, x in enumerate(a):
        hit = None
        for j in idx.get((x.kind, x.name, len(x.args)), []):
            if j in free_b and same(x, b[j]): hit = j; break
        if hit is None: lost.append(i)
        else:
            free_b.discard(hit)
            pairs.append((i, hit))
    for i in lost:
        x = a[i]
        # guards of several equal effects may be split differently: merge by everything but the guard
        diffs.append(Diff("effect not allowed", x.loc, describe(x), imprecise(x), ev=x))
    for j in sorted(free_b):
        y = b[j]
        diffs.append(Diff("required effect missing", impl.fn["l"], describe(y), imprecise(y), ev=y))
    if diffs:
        diffs = [x for x in diffs if x.what in ("result differs", "contents differ")] + regroup(a, b, lost, free_b, diffs, impl)
    if not diffs and order:
        pr = sorted(pairs)
        cls = [(classes(a[i]), i, j) for i, j in pr]
        done = False
        for n, (k, i, j) in enumerate(cls):
            if done: break
            for k2, i2, j2 in cls[:n]:
                if j2 < j or not conflict(k, k2) or commute(a[i], a[i2]): continue
                if a[i].loops[:1] == a[i2].loops[:1] or [L.uid for L in a[i].loops[:1]] == [L.uid for L in a[i2].loops[:1]]:
                    if unsat(B.AND(a[i].guard, a[i2].guard)): continue
                elif unsat(B.AND(outside(a[i].guard), outside(a[i2].guard))): continue
                diffs.append(Diff("order of effects changed", a[i].loc, describe(a[i]) + " and " + describe(a[i2]), elsewhere(a[i], a[i2]), names={x.name for x in (a[i], a[i2]) if x.kind == "call"}))
                done = True
                break
    if odd:
        for d in diffs:
            if d.ev is not None and through(list(d.ev.args) + B.support(d.ev.guard)): d.imprecise = True
    if other_loops:
        for d in diffs: d.imprecise = True
    # effects that differ in the form of a number only
    for d in diffs:
        if d.imprecise or d.ev is None or d.what != "effect not allowed": continue
        x = d.ev
        for e in diffs:
            if e.imprecise or e.ev is None or e.what != "required effect missing": continue
            y = e.ev
            if (x.kind, x.name, len(x.args), len(x.loops)) != (y.kind, y.name, len(y.args), len(y.loops)) or not all(L.uid == M.uid and equiv(L.exit, M.exit) for L, M in zip(x.loops, y.loops)) or not equiv(x.guard, y.guard): continue
            if all(s is t or isinstance(s, T) and isinstance(t, T) and (eqv(s, t, x.guard) or alike(s, t, x.guard)) for s, t in zip(x.args, y.args)):
                d.imprecise = e.imprecise = True
                break
    return diffs


def alike(x, y, g):
    """numbers no random interpretation tells apart (never a reason to pass, only not to alarm)"""
    if any(isb(t) or t.op in ("bool", "obj") for t in (x, y)): return False
    return indistinct(x, y, g)


def outside(g):
    """what a guard says about everything but the iteration"""
    for a in B.support(g):
        if any(x.op in ("iv", "phi") for x in free_deep(a)): g = B.OR(B.quant(g, a, 0), B.quant(g, a, 1))
    return g


def elsewhere(x, y):
    """an assignment to one object and a call that is not given that object: whether they interfere is not known"""
    for a, b in ((x, y), (y, x)):
        if a.kind == "store" and b.kind == "call" and a.args[0] not in b.args: return True
    # two elements of one array: whether they are the same one is not known
    return x.kind == y.kind == "store" and x.name == y.name == "[]" and x.args[0] is y.args[0] and x.args[1] is not y.args[1]


def conflict(k, k2):
    if k & k2: return True
    ex = lambda x: not any(c.startswith("k:") for c in x)
    return "*" in k and ex(k2) or "*" in k2 and ex(k)


QUIET = ("::remove_triangle", "::remove_quad", "::remove_interior_edge", "::remove_boundary_edge", "::remove_vertex", "::update_metrics", "::update_front_state", "::clear_waste")


P = None            # the program; set by the rules


def touched(q):
    """(member, type) of everything a function may read or write, through all it calls"""
    memo = P.__dict__.setdefault("touch_memo", {})
    if not memo:
        from rules import walk
        byq, direct, calls = {}, {}, {}
        for k, f in P.funs.items(): byq.setdefault(f["q"], []).append(k)
        dtors = [k for k, f in P.funs.items() if f["n"].startswith("~")]
        over = {}
        for k, f in P.funs.items():
            for o in f.get("over") or (): over.setdefault(o, []).append(k)
        ctors = {}
        for k, f in P.funs.items():
            if f.get("cls") and f["n"] == f["cls"].split("::")[-1].split("<")[0]: ctors.setdefault(f["cls"], []).append(k)
        for k, f in P.funs.items():
            m, c = set(), set(dtors)
            for i in f.get("inits") or ():
                if "m" in i: m.add((i["m"], strip(i.get("mt", ""))))
            for e in walk(f.get("body"), f.get("inits")):
                if e["k"] == "mem": m.add((e["n"], strip(e.get("t", ""))))
                r = e.get("f")
                if isinstance(r, dict) and "f" in r:
                    c.add(r["f"])
                    c.update(over.get(r["f"], ()))
                    if r.get("n", "") in ("make_unique", "make_shared") or r.get("n", "").startswith("emplace"):
                        for cl, l in ctors.items():
                            if cl in e.get("t", "") + r["f"]: c.update(l)
                if e["k"] in ("new", "ctor", "construct"):
                    for cl, l in ctors.items():
                        if strip(e.get("t", "")).replace(" *", "").split("<")[0] == cl: c.update(l)
            direct[k], calls[k] = m, {x for x in c if x in P.funs}
        memo["#"] = (byq, direct, calls)
    byq, direct, calls = memo["#"]
    if q in memo: return memo[q]
    if q not in byq: return None
    seen, work, out = set(), list(byq[q]), set()
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k)
        out |= direct[k]
        work += calls[k]
    memo[q] = out
    return out


def apart(x, y):
    """an assignment of a member and a call that never looks at that member"""
    for a, b in ((x, y), (y, x)):
        if b.kind != "call": continue
        t = touched(b.name)
        if t is None: continue
        if a.kind == "store" and getattr(a.src, "ft", None): return (a.name, a.src.ft) not in t
        if a.kind in MUT and a.kind != "store" and a.args[0].op == "f": return a.args[0].a[1] not in {m for m, _ in t}
        if a.kind == "call":
            u = touched(a.name)
            return u is not None and not (u & t)
    return False


def commute(x, y):
    """two effects of one class whose order cannot be observed"""
    if P is not None and apart(x, y): return True
    if x.kind == y.kind == "store" and x.name not in ("=",): return x.args[0] is not y.args[0] or x.args[1] is y.args[1]
    if x.kind == y.kind == "remove": return True
    if all((z.name if z.kind == "call" else z.kind).endswith("clear_waste") for z in (x, y)): return x.args[0] is not y.args[0]
    if x.kind == y.kind == "call":
        q = [next((n for n in QUIET if z.name.endswith(n)), None) for z in (x, y)]
        if q[0] and q[1]: return q[0] == q[1] or all(n.startswith("::remove") for n in q)
    return False


def other(k):
    """the second member of a two-valued enumeration"""
    if k.a[0] == "e":
        for b, a in TM.TWO.items():
            if a == k.a[1]: return TM.enum(b)
    return None


def expand(x):
    """an effect on selected values is one effect per selection"""
    def pick(t):
        if not isinstance(t, T): return None
        if t.op == "ite": return t.a[0]
        if t.op == "vec":
            for y in t.a:
                if isinstance(y, T) and y.op == "ite": return y.a[0]
        return None
    def res(t, f, pos):
        if not isinstance(t, T): return t
        if t.op == "vec": return mk("vec", *[res(y, f, pos) for y in t.a])
        while t.op == "ite":
            g = f if pos else B.NOT(f)
            if implies(g, t.a[0]): t = t.a[1]
            elif implies(g, B.NOT(t.a[0])): t = t.a[2]
            else: break
        return t
    work, out = [x], []
    while work:
        y = work.pop()
        f = next((z for z in map(pick, y.args) if z is not None), None)
        if f is None or len(work) + len(out) > 16: out.append(y); continue
        for pos in (True, False):
            g = B.AND(y.guard, f if pos else B.NOT(f))
            if unsat(g): continue
            z = Ev()
            z.kind, z.name, z.guard, z.loops, z.loc, z.src = y.kind, y.name, g, y.loops, y.loc, y.src
            z.args = tuple(res(t, f, pos) for t in y.args)
            work.append(z)
    # a value that is known on part of the guard: one effect per known value
    fin = []
    for x in out:
        work = [x]
        for i, t in enumerate(x.args):
            if not isinstance(t, T) or t.op == "c": continue
            for at in B.support(x.guard):
                if at.op != "eq" or t not in at.a: continue
                k = at.a[0] if at.a[1] is t else at.a[1]
                if k.op != "c": continue
                new = []
                for y in work:
                    f = B.atom(at)
                    for pos in (True, False):
                        g = B.AND(y.guard, f if pos else B.NOT(f))
                        if unsat(g): continue
                        z = Ev()
                        z.kind, z.name, z.guard, z.loops, z.loc, z.src = y.kind, y.name, g, y.loops, y.loc, y.src
                        kk = k if pos else other(k)
                        z.args = tuple(kk if kk is not None and j == i else u for j, u in enumerate(y.args))
                        new.append(z)
                work = new
        fin += work
    return fin


def regroup(a, b, lost, free_b, diffs, impl):
    """effects that occur several times with split guards: compare the union"""
    def group(evs):
        g = {}
        for x in evs:
            k = (x.kind, x.name, x.args, tuple((L.uid) for L in x.loops))
            g.setdefault(k, []).append(x)
        return g
    ga, gb = group([y for i in lost for y in decided(expand(a[i]))]), group([y for j in sorted(free_b) for y in decided(expand(b[j]))])
    for k in set(ga) & set(gb):
        fa, fb = B.OR(*[x.guard for x in ga[k]]), B.OR(*[x.guard for x in gb[k]])
        excl = lambda l: all(unsat(B.AND(l[i].guard, l[j].guard)) for i in range(len(l)) for j in range(i))
        same_exit = all(equiv(L.exit, M.exit) for x in ga[k] for y in gb[k] for L, M in zip(x.loops, y.loops))
        if same_exit and equiv(fa, fb) and excl(ga[k]) and excl(gb[k]):
            del ga[k], gb[k]
    # where the location holds the value already, storing it is as good as leaving it
    for k in list(set(ga) | set(gb)):
        if k[0] != "store" or k[3] or not isinstance(k[2][-1], T) or k[2][-1].op != "c": continue
        old = mkf(k[2][0], k[1]) if len(k[2]) == 2 else mk("ix", k[2][0], k[2][1])
        if any(x.kind == "store" and x.name == k[1] and x.args[:-1] == k[2][:-1] and x.args[-1] is not k[2][-1] for x in a + b): continue
        fa, fb = B.OR(*[x.guard for x in ga.get(k, [])]), B.OR(*[x.guard for x in gb.get(k, [])])
        if unsat(B.AND(B.ite(fa, B.NOT(fb), fb), B.NOT(eq(old, k[2][-1])))):
            ga.pop(k, None)
            gb.pop(k, None)
    # selected targets/values: same location written on complementary paths
    out = []
    for k, l in ga.items():
        for x in l: out.append(Diff("effect not allowed", x.loc, describe(x), imprecise(x), ev=x))
    for k, l in gb.items():
        for x in l: out.append(Diff("required effect missing", impl.fn["l"], describe(x), imprecise(x), ev=x))
    return out


def describe(x):
    return "%s %s(%s) if %s%s" % (x.kind, x.name.split("::")[-1], ", ".join(show(t, 5) if isinstance(t, T) else str(t) for t in x.args), showf(x.guard, 3),
                                  (" for each of %d loops" % len(x.loops)) if x.loops else "")
