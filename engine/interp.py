"""Gated value-numbering effect analysis.

A function of the resolved program (JSON exported by tqfacts from the clang AST)
is abstracted into
  * its result as a term,
  * an ordered list of guarded effects (stores, primitive calls, throws, output),
each guard being a BDD over atomic conditions, each effect carrying the loops it
is repeated in (iteration space + generic index).
Calls to repository functions are expanded, so helper extraction, inlining,
temporaries, early returns, loop style and condition style do not matter."""
import json, re
from fractions import Fraction
from terms import *
import terms as TM


class Program:
    def __init__(self, path):
        self.funs, self.recs, self.enums, self.byq, self.gvars = {}, {}, {}, {}, {}
        for l in open(path):
            o = json.loads(l)
            if o["K"] == "fun":
                self.funs[o["f"]] = o
                self.byq.setdefault(o["q"], []).append(o)
            elif o["K"] == "rec": self.recs[o["t"]] = o
            elif o["K"] == "gvar": self.gvars[o["g"]] = o
            else: self.enums[o["q"]] = o
        ENUMS.update(self.enums)
        uns = lambda t: strip(t).startswith("unsigned ") and strip(t) in INTS
        TM.UNSIGNED.clear()
        names = {}
        for r in self.recs.values():
            for x in r.get("fields", []): names.setdefault(x["n"], []).append(uns(x["t"]))
        TM.UNSIGNED.update(n for n, v in names.items() if all(v))
        TM.UNSIGNED.update(q for q, v in self.byq.items() if all(uns(f.get("rt", "")) for f in v))
        for q, o in self.enums.items():
            if len(o["v"]) == 2: TM.TWO[q + "::" + o["v"][1]] = q + "::" + o["v"][0]
        self.overrides = {}
        for f in self.funs.values():
            for b in f.get("over", []): self.overrides.setdefault(b, []).append(f)

    def gconst(self, g):
        """initialiser of a global variable that no function of the program changes"""
        if not hasattr(self, "gwritten"):
            self.gwritten = set()
            st = [f.get("body") for f in self.funs.values()]
            while st:
                x = st.pop()
                if isinstance(x, list): st.extend(x)
                elif isinstance(x, dict):
                    t = x.get("a") if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") else \
                        x.get("e") if x.get("k") == "un" and x["op"] in ("++", "--", "&") else None
                    if isinstance(t, dict) and t.get("k") == "ref" and "g" in t: self.gwritten.add(t["g"])
                    st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        o = self.gvars.get(g)
        return None if o is None or g in self.gwritten else o

    def mentions(self, f):
        """data members a function (or what it calls) names"""
        if not hasattr(self, "men"): self.men = {}
        if f not in self.men:
            seen, out, todo = set(), set(), [f]
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x)
                for g in ([self.funs[x]] if x in self.funs else []) + self.overrides.get(x, []):
                    st = [g.get("body"), g.get("inits")]
                    while st:
                        y = st.pop()
                        if isinstance(y, list): st.extend(y)
                        elif isinstance(y, dict):
                            if y.get("k") == "mem": out.add(y["n"])
                            h = y.get("f")
                            if isinstance(h, dict) and h.get("f"): todo.append(h["f"])
                            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
            self.men[f] = out
        return self.men[f]

    def throws(self, body):
        """types of the exceptions that a block, or what it calls, may throw on purpose (allocation apart)"""
        out, st, seen = set(), [body], set()
        while st:
            x = st.pop()
            if isinstance(x, list): st.extend(x)
            elif isinstance(x, dict):
                k, h = x.get("k"), x.get("f")
                if k == "throw" and isinstance(x.get("e"), dict): out.add(strip(x["e"].get("t", "")))
                if isinstance(h, dict) and h.get("f") and h["f"] not in seen:
                    seen.add(h["f"])
                    g = self.funs.get(h["f"])
                    if g is not None: st += [g.get("body"), g.get("inits")]
                    st += [o.get("body") for o in self.overrides.get(h["f"], [])]
                    if re.match(r"std::(__cxx11::)?sto[a-z]+$", h["q"]): out |= {"std::invalid_argument", "std::out_of_range"}
                    elif h["q"].startswith("std::") and h["n"] in ("at", "substr"): out.add("std::out_of_range")
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        return out

    def catches(self, h, t):
        """a handler of type h receives an exception of type t"""
        h = strip(re.sub(r"\bconst\b", "", h)) if h else ""
        if h in ("", "..."): return True
        t = strip(re.sub(r"\bconst\b", "", t))
        up, seen = [t], set()
        while up:
            x = strip(up.pop())
            if x == h: return True
            if x in seen: continue
            seen.add(x)
            up += self.recs.get(x, {}).get("bases", [])
            if x in STDEXC: up.append(STDEXC[x])
        return False

    def writes(self, f):
        """scalar members of its own object that a function (or what it calls on the same object) assigns: name -> type"""
        if not hasattr(self, "wri"): self.wri = {}
        if f not in self.wri:
            seen, out, todo = set(), {}, [f]
            own = lambda t: isinstance(t, dict) and t.get("k") == "mem" and isinstance(t.get("b"), dict) and t["b"].get("k") == "this"
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x)
                for g in ([self.funs[x]] if x in self.funs else []) + self.overrides.get(x, []):
                    st = [g.get("body")]
                    while st:
                        y = st.pop()
                        if isinstance(y, list): st.extend(y)
                        elif isinstance(y, dict):
                            k, h = y.get("k"), y.get("f")
                            t = y.get("a") if k == "bin" and y["op"].endswith("=") and y["op"] not in ("==", "!=", "<=", ">=") else \
                                y.get("e") if k == "un" and y["op"] in ("++", "--") else \
                                y.get("o") if k == "call" and isinstance(h, dict) and h.get("n") in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=") else None
                            if own(t) and kind(t.get("ft", "")) not in ("obj", "cont"): out[t["n"]] = t.get("ft", "")
                            if k == "call" and isinstance(h, dict) and h.get("f") and isinstance(y.get("o"), dict) and y["o"].get("k") == "this": todo.append(h["f"])
                            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
            self.wri[f] = out
        return self.wri[f]

    def accessor(self, f):
        """a function (with all that override it) that changes nothing but its own variables: its calls have no order"""
        if not hasattr(self, "acc"): self.acc = {}
        if f not in self.acc:
            self.acc[f] = False                 # recursion: no
            l = ([self.funs[f]] if self.funs.get(f, {}).get("body") is not None else []) + self.overrides.get(f, [])
            self.acc[f] = bool(l) and all(g.get("body") is not None and self._reads(g["body"]) for g in l)
        return self.acc[f]

    def _reads(self, body):
        st, own = [body], set()
        while st:                               # variables of its own that hold a value
            x = st.pop()
            if isinstance(x, list): st.extend(x)
            elif isinstance(x, dict):
                if x.get("k") == "decl": own |= {v["id"] for v in x["v"] if isinstance(v, dict) and not isref(v["t"]) and kind(v["t"]) in ("bool", "int", "float", "vec", "iter", "ptr")}
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        mine = lambda t: isinstance(t, dict) and t.get("k") == "ref" and t.get("id") in own and not t.get("g")
        st = [body]
        while st:
            x = st.pop()
            if isinstance(x, list): st.extend(x); continue
            if not isinstance(x, dict): continue
            k = x.get("k")
            if k in ("new", "delete", "throw", "lambda", "unk"): return False
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and not mine(x["a"]): return False
            if k == "un" and x["op"] in ("++", "--") and not mine(x["e"]): return False
            if k == "call":
                f = x.get("f")
                if not isinstance(f, dict): return False
                if f["q"].startswith("std::"):
                    if not (f.get("const") or mine(x.get("o")) or f["q"].split("::")[-1] in ("operator[]", "operator*", "operator->", "at", "front", "back", "get", "begin", "end", "size")): return False
                elif not self.accessor(f["f"]): return False
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        return True

    def find(self, q, *, nparams=None, ptypes=None, clst=None, const=None):
        r = [f for f in self.byq.get(q, [])
             if (nparams is None or len(f["params"]) == nparams)
             and (clst is None or f.get("clst") == clst)
             and (const is None or bool(f.get("const")) == const)
             and (ptypes is None or (len(f["params"]) == len(ptypes) and all(p in x["t"] for p, x in zip(ptypes, f["params"]))))]
        return r

    def get(self, q, **kw):
        r = self.find(q, **kw)
        if not r: raise Vanished(q + (" " + str(kw) if kw else ""))
        return r[0]


STDEXC = {"std::" + k: "std::" + v for v, l in {"logic_error": "invalid_argument out_of_range domain_error length_error", "runtime_error": "range_error overflow_error underflow_error",
                                                 "exception": "logic_error runtime_error bad_alloc bad_cast"}.items() for k in l.split()}


class Vanished(Exception):
    """an anchor of a rule no longer exists in the program"""


# ----------------------------------------------------------------- types
def strip(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith("&&"): t = t[:-2].strip()
        elif t.endswith("&"): t = t[:-1].strip()
        if t.startswith("const "): t = t[6:].strip()
        if t.endswith(" const") or t.endswith("*const"): t = t[:-5].strip()
        if o == t: return t


INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char",
        "unsigned char", "long long", "unsigned long long"}
ENUMS = set()
FLTS = {"double", "float", "long double"}


PAIR = re.compile(r"std::pair<[^<>]*\*?, [^<>]*>$")


RAW = [False]       # look at the small vectors' own code instead of their meaning


def kind(t):
    t = strip(t)
    if RAW[0] and t.startswith("CppUtils::VecND"): return "obj"
    if t == "bool" or t == "std::_Bit_reference": return "bool"
    if t in INTS or t in ENUMS: return "int"
    if t in FLTS: return "float"
    if t.endswith("*"): return "ptr"
    if t.endswith("]"): return "obj"
    if t.startswith("CppUtils::VecND<") or PAIR.match(t): return "vec"
    if t.startswith("std::basic_string<"): return "str"
    if t.startswith(("std::unique_ptr<", "std::shared_ptr<")): return "ptr"
    if re.match(r"std::(_List_|__cxx11::)?.*iterator", t) or "::iterator" in t or "__normal_iterator" in t: return "iter"
    if t.startswith("std::function<"): return "func"
    if t.startswith("lambda@") or "(lambda" in t: return "func"
    if t.startswith("CppUtils::VecND"): return "vec"
    if t == "void" or t == "std::nullptr_t": return "void"
    return "obj"


def isref(t): return t.strip().endswith("&")


class Place:
    __slots__ = ("k", "a", "b", "t")

    def __init__(self, k, a, b=None, t=""):
        self.k, self.a, self.b, self.t = k, a, b, t


class Closure:
    __slots__ = ("node", "env")

    def __init__(self, node): self.node = node


class Effect:
    __slots__ = ("kind", "name", "args", "guard", "loops", "loc", "stack", "i", "caught", "val", "excs", "ft")

    def __repr__(self):
        return "%s %s(%s) if %s%s @%s" % (self.kind, self.name, ", ".join(show(x) if isinstance(x, T) else str(x) for x in self.args),
                                        showf(self.guard), " loops=%d" % len(self.loops) if self.loops else "", self.loc)


class State:
    __slots__ = ("env", "heap", "g")

    def __init__(self, env=None, heap=None, g=1):
        self.env, self.heap, self.g = env or {}, heap or {}, g

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.g)


class Loop:
    def __init__(self, uid, space, lo, hi, partial, guard, kind, loc):
        self.uid, self.space, self.lo, self.hi, self.partial, self.guard, self.kind, self.loc = uid, space, lo, hi, partial, guard, kind, loc
        self.cond, self.exit = 1, 0

    def __repr__(self): return "Loop(%s)" % (self.uid,)


def IV(uid):
    """generic index of a loop, counting iterations from 0"""
    return mk("iv", *[NULL if x is None else x for x in uid])


class Frame:
    def __init__(self, fun): self.fun, self.rets, self.this = fun, [], None


class LoopCtx:
    def __init__(self): self.breaks, self.conts = [], []


STREAMQ = ("std::basic_ostream", "std::basic_ofstream", "std::basic_stringstream", "std::basic_ostringstream", "std::ostream")
NOOPS = {"TQMesh::MeshConstruction::print_parameter", "CppUtils::assert_msg", "std::basic_string::reserve", "std::vector::reserve"}


class Interp:
    def __init__(self, prog, opaque=(), inline_depth=14, model_container=True, noinline=None, logs=False, max_unroll=8, entity_ctors=True, redirect=(), raw=False):
        self.raw = raw
        self.redirect = dict(redirect)
        self.run_entity_ctors = entity_ctors
        self.P = prog
        self.opaque = set(opaque)
        self.noinline = noinline or (lambda f: False)
        self.depth = inline_depth
        self.model_container = model_container
        self.logs = logs
        self.max_unroll = max_unroll
        self.reset()

    def reset(self):
        self.effects, self.loops, self.base, self.stack = [], [], [1], []
        self.seq = {}
        self.frames = []
        self.lctx = []
        self.recording = True
        self.trycnt = 0
        self.newcnt = {}
        self.occ = {}
        self.analysed = set()
        self.calls_seen = 0
        self.excs = []
        self.extent = {}

    # ------------------------------------------------------------ effects
    def guard(self, st):
        return B.AND(self.base[-1], st.g)

    def eff(self, st, kind, name, args, loc, val=None):
        if not self.recording or st.g == 0: return None
        g = self.guard(st)
        if g == 0: return None
        e = Effect()
        e.kind, e.name, e.args, e.guard, e.loops, e.loc, e.val = kind, name, tuple(args), g, tuple(self.loops), loc, val
        e.stack = tuple(self.stack)
        e.i = len(self.effects)
        e.caught = None
        e.ft = None
        e.excs = tuple(self.excs)
        self.effects.append(e)
        return e

    def fresh(self, key):
        n = self.seq.get(key, 0)
        self.seq[key] = n + 1
        return n

    def occurrence(self, key, g):
        """number among equal calls; calls that exclude each other share a number"""
        key += tuple(l.uid for l in self.loops)
        old = self.occ.get(key, ())
        n = 0
        while any(m == n and not unsat(B.AND(h, g)) for m, h in old): n += 1
        self.occ[key] = old + ((n, g),)
        return n

    # ------------------------------------------------------------- memory
    def load(self, st, p):
        if not isinstance(p, Place): return p
        if p.k == "var":
            v = st.env.get(p.a)
            if v is None: return mk("sym", "uninit#%s" % p.a)
            return self.load(st, v) if isinstance(v, Place) else v
        if p.k == "val": return p.a
        if p.k == "f":
            return self.fld(st, p.a, p.b, p.t)
        if p.k == "ix":
            return self.index(st, p.a, p.b, p.t)
        if p.k == "comp":     # component of a vector stored in place a
            return comp(self.load(st, p.a), p.b)
        raise Giveup("load " + p.k)

    def fld(self, st, o, n, t):
        k = kind(t)
        if k == "obj": return mkf(o, n)
        if o.op == "ite" and k != "obj":
            return ite(o.a[0], self.fld(st, o.a[1], n, t), self.fld(st, o.a[2], n, t))
        v = st.heap.get((o, n))
        if v is None: return mkf(o, n)
        return v

    def contents(self, st, o):
        return st.heap.get((o, "#"))

    def index(self, st, c, i, t):
        if i.op == "ite": i = under(i, self.guard(st))
        if i.op == "first": return mk("first", i.a[0], i.a[1], self.index(st, c, i.a[2], t))
        ct = self.contents(st, c)
        if ct is not None:
            r = seq_at(ct, i)
            if r is not None: return r
            if ct.op != "cont" and st.heap.get((mk("ix", c, i), "=")) is None: return mk("ix", ct, i)
        v = st.heap.get((mk("ix", c, i), "="))
        if v is not None: return v
        if c.op == "ite": return ite(c.a[0], self.index(st, c.a[1], i, t), self.index(st, c.a[2], i, t))
        return mkix(c, i)

    def size(self, st, c):
        n = self.extent.get(c)
        if n is not None and self.contents(st, c) is None: return num(n)
        if c.op == "ite": return ite(c.a[0], self.size(st, c.a[1]), self.size(st, c.a[2]))
        ct = self.contents(st, c)
        if ct is not None:
            r = seq_size(ct, c)
            if r is not None: return r
        return mk("size", c)

    def store(self, st, p, v, loc):
        if not isinstance(p, Place):
            # assignment through an opaque reference
            self.eff(st, "store", "=", (p, v), loc)
            st.heap[(p, "=")] = v
            return
        if p.k == "var":
            cur = st.env.get(p.a)
            if isinstance(cur, Place) and p.b == "ref":
                return self.store(st, cur, v, loc)
            st.env[p.a] = v
            return
        if p.k == "f":
            if p.a.op == "ite":
                s = p.a
                for f, o in ((s.a[0], s.a[1]), (B.NOT(s.a[0]), s.a[2])):
                    old = self.fld(st, o, p.b, p.t)
                    self.eff_g(st, f, "store", p.b, (o, v), loc)
                    st.heap[(o, p.b)] = ite(f, v, old)
                return
            if v is not None and self.fld(st, p.a, p.b, p.t) is v: return
            ef = self.eff(st, "store", p.b, (p.a, v), loc)
            if ef is not None: ef.ft = strip(p.t or "")
            st.heap[(p.a, p.b)] = v
            return
        if p.k == "ix":
            self.eff(st, "store", "[]", (p.a, p.b, v), loc)
            ct = self.contents(st, p.a)
            if ct is not None:
                n = seq_set(ct, p.b, v)
                if n is not None:
                    st.heap[(p.a, "#")] = n
                    return
                del st.heap[(p.a, "#")]
            st.heap[(mk("ix", p.a, p.b), "=")] = v
            return
        if p.k == "comp":
            old = self.load(st, p.a)
            m = re.search(r"VecND<\w+, (\d+)", p.a.t or "") if isinstance(p.a, Place) else None
            n = len(old.a) if old.op == "vec" else int(m.group(1)) if m else max(2, p.b + 1)
            self.store(st, p.a, mk("vec", *[v if i == p.b else comp(old, i) for i in range(n)]), loc)
            return
        if p.k == "val":
            self.eff(st, "store", "=", (p.a, v), loc)
            st.heap[(p.a, "=")] = v
            return
        raise Giveup("store")

    def eff_g(self, st, f, *a, **k):
        g = st.g
        st.g = B.AND(g, f)
        r = self.eff(st, *a, **k)
        st.g = g
        return r

    # ------------------------------------------------------------- merge
    def merge(self, f, a, b):
        """state a when formula f holds, b otherwise"""
        if a.g == 0: return b
        if b.g == 0: return a
        r = State(g=B.OR(a.g, b.g))
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y: r.env[k] = x
            elif x is None or y is None: r.env[k] = x if y is None else y
            elif isinstance(x, T) and isinstance(y, T): r.env[k] = ite(f, x, y)
            elif isinstance(x, Place) and isinstance(y, Place) and (x.k, x.a, x.b) == (y.k, y.a, y.b): r.env[k] = x
            elif isinstance(x, Place) or isinstance(y, Place):
                xv = self.load(a, x) if isinstance(x, Place) else x
                yv = self.load(b, y) if isinstance(y, Place) else y
                r.env[k] = ite(f, xv, yv) if isinstance(xv, T) and isinstance(yv, T) else x
            else: r.env[k] = x
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y: r.heap[k] = x
            else:
                if x is None: x = self.dflt(k)
                if y is None: y = self.dflt(k)
                if x is y:
                    r.heap[k] = x
                    continue
                r.heap[k] = ite(f, x, y) if isinstance(x, T) and isinstance(y, T) else x
        return r

    def dflt(self, k):
        o, n = k
        if n == "#": return mk("cont", o)
        if n == "=": return o
        return mkf(o, n)

    # -------------------------------------------------------- expressions
    def rv(self, e, st):
        v = self.ev(e, st)
        if isinstance(v, Place): v = self.load(st, v)
        return v

    def cond(self, e, st):
        v = self.rv(e, st)
        if isinstance(v, Closure): return 1
        return fm(v)

    def ev(self, e, st):
        if e is None: return None
        m = getattr(self, "x_" + e["k"], None)
        if m is None: raise Giveup("expression %s at %s" % (e["k"], e.get("l")))
        return m(e, st)

    def x_int(self, e, st):
        return num(int(e["v"]))

    def x_float(self, e, st):
        return num(Fraction(e["v"]) if re.match(r"^-?[\d.]+(E[+-]?\d+)?$", e["v"]) else Fraction(0)) if e["v"] not in ("+Inf", "NaN") else mk("c", "s", e["v"])

    def x_bool(self, e, st): return TRUE if e["v"] else FALSE
    def x_str(self, e, st): return mk("c", "s", e["v"])
    def x_null(self, e, st): return NULL
    def x_this(self, e, st): return self.frames[-1].this
    def x_enum(self, e, st):
        TM.ENUMVAL[e["q"]] = int(e["v"])
        return mk("c", "e", e["q"])
    def x_fref(self, e, st): return mk("c", "s", "&" + e["f"]["f"])
    def x_mref(self, e, st): return mk("c", "s", "&" + e["f"]["q"])
    def x_sizeof(self, e, st): return mk("sym", "sizeof")
    def x_bind(self, e, st): return self.ev(e["e"], st)
    def x_unk(self, e, st): return mk("sym", "unk@" + str(e.get("l")))

    def x_zero(self, e, st): return zero(e["t"])

    def x_ref(self, e, st):
        i = e["id"]
        if "g" in e:
            if e.get("init"):
                return self.ev(dict(e["init"], t=e["t"]), st)
            t = mk("sym", e["g"])
            o = self.P.gconst(e["g"])
            if o is not None and (kind(e["t"]) in ("int", "float", "bool", "str") or o["init"].get("k") == "str"):
                return self.ev(dict(o["init"], t=o["t"]) if o["init"]["k"] != "str" else o["init"], st)
            if kind(e["t"]) == "obj": return t
            return Place("f", mk("sym", "globals"), e["g"], e["t"])
        v = st.env.get(i)
        if isinstance(v, Closure): return v
        if isinstance(v, Place): return v
        if v is None:
            return Place("var", i)
        if v.op == "sym" and str(v.a[0]).startswith("static:"): return v
        return Place("var", i)

    def x_mem(self, e, st):
        b = self.rv(e["b"], st)
        if b is None: raise Giveup("member of nothing at " + str(e.get("l")))
        if e["o"] == "CppUtils::VecND" or e["n"] in ("first", "second") and kind(e["b"].get("t", "")) == "vec":
            ix = {"x": 0, "y": 1, "z": 2, "first": 0, "second": 1}.get(e["n"])
            if ix is not None and self.raw and e["o"] == "CppUtils::VecND":
                v = st.heap.get((b, e["n"]))
                if isinstance(v, Place): return v
            if ix is not None and self.raw and e["o"] == "CppUtils::VecND": return Place("ix", mkf(b, "entries_"), num(ix), e.get("ft", ""))
            if ix is not None:
                bp = self.ev(e["b"], st)
                return Place("comp", bp, ix) if isinstance(bp, Place) else comp(b, ix)
        if isref(e.get("ft", "")):
            k = kind(e["ft"])
            v = st.heap.get((b, e["n"]))
            if k == "obj": return v if v is not None else mkf(b, e["n"])
            if isinstance(v, Place): return v
            return v if v is not None else mkf(b, e["n"])
        if kind(e["t"]) == "obj": 
            o = self.objfield(b, e["n"])
            m = re.match(r"(const )?std::array<.*, (\d+)>$", strip(e["t"]))
            if m: self.extent[o] = int(m.group(2))
            return o
        return Place("f", b, e["n"], e["t"])

    def objfield(self, b, n):
        if b.op == "ite": return ite(b.a[0], self.objfield(b.a[1], n), self.objfield(b.a[2], n))
        return mkf(b, n)

    def x_cast(self, e, st):
        c = e["c"]
        v = self.ev(e["e"], st)
        if c in ("ToVoid",): return v
        if c == "NullToPointer": return NULL
        if isinstance(v, Place) and c in ("Dynamic", "BaseToDerived", "BitCast"): v = self.load(st, v)
        if c == "Dynamic": return v
        if c == "BaseToDerived" or c == "BitCast": return v
        v = self.load(st, v) if isinstance(v, Place) else v
        if not isinstance(v, T): return v
        if c in ("IntegralToBoolean", "FloatingToBoolean"): return boolt(B.NOT(eq(v, ZERO, c[0] == "I"))) if v.op != "ite" or True else v
        if c == "PointerToBoolean": return boolt(fm(v))
        if c == "FloatingToIntegral":
            n = numval(v)
            if n is not None: return num(int(n))
            return v if isinstance(v, T) and v.op == "trunc" else mk("trunc", v)
        if c == "IntegralCast":
            if isb(v) and kind(e["t"]) == "int":
                f = fm(v)
                return ONE if f == 1 else ZERO if f == 0 else ite(f, ONE, ZERO)
            return v
        return v

    def x_un(self, e, st):
        op = e["op"]
        if op == "&":
            v = self.ev(e["e"], st)
            if isinstance(v, Place):
                if kind(e["e"]["t"]) in ("obj",): return self.load(st, v)
                if v.k == "f": return mk("addr", v.a, v.b)
                if v.k == "var": return mk("addrv", v.a)
                return self.load(st, v)
            return v
        if op == "*":
            v = self.rv(e["e"], st)
            if isinstance(v, T) and v.op in ("minel", "maxel"):
                c, lo, hi = v.a[0], numval(v.a[1]), numval(v.a[2])
                while c.op in ("fld", "f") and isinstance(c.a[0], T) and c.a[1] == "entries_": c = c.a[0]
                if c.op == "vec" and lo is not None and hi is not None: return minmax(v.op[:3], *c.a[int(lo):int(hi)])
            if isinstance(v, T) and v.op == "iter":
                if kind(e["t"]) == "obj": return self.index(st, v.a[0], v.a[1], e["t"])
                return Place("ix", v.a[0], v.a[1], e["t"])
            if isinstance(v, T) and v.op == "addr": return Place("f", v.a[0], v.a[1], e["t"])
            if isinstance(v, T) and v.op == "addrv": return Place("var", v.a[0])
            if kind(e["t"]) in ("obj",): return v
            if isinstance(v, T) and kind(e["t"]) != "obj":
                return Place("f", v, "*", e["t"])
            return v
        if op in ("++", "--"):
            p = self.ev(e["e"], st)
            old = self.load(st, p)
            new = advance(old, ONE if op == "++" else num(-1))
            self.store(st, p, new, e["l"])
            return old if e.get("post") else p
        v = self.rv(e["e"], st)
        if op == "!": return boolt(B.NOT(fm(v)))
        if op == "-": return neg(v)
        if op == "+": return v
        if op == "~": return bitnot(v)
        raise Giveup("unary " + op)

    def x_bin(self, e, st):
        op = e["op"]
        if op == ",":
            self.ev(e["a"], st)
            return self.ev(e["b"], st)
        if op in ("&&", "||"):
            f = self.cond(e["a"], st)
            need = f if op == "&&" else B.NOT(f)
            if need == 0: return boolt(f)
            s2 = st.copy()
            s2.g = B.AND(st.g, need)
            if s2.g == 0 and st.g != 0:
                return boolt(f)
            g = self.cond(e["b"], s2)
            ok = s2.g
            s1 = st.copy()
            s1.g = B.AND(st.g, B.NOT(need))
            s2.g = ok
            m = self.merge(need, s2, s1)
            st.env, st.heap, st.g = m.env, m.heap, m.g
            return boolt(B.AND(f, g) if op == "&&" else B.OR(f, g))
        if op == "=":
            v = self.ev(e["b"], st)
            if isinstance(v, Place): v = self.load(st, v)
            p = self.ev(e["a"], st)
            if isinstance(v, Closure): 
                if isinstance(p, Place) and p.k == "var": st.env[p.a] = v
                return p
            self.store(st, p, v, e["l"])
            return p
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            p = self.ev(e["a"], st)
            old = self.load(st, p)
            r = self.rv(e["b"], st)
            self.store(st, p, self.arith(op[:-1], old, r, e), e["l"])
            return p
        a, b = self.rv(e["a"], st), self.rv(e["b"], st)
        return self.arith(op, a, b, e)

    def arith(self, op, a, b, e):
        at, bt = kind(e.get("at", e.get("t", ""))), kind(e.get("bt", e.get("t", "")))
        isint = not (at == "float" or bt == "float")
        if op in ("==", "!=") and boolish(e.get("a")) and boolish(e.get("b")):
            f, g = fm(a), fm(b)
            return boolt(B.ite(f, g, B.NOT(g)) if op == "==" else B.ite(f, B.NOT(g), g))
        if op == "==": return boolt(eq(a, b, isint))
        if op == "!=": return boolt(B.NOT(eq(a, b, isint)))
        if op == "<": return boolt(lt(a, b, isint))
        if op == ">": return boolt(lt(b, a, isint))
        if op == "<=": return boolt(B.NOT(lt(b, a, isint)))
        if op == ">=": return boolt(B.NOT(lt(a, b, isint)))
        if op in ("+", "-") and "ptr" in (at, bt): return mk("op", op, a, b)
        if op in ("&", "|", "^"):
            if at == "bool" and bt == "bool" or (isb(a) and isb(b)) or boolish(e.get("a")) and boolish(e.get("b")):
                f, g = fm(a), fm(b)
                return boolt(B.AND(f, g) if op == "&" else B.OR(f, g) if op == "|" else B.ite(f, B.NOT(g), g))
            return bitop(op, a, b)
        return arith(op, a, b, isint)

    def x_cond(self, e, st):
        f = self.cond(e["c"], st)
        if f == 1: return self.ev(e["a"], st)
        if f == 0: return self.ev(e["b"], st)
        s1, s2 = st.copy(), st.copy()
        s1.g, s2.g = B.AND(st.g, f), B.AND(st.g, B.NOT(f))
        a = self.rv(e["a"], s1)
        b = self.rv(e["b"], s2)
        m = self.merge(f, s1, s2)
        st.env, st.heap, st.g = m.env, m.heap, m.g
        if not isinstance(a, T) or not isinstance(b, T): return a
        return ite(f, a, b)

    def x_sub(self, e, st):
        a, i = self.rv(e["a"], st), self.rv(e["b"], st)
        if kind(e["t"]) == "obj": return self.index(st, a, i, e["t"])
        return Place("ix", a, i, e["t"])

    def x_lambda(self, e, st):
        if e.get("body") is None and e.get("insts"): e = {**e, **e["insts"][0], "all": e["insts"]}
        return Closure(e)

    def x_throw(self, e, st):
        v = self.rv(e["e"], st) if e.get("e") else NULL
        self.eff(st, "throw", (e["e"] or {}).get("t", "rethrow") if e.get("e") else "rethrow", (v,) if isinstance(v, T) else (), e["l"])
        st.g = 0
        return mk("sym", "thrown")

    def x_new(self, e, st):
        return self.newobj(e["nt"], self.ctor_args(e["e"], st), st, e["l"], e["e"].get("f") if e.get("e") else None)

    def ctor_args(self, c, st):
        if c is None: return []
        if c["k"] in ("ctor", "ilist"): return [self.ev(a, st) for a in c["a"]]
        return [self.ev(c, st)]

    def x_delete(self, e, st):
        self.eff(st, "delete", "delete", (self.rv(e["e"], st),), e["l"])
        return NULL

    def x_ilist(self, e, st):
        k = kind(e["t"])
        vals = [self.rv(a, st) for a in e["a"]]
        if k == "vec":
            if len(vals) == 1 and vals[0].op in ("vec", "seq"): return tovec(vals[0])
            return mk("vec", *vals)
        if k != "obj" and k != "func":
            return vals[0] if vals else zero(e["t"])
        if any(not isinstance(v, T) for v in vals): return mk("sym", "ilist@" + e["l"])
        t = strip(e["t"])
        if e.get("fields") and not t.startswith(("std::array<", "std::initializer_list<")):
            o = self.mkobj(t, e["l"])
            for f, v in zip(e["fields"], vals): st.heap[(o, f)] = v
            return o
        if len(vals) == 1 and vals[0].op == "seq" and t.startswith("std::array<"): return vals[0]
        return mk("seq", *vals)

    def mkobj(self, t, loc, av=()):
        """an object created here: named by its type and constructor arguments"""
        av = tuple(a for a in av if isinstance(a, T))
        k = ("new", t, av)
        n = self.newcnt.get(k, 0)
        self.newcnt[k] = n + 1
        return mk("new", t, n, *av, *[IV(l.uid) for l in self.loops])

    def newobj(self, t, args, st, loc, f=None, types=None):
        t = strip(t)
        k = kind(t)
        if k == "vec": return mkvec(self.vals(args, st))
        if k not in ("obj",): 
            v = self.vals(args, st)
            return v[0] if v else zero(t)
        av = self.vals(args, st)
        if t.startswith("std::basic_ofstream<") and len(av) == 2 and all(isinstance(a, T) for a in av):
            # opened by its constructor
            o = self.newobj(t, (), st, loc)
            self.eff(st, "call", "std::basic_ofstream::open", (o, *av), loc, mk("call", "std::basic_ofstream::open", o, *av))
            return o
        o = self.mkobj(t, loc, av)
        self.eff(st, "new", t, (o,) + tuple(a for a in av if isinstance(a, T)), loc)
        fn = self.P.funs.get(f["f"]) if f else self.find_ctor(t, args, types)
        if fn: self.run_ctor(fn, o, args, st, loc)
        elif t.startswith(("std::vector<", "std::list<", "std::array<")):
            self.std_ctor(t, o, args, st)
        return o

    def find_ctor(self, t, args, types=None):
        q = re.sub(r"<.*", "", t)
        c = [f for f in self.P.funs.values() if f["n"] == "ctor" and f.get("clst") == t]
        best = None
        for f in c:
            n = len(args)
            req = sum(1 for p in f["params"] if "def" not in p)
            if not (req <= n <= len(f["params"])): continue
            sc = 0
            for i, (p, a) in enumerate(zip(f["params"], args)):
                pk = kind(p["t"])
                ty = types[i] if types and i < len(types) else None
                if ty is not None:
                    ak = kind(ty)
                    num_ = ("int", "float", "bool")
                    if pk != ak: sc += 1 if pk in num_ and ak in num_ else 10
                    elif ak == "obj" and strip(ty) != strip(p["t"]): sc += 3
                    continue
                if isinstance(a, Place): continue
                if isinstance(a, T):
                    if (pk == "vec") != (a.op == "vec"): sc += 1
            if len(f["params"]) and strip(f["params"][0]["t"]) == t: sc += 5
            if best is None or sc < best[0]: best = (sc, f)
        return best[1] if best else None

    def vals(self, args, st):
        return [self.load(st, a) if isinstance(a, Place) else a for a in args]

    def empty(self, t, o):
        """contents of a default-initialised standard container"""
        m = re.search(r", (\d+)(UL)?>$", t) if t.startswith("std::array<") else None
        if not m or int(m.group(1)) > 64: return mk("seq")
        return mk("seq", *[mk("ix", mk("cont", o), num(i)) for i in range(int(m.group(1)))])

    def std_ctor(self, t, o, args, st):
        v = self.vals(args, st)
        v = [x for x in v if isinstance(x, T)]
        if not v:
            st.heap[(o, "#")] = self.empty(t, o)
            return
        if v[0].op == "seq": st.heap[(o, "#")] = v[0]; return
        if len(v) == 1 or (len(v) == 2 and v[1].op == "new" and "allocator" in v[1].a[0]):
            a = v[0]
            if a.op in ("loc", "new", "f", "sym", "call", "ix", "cont", "ite") and not isnumlike(a):
                c = self.contents(st, a)
                st.heap[(o, "#")] = c if c is not None else mk("cont", a)
                return
            if numval(a) is not None and numval(a) <= 16:
                st.heap[(o, "#")] = mk("seq", *[ZERO] * int(numval(a)))
                return
            st.heap[(o, "#")] = mk("fill", a, ZERO)
            return
        if v[0].op == "iter" and v[1].op == "iter" and v[0].a[0] is v[1].a[0]:
            c = v[0].a[0]
            if v[0].a[1] is ZERO and v[1].a[1] is self.size(st, c):
                cc = self.contents(st, c)
                st.heap[(o, "#")] = cc if cc is not None else mk("cont", c)
                return
        if len(v) >= 2 and numval(v[0]) is not None and numval(v[0]) <= 16:
            st.heap[(o, "#")] = mk("seq", *[v[1]] * int(numval(v[0])))
            return
        st.heap[(o, "#")] = mk("fill", v[0], v[1]) if len(v) >= 2 else mk("cont", v[0])

    def listed(self, t, c, st, loc):
        """a container with listed elements: as if they were appended one by one"""
        o = self.mkobj(t, loc)
        st.heap[(o, "#")] = c
        for v in c.a: self.eff(st, "append", "push_back", (o, v), loc)
        return o

    def x_ctor(self, e, st):
        t = strip(e["t"])
        k = kind(t)
        args = e["a"]
        q = e["f"]["q"]
        if k in ("ptr", "iter", "func"):
            if not args: return NULL if k == "ptr" else mk("sym", "empty:" + k)
            return self.ev(args[0], st) if k == "func" else self.rv(args[0], st)
        if k == "str":
            vs = [self.rv(a, st) for a in args if not (a.get("t", "").startswith("std::allocator"))]
            if not vs: return mk("c", "s", "")
            if len(vs) >= 2 and numval(vs[0]) is not None and numval(vs[1]) is not None and 0 <= numval(vs[0]) < 200:
                return mk("c", "s", chr(int(numval(vs[1]))) * int(numval(vs[0])))
            return vs[0] if len(vs) == 1 else mk("call", "std::string", *vs)
        if k == "vec":
            vs = [self.rv(a, st) for a in args]
            if not vs: return zero(t)
            return mkvec(vs)
        if k == "obj":
            if t.startswith("std::allocator"): return mk("sym", "alloc")
            if e.get("copy") and not (self.raw and t.startswith("CppUtils::VecND")):
                v = self.ev(args[0], st)
                if isinstance(v, Place): v = self.load(st, v)
                if t.startswith(("std::vector<", "std::list<", "std::array<", "std::map<")):
                    if v.op in ("seq", "call"): return v          # copy of a value nobody else holds
                    o = self.mkobj(t, e["l"])
                    c = self.contents(st, v)
                    st.heap[(o, "#")] = c if c is not None else mk("cont", v)
                    self.eff(st, "assign", "copy", (o, st.heap[(o, "#")]), e["l"])
                    return o
                return v
            av = [self.ev(a, st) for a in args]
            if t.startswith("std::pair<"):
                vs = self.vals(av, st)
                o = self.mkobj(t, e["l"])
                for n, v in zip(("first", "second"), vs): st.heap[(o, n)] = v
                return o
            fn = self.P.funs.get(e["f"]["f"])
            if t.startswith("std::basic_ofstream<") and len(av) == 2: return self.newobj(t, av, st, e["l"])
            o = self.mkobj(t, e["l"], self.vals(av, st))
            if q in self.opaque or t.startswith("CppUtils::LOG"):
                self.eff(st, "new", t, (o,) + tuple(x for x in self.vals(av, st) if isinstance(x, T)), e["l"])
                return o
            if t.startswith(("std::vector<", "std::list<", "std::array<")):
                self.std_ctor(t, o, av, st)
                c = st.heap.get((o, "#"))
                if c is not None and c.op == "fill" and not t.startswith("std::array<"):
                    # so many equal elements: as if appended
                    o = self.mkobj(t, e["l"])
                    st.heap[(o, "#")] = c
                    self.eff(st, "grow", "grow", (o, c.a[0], c.a[1]), e["l"])
                if c is not None and c.op == "seq" and c.a and not t.startswith("std::array<"): o = self.listed(t, c, st, e["l"])
                return o
            vs = [x for x in self.vals(av, st) if isinstance(x, T)]
            self.eff(st, "new", t, (o,) + tuple(vs), e["l"])
            if fn: self.run_ctor(fn, o, av, st, e["l"])
            return o
        vs = [self.rv(a, st) for a in args]
        return vs[0] if vs else zero(t)

    def run_ctor(self, fn, o, args, st, loc):
        self.inline(fn, o, args, st, loc)

    # ------------------------------------------------------------- calls
    def x_call(self, e, st):
        self.calls_seen += 1
        f = e.get("f")
        if f is None:
            fx = self.ev(e["fx"], st)
            if isinstance(fx, Place): fx = self.load(st, fx)
            args = [self.ev(a, st) for a in e["a"]]
            if isinstance(fx, Closure): return self.call_closure(fx, args, st, e["l"], (e.get("f") or {}).get("f"))
            tf = self.P.funs.get(fx.a[1][1:]) if isinstance(fx, T) and fx.op == "c" and fx.a[0] == "s" else None
            if tf is not None and len(self.stack) < self.depth and not any(s[0] == tf["f"] for s in self.stack):
                return self.inline(tf, None, args, st, e["l"])
            av = self.vals(args, st)
            self.eff(st, "call", "indirect", (fx,) + tuple(av), e["l"])
            r = mk("call", "indirect", fx, *av)
            m = re.search(r"\((?:\*|&)?\)\((.*)\)", e["fx"].get("t", ""))
            if m and "<" not in m.group(1):
                for i, (a, p) in enumerate(zip(args, m.group(1).split(","))):
                    if isinstance(a, Place) and p.strip().endswith("&") and "const" not in p: self.store(st, a, mk("out", r, str(i)), e["l"])
            return r
        q = f["q"]
        if q in NOOPS or q.startswith("CppUtils::LOG") or q.startswith("CppUtils::LogProp"):
            if q.startswith("CppUtils::LOG") and self.logs:
                for a in e["a"]: self.ev(a, st)
            if e.get("o") and q == "CppUtils::LOG::operator<<":
                for a in e["a"]: self.ev(a, st)
                return self.ev(e["o"], st)
            if q in NOOPS and q == "CppUtils::assert_msg": 
                return mk("sym", "void")
            return mk("sym", "log")
        from models import MODELS, generic_model
        h = None
        if q in self.redirect:
            fn = self.P.funs[self.redirect[q]]
            obj = [self.rv(e["o"], st)] if e.get("o") is not None and len(fn["params"]) > len(e["a"]) else []
            return self.inline(fn, None, obj + [self.ev(a, st) for a in e["a"]], st, e["l"])
        if q not in self.opaque:
            h = MODELS.get(q)
            if h is None: h = generic_model(self, q, e)
            if self.raw and q.startswith("CppUtils::") and not q.startswith("CppUtils::Container"): h = None
        if h is not None:
            r = h(self, e, st)
            if r is not NotImplemented: return r
        obj = self.ev(e["o"], st) if e.get("o") is not None else None
        if isinstance(obj, Closure):
            args = [self.ev(a, st) for a in e["a"]]
            return self.call_closure(obj, args, st, e["l"], (e.get("f") or {}).get("f"))
        args = [self.ev(a, st) for a in e["a"]]
        fn = self.P.funs.get(f["f"])
        if obj is not None and isinstance(obj, Place):
            if kind(e["o"].get("t", "")) in ("obj",) or (kind(e["o"].get("t", "")) == "ptr"): obj = self.load(st, obj)
            else: obj = self.load(st, obj)
        if fn is not None and f.get("virt") and not e.get("qual"):
            # which override runs is known only for an object created here
            fn = self.devirt(fn, obj, e, st) or (fn if not self.P.overrides.get(fn["f"]) or isinstance(obj, T) and obj.op == "new" and obj.a[0] == fn.get("clst") else None)
        if fn is not None and q not in self.opaque and not self.noinline(fn) and len(self.stack) < self.depth \
                and not any(s[0] == fn["f"] for s in self.stack):
            return self.inline(fn, obj, args, st, e["l"])
        return self.opaque_call(f, e, obj, args, st)

    def devirt(self, fn, obj, e, st):
        if obj is not None and isinstance(obj, T) and obj.op == "new":
            for c in self.P.overrides.get(fn["f"], []):
                if c.get("clst") == obj.a[0]: return c
        return None

    def opaque_call(self, f, e, obj, args, st):
        q = f["q"]
        av = []
        for a, pk in zip(args, f.get("pk", []) + ["val"] * 9):
            if isinstance(a, Place): a = self.load(st, a)
            av.append(a if isinstance(a, T) else mk("sym", "closure"))
        for i, a in enumerate(av):
            # texts and kinds chosen beforehand: the same as one call on each path
            if a.op == "ite" and not isref_out(f, i) and all(x.op in ("c", "cat") for x, _ in ite_leaves(a)) and len(ite_leaves(a)) <= 4 and not isb(a):
                s1, s2 = st.copy(), st.copy()
                s1.g, s2.g = B.AND(st.g, a.a[0]), B.AND(st.g, B.NOT(a.a[0]))
                if unsat(s1.g): return self.opaque_call(f, e, obj, args[:i] + [a.a[2]] + args[i + 1:], st)
                if unsat(s2.g): return self.opaque_call(f, e, obj, args[:i] + [a.a[1]] + args[i + 1:], st)
                r1 = self.opaque_call(f, e, obj, args[:i] + [under(a.a[1], a.a[0])] + args[i + 1:], s1)
                r2 = self.opaque_call(f, e, obj, args[:i] + [under(a.a[2], B.NOT(a.a[0]))] + args[i + 1:], s2)
                m = self.merge(a.a[0], s1, s2)
                st.env, st.heap, st.g = m.env, m.heap, B.OR(s1.g, s2.g)
                return ite(a.a[0], r1, r2)
        full = ((obj,) if isinstance(obj, T) else ()) + tuple(av)
        pure = f.get("const") and not any(p == "ref" or p == "ptr" for p in f.get("pk", []))
        if obj is None and not any(p in ("ref", "ptr") for p in f.get("pk", [])): pure = True
        pure = pure or self.P.accessor(f["f"])
        # nothing but its effect to call it for
        if pure and self.P.funs.get(f["f"], {}).get("rt") == "void" and not q.startswith("std::"): pure = False
        if pure or f.get("static") and self.P.funs.get(f["f"], {}).get("rt") != "void" and not any(p in ("ref",) for p in f.get("pk", [])):
            r = symcall(q, *full)
            self.eff(st, "pure", q, full, e["l"], r)
        else:
            n = self.occurrence((q, full), self.guard(st))
            r = mk("call", q, *full, *([mk("c", "s", "#%d" % n)] if n else []), *[IV(l.uid) for l in self.loops if IV(l.uid) not in set().union(*[free(x) for x in full], frozenset())])
            self.eff(st, "call", q, full, e["l"], r)
            if isinstance(obj, T):
                for k, v in list(st.heap.items()):
                    if k[1] == "#" and k[0].op == "f" and k[0].a[0] is obj and k[0].a[1] in self.P.mentions(f["f"]): st.heap[k] = mk("after", r, v)
                for n, t in self.P.writes(f["f"]).items(): st.heap[(obj, n)] = mk("after", r, self.fld(st, obj, n, t))
            # out-parameters
            for a, pk, x in zip(args, f.get("pk", []), e["a"]):
                if pk == "ref" and isinstance(a, Place) and not strip(x.get("t", "")).startswith(STREAMQ) and (kind(x.get("t", "")) != "obj" or strip(x.get("t", "")).startswith("std::")):
                    self.quiet_store(st, a, mk("out", r, mk("c", "s", str(args.index(a)))))
        if f.get("noret"): st.g = 0
        return r

    def invalidate(self, st, c):
        """the container changed: nothing cached about its size or order"""
        st.heap.pop((c, "#"), None)

    def quiet_store(self, st, p, v):
        rec = self.recording
        self.recording = False
        self.store(st, p, v, "")
        self.recording = rec

    def bind(self, p, a, st):
        t = p["t"]
        k = kind(t)
        if isinstance(a, Closure): st.env[p["id"]] = a; return
        if isref(t):
            if k in ("obj",):
                st.env[p["id"]] = self.load(st, a) if isinstance(a, Place) else a
            else:
                if isinstance(a, Place) and a.k == "var" and isinstance(st.env.get(a.a), Place): a = st.env[a.a]
                st.env[p["id"]] = a if isinstance(a, Place) else Place("val", a)
        else:
            v = self.load(st, a) if isinstance(a, Place) else a
            if k == "obj" and isinstance(v, T) and strip(t).startswith(("std::vector<", "std::list<", "std::array<")) and v.op != "seq":
                o = self.mkobj(strip(t), "")
                c = self.contents(st, v)
                st.heap[(o, "#")] = c if c is not None else mk("cont", v)
                v = o
            st.env[p["id"]] = v

    def inline(self, fn, obj, args, st, loc):
        self.analysed.add(fn["f"])
        fr = Frame(fn)
        fr.this = obj
        for i, p in enumerate(fn["params"]):
            if i < len(args): self.bind(p, args[i], st)
            elif "def" in p: self.bind(p, self.ev(p["def"], st), st)
        self.frames.append(fr)
        self.stack.append((fn["f"], loc))
        lc, self.lctx = self.lctx, []
        self.base.append(self.guard(st))
        s = State(dict(st.env), dict(st.heap), 1)
        if fn["n"] == "ctor": self.ctor_inits(fn, obj, s)
        self.block(fn["body"], s)
        self.base.pop()
        self.lctx = lc
        self.stack.pop()
        self.frames.pop()
        outs = list(fr.rets)
        if s.g != 0: outs.append((s, None))
        if not outs:
            st.g = 0
            return mk("sym", "noreturn")
        cur, val = outs[-1]
        for s2, v2 in reversed(outs[:-1]):
            f = s2.g
            cv = self.load(cur, val) if isinstance(val, Place) and not samep(val, v2) else val
            xv = self.load(s2, v2) if isinstance(v2, Place) and not samep(val, v2) else v2
            g = B.OR(s2.g, cur.g)
            cur = self.merge(f, s2, cur)
            cur.g = g
            if isinstance(xv, T) and isinstance(cv, T): val = ite(f, xv, cv)
            elif isinstance(xv, T) or isinstance(xv, Place): val = xv if cv is None else cv if xv is None else xv
            else: val = xv if cv is None else cv
        st.env, st.heap = cur.env, cur.heap
        st.g = B.AND(st.g, cur.g)
        if val is None: return mk("sym", "void")
        return val

    def ctor_inits(self, fn, o, s):
        for i in fn.get("inits", []):
            if "m" in i:
                k = kind(i["mt"])
                if k == "obj" and not isref(i["mt"]):
                    sub_ = mkf(o, i["m"])
                    e = i["e"]
                    if self.raw and strip(i["mt"]).startswith("std::array<"):
                        self.copy_array(e, strip(i["mt"]), sub_, s)
                    elif e["k"] == "ctor" and self.P.funs.get(e["f"]["f"]):
                        self.run_ctor(self.P.funs[e["f"]["f"]], sub_, [self.ev(a, s) for a in e["a"]], s, e["l"])
                    elif e["k"] == "ctor" and strip(i["mt"]).startswith(("std::vector<", "std::list<", "std::array<")):
                        if not e.get("copy"): self.std_ctor(strip(i["mt"]), sub_, [self.ev(a, s) for a in e["a"]], s)
                        else:
                            v = self.rv(e["a"][0], s)
                            s.heap[(sub_, "#")] = v if v.op == "seq" else (self.contents(s, v) or mk("cont", v))
                    elif e["k"] == "ilist" and strip(i["mt"]).startswith("std::array<"):
                        v = self.rv(e, s)
                        s.heap[(sub_, "#")] = v
                        self.eff(s, "store", i["m"], (o, v), e["l"])
                    elif e["k"] == "ctor" and e.get("copy"):
                        v = self.rv(e["a"][0], s)
                        self.eff(s, "store", i["m"], (o, v), e["l"])
                    else:
                        for a in e.get("a", []): self.ev(a, s)
                else:
                    v = self.ev(i["e"], s)
                    if not (isref(i["mt"]) and k != "obj") and isinstance(v, Place): v = self.load(s, v)
                    if isinstance(v, Closure): v = mk("sym", "closure")
                    if isinstance(v, T) and v.op == "seq" and k == "vec": v = tovec(v)
                    if isinstance(v, T): self.eff(s, "store", i["m"], (o, v), i["e"].get("l", ""))
                    s.heap[(o, i["m"])] = v
            elif "base" in i or "deleg" in i:
                e = i["e"]
                if e["k"] == "ctor" and self.P.funs.get(e["f"]["f"]):
                    self.run_ctor(self.P.funs[e["f"]["f"]], o, [self.ev(a, s) for a in e["a"]], s, e["l"])

    def copy_array(self, e, t, dst, s):
        """element by element copy of an array of known size"""
        n = int(re.search(r", (\d+)>$", t).group(1))
        if e["k"] == "ilist" and not (len(e["a"]) == 1 and strip(e["a"][0].get("t", "")) == t):
            vs = [self.rv(a, s) for a in e["a"]]
            if len(vs) == 1 and vs[0].op == "seq": vs = list(vs[0].a)
            vs += [num(0)] * (n - len(vs))
        else:
            x = e if e["k"] not in ("ilist", "ctor") else e["a"][0] if e.get("a") else None
            if x is None: vs = [num(0)] * n
            else:
                src = self.rv(x, s)
                if src.op == "seq": vs = (list(src.a) + [num(0)] * n)[:n]
                else: vs = [self.index(s, src, num(i), "double") for i in range(n)]
        vs = [self.load(s, v) if isinstance(v, Place) else v for v in vs]
        for i, v in enumerate(vs): self.store(s, Place("ix", dst, num(i), "double"), v, e.get("l", ""))

    def call_closure(self, c, args, st, loc, f=None):
        n = c.node
        for y in n.get("all", ()):
            if y["f"] == f: n = {**n, **y}
        fr = Frame({"f": n["f"], "n": "lambda", "params": n["params"]})
        fr.this = self.frames[-1].this if self.frames else None
        if any(s[0] == n["f"] for s in self.stack): return mk("sym", "rec")
        if n.get("body") is None: raise Giveup("generic lambda at " + str(loc))
        for p, a in zip(n["params"], args): self.bind(p, a, st)
        self.frames.append(fr)
        self.stack.append((n["f"], loc))
        lc, self.lctx = self.lctx, []
        self.base.append(self.guard(st))
        s = State(dict(st.env), dict(st.heap), 1)
        self.block(n["body"], s)
        self.base.pop()
        self.lctx = lc
        self.stack.pop()
        self.frames.pop()
        outs = list(fr.rets)
        if s.g != 0: outs.append((s, None))
        if not outs:
            st.g = 0
            return mk("sym", "noreturn")
        cur, val = outs[-1]
        for s2, v2 in reversed(outs[:-1]):
            f = s2.g
            cv = self.load(cur, val) if isinstance(val, Place) else val
            xv = self.load(s2, v2) if isinstance(v2, Place) else v2
            g = B.OR(s2.g, cur.g)
            cur = self.merge(f, s2, cur)
            cur.g = g
            val = ite(f, xv, cv) if isinstance(xv, T) and isinstance(cv, T) else (xv if cv is None else cv)
        st.env, st.heap = cur.env, cur.heap
        st.g = B.AND(st.g, cur.g)
        return val if val is not None else mk("sym", "void")

    # --------------------------------------------------------- statements
    def block(self, s, st):
        if s is None or st.g == 0: return
        m = getattr(self, "s_" + s["k"], None)
        if m is None: raise Giveup("statement %s at %s" % (s["k"], s.get("l")))
        m(s, st)

    def s_block(self, s, st):
        for x in s["s"]:
            if st.g == 0: return
            self.block(x, st)

    def s_nop(self, s, st): pass
    def s_unk(self, s, st): raise Giveup("statement " + s["cls"])

    def s_expr(self, s, st): self.ev(s["e"], st)

    def decl(self, v, st):
        t = v["t"]
        k = kind(t)
        init = v.get("init")
        if v.get("static") and not (init is not None and t.startswith("const ") and re.match(r"const (std::array<.*>|[a-z_ ]+)( ?\[\d+\])?$", t) and kind(t) != "str"):
            # one object for the whole program
            o = mk("sym", "static:%s" % strip(t) if k == "obj" else "static:" + v["name"])
            st.env[v["id"]] = o if k == "obj" else Place("f", mk("sym", "globals"), "static:" + v["name"], t)
            return
        if init is None:
            if k == "obj":
                o = self.mkobj("local:" + strip(t), v.get("l", ""))
                st.env[v["id"]] = o
                if strip(t).startswith(("std::vector<", "std::list<", "std::array<")): st.heap[(o, "#")] = self.empty(strip(t), o)
            else: st.env[v["id"]] = zero(t) if k in ("vec",) else mk("sym", "uninit:" + strip(t))
            return
        if k == "func":
            x = self.ev(init, st)
            if isinstance(x, Place): x = self.load(st, x)
            st.env[v["id"]] = x
            return
        x = self.ev(init, st)
        if isinstance(x, Closure): st.env[v["id"]] = x; return
        if isref(t) and k not in ("obj",):
            if isinstance(x, Place) and x.k == "var" and isinstance(st.env.get(x.a), Place): x = st.env[x.a]
            st.env[v["id"]] = x if isinstance(x, Place) else Place("val", x)
            return
        if isinstance(x, Place): x = self.load(st, x)
        if x.op == "seq" and k == "vec": x = tovec(x)
        if x.op == "seq" and x.a and strip(t).startswith(("std::vector<", "std::list<")) and not isref(t): x = self.listed(strip(t), x, st, v.get("l", ""))
        if x.op == "seq" and not isref(t):
            o = self.mkobj("local:" + strip(t), v.get("l", ""))
            st.heap[(o, "#")] = x
            x = o
        st.env[v["id"]] = x
        if v.get("binds"):
            for i, b in enumerate(v["binds"]): pass

    def s_decl(self, s, st):
        for v in s["v"]:
            if st.g == 0: return
            self.decl(v, st)

    def s_if(self, s, st):
        if s.get("i"): self.block(s["i"], st)
        if s.get("cv"): self.decl(s["cv"], st)
        f = self.cond(s["c"], st)
        if st.g == 0: return
        f = f
        g0 = st.g
        s1, s2 = st.copy(), st.copy()
        s1.g, s2.g = B.AND(g0, f), B.AND(g0, B.NOT(f))
        if unsat_cheap(s1.g): s1.g = 0
        if unsat_cheap(s2.g): s2.g = 0
        self.block(s["a"], s1)
        if s.get("b"): self.block(s["b"], s2)
        m = self.merge(f, s1, s2)
        st.env, st.heap, st.g = m.env, m.heap, (B.OR(s1.g, s2.g))

    def s_ret(self, s, st):
        v = None
        fr = self.frames[-1]
        if s.get("e") is not None:
            x = s["e"]
            # a local container is handed over, not copied
            while x["k"] in ("ctor", "bind", "cast") and (x["k"] != "ctor" or x.get("copy") and strip(x["t"]).startswith(("std::vector<", "std::list<"))): x = x["a"][0] if x["k"] == "ctor" else x["e"]
            if x["k"] == "call" and x.get("f") and x["f"]["q"] == "std::move": x = x["a"][0]
            loc = x["k"] == "ref" and isinstance(st.env.get(x["id"]), T) and st.env[x["id"]].op == "new" and x is not s["e"]
            v = self.ev(x if loc else s["e"], st)
            if st.g == 0: return
            rt = fr.fun.get("rt", "")
            if isinstance(v, Place) and not (isref(rt) and kind(rt) != "obj"): v = self.load(st, v)
            if isinstance(v, Place) and v.k == "var" and isinstance(st.env.get(v.a), Place): v = st.env[v.a]
            if isinstance(v, T) and v.op == "seq" and kind(rt) == "vec": v = tovec(v)
        s2 = st.copy()
        fr.rets.append((s2, v))
        st.g = 0

    def s_py(self, s, st): s["fn"](st)

    def s_break(self, s, st):
        self.lctx[-1].breaks.append(st.copy())
        st.g = 0

    def s_continue(self, s, st):
        for l in reversed(self.lctx):
            if not getattr(l, "switch", False):
                l.conts.append(st.copy())
                break
        st.g = 0

    def s_switch(self, s, st):
        v = self.rv(s["c"], st)
        body = s["b"]["s"] if s["b"]["k"] == "block" else [s["b"]]
        lc = LoopCtx()
        lc.switch = True
        self.lctx.append(lc)
        g0 = st.g
        cur = st.copy()
        cur.g = 0
        remaining = g0
        # flatten case labels
        items = []
        def flat(x):
            while x and x["k"] in ("case", "default"):
                items.append(("label", x))
                x = x["s"]
            if x: items.append(("s", x))
        for x in body: flat(x)
        entry = st.copy()
        labels = [x for k, x in items if k == "label"]
        groups = switch_groups(items)
        if groups is not None:
            # no case runs into the next one: a chain of alternatives
            self.lctx.pop()
            def chain(i, s0):
                if i == len(groups): return
                ls, ss = groups[i]
                if any(x["k"] == "default" for x in ls):
                    for x in ss: self.block(x, s0)
                    return
                f = B.OR(*[eq(v, self.rv(x["c"], s0), True) for x in ls])
                s1, s2 = s0.copy(), s0.copy()
                s1.g, s2.g = B.AND(s0.g, f), B.AND(s0.g, B.NOT(f))
                if unsat_cheap(s1.g): s1.g = 0
                if unsat_cheap(s2.g): s2.g = 0
                for x in ss: self.block(x, s1)
                chain(i + 1, s2)
                m = self.merge(f, s1, s2)
                s0.env, s0.heap, s0.g = m.env, m.heap, B.OR(s1.g, s2.g)
            return chain(0, st)
        consts = {id(x): eq(v, self.rv(x["c"], st), True) for x in labels if x["k"] == "case"}
        anycase = B.OR(*consts.values()) if consts else 0
        for k, x in items:
            if k == "label":
                f = consts[id(x)] if x["k"] == "case" else B.NOT(anycase)
                ent = entry.copy()
                ent.g = B.AND(g0, f)
                if cur.g == 0: cur = ent
                else: cur = self.merge(f, ent, cur)
            else: self.block(x, cur)
        self.lctx.pop()
        nodef = not any(x["k"] == "default" for x in labels)
        res = cur
        if nodef:
            e2 = entry.copy()
            e2.g = B.AND(g0, B.NOT(anycase))
            res = self.merge(e2.g, e2, res) if e2.g != 0 else res
        for b in lc.breaks: res = self.merge(b.g, b, res)
        st.env, st.heap, st.g = res.env, res.heap, res.g

    def s_try(self, s, st):
        def rethrow(b):
            while b and b["k"] == "block" and len(b["s"]) == 1: b = b["s"][0]
            return b and b["k"] == "expr" and b["e"]["k"] == "throw"
        if all(rethrow(h["b"]) for h in s["h"]): return self.block(s["b"], st)
        def harmless(b, d=4):
            """nothing in here can throw"""
            from rules import walk
            for e in walk(b):
                if e["k"] in ("throw", "new", "lambda", "unk"): return False
                if e["k"] in ("call", "ctor", "construct"):
                    r = e.get("f")
                    fn = self.P.funs.get(r.get("f")) if isinstance(r, dict) else None
                    if fn is None or d == 0 or not harmless(fn.get("body"), d - 1) or fn.get("inits"): return False
            return True
        if harmless(s["b"]): return self.block(s["b"], st)
        self.trycnt += 1
        n = str(self.fresh(("exc",)))
        tag = mk("exc", n)
        f = B.atom(tag)
        pre = st.copy()
        i0, fr = len(self.effects), self.frames[-1]
        nr = len(fr.rets)
        body = st.copy()
        self.excs.append(tag)
        self.block(s["b"], body)
        self.excs.pop()
        for e in self.effects[i0:]:
            if e.kind == "throw" and e.caught is None: e.caught = [h["t"] for h in s["h"]]
        body.g = B.AND(body.g, B.NOT(f))
        for r, _ in fr.rets[nr:]: r.g = B.AND(r.g, B.NOT(f))
        outs, thrown, left = body, self.P.throws(s["b"]), f
        for i, h in enumerate(s["h"]):
            mine = {t for t in thrown if self.P.catches(h["t"], t)}
            if mine == thrown: c = left             # whatever is thrown ends up here
            else:
                c = 0
                for t in sorted(mine): c = B.OR(c, B.atom(mk("exc", n, t)))
                c = B.AND(left, c)
            thrown = thrown - mine
            left = B.AND(left, B.NOT(c))
            hs = pre.copy()
            hs.g = B.AND(pre.g, c)
            if "id" in h: hs.env[h["id"]] = mk("sym", "exception")
            if c != 0: self.block(h["b"], hs)
            outs = self.merge(c, hs, outs)
        st.env, st.heap, st.g = outs.env, outs.heap, outs.g

    # -------------------------------------------------------------- loops
    def s_rfor(self, s, st):
        r = self.ev(s["r"], st)
        if isinstance(r, Place): r = self.load(st, r)
        c = self.range_of(r, s["r"], st)
        ct = self.contents(st, c) if c.op != "seq" else c
        if ct is None:
            m = re.match(r"std::array<.*, (\d+)>$", strip(s["r"].get("t", "")))
            n = int(m.group(1)) if m else self.extent.get(c)
            if n is not None and n <= self.max_unroll:
                return self.unroll(s, st, list(range(n)), lambda s2, i: self.bindloop(s["v"], self.index(s2, c, num(i), s["v"]["t"]), s2, c, num(i)))
        if ct is not None and ct.op == "seq" and len(ct.a) <= self.max_unroll:
            if c.op == "seq": return self.unroll(s, st, [ct.a[i] for i in range(len(ct.a))], lambda s2, v: self.bindloop(s["v"], v, s2))
            return self.unroll(s, st, list(range(len(ct.a))), lambda s2, i: self.bindloop(s["v"], self.index(s2, c, num(i), s["v"]["t"]), s2, c, num(i)))
        n = self.size(st, c)
        def setup(s2, iv): self.bindloop(s["v"], self.index(s2, c, iv, s["v"]["t"]), s2, c, iv)
        self.range_loop(s, st, c, ZERO, n, setup, s["b"])

    def range_of(self, r, e, st):
        """container term a range-for iterates over (repository classes: through begin())"""
        t = strip(e.get("t", ""))
        if t.startswith("std::") or r.op == "seq": return r
        from models import iter_root
        x = iter_root(self, r, t, st)
        return x if x is not None else r

    def bindloop(self, v, val, st, c=None, iv=None):
        t = v["t"]
        k = kind(t)
        if isref(t) and k != "obj" and c is not None and "const" not in t:
            st.env[v["id"]] = Place("ix", c, iv, t)
        else: st.env[v["id"]] = Place("val", val) if isref(t) and k != "obj" else val

    def unroll(self, s, st, vals, binder, inc=None):
        lc = LoopCtx()
        brk = []
        for v in vals:
            if st.g == 0: break
            lc = LoopCtx()
            self.lctx.append(lc)
            binder(st, v)
            self.block(s["b"], st)
            self.lctx.pop()
            for c in lc.conts:
                m = self.merge(c.g, c, st)
                st.env, st.heap, st.g = m.env, m.heap, m.g
            brk += lc.breaks
        for b in brk:
            m = self.merge(b.g, b, st)
            st.env, st.heap, st.g = m.env, m.heap, m.g

    def s_for(self, s, st):
        if s.get("i"): self.block(s["i"], st)
        self.gen_loop(s, st, s.get("c"), s.get("inc"), s["b"])

    def s_while(self, s, st):
        if s.get("cv"):
            # while (T x = e): evaluate per iteration
            s = dict(s)
            s["b"] = {"k": "block", "l": s["l"], "s": [{"k": "decl", "l": s["l"], "v": [s["cv"]]}, {"k": "if", "l": s["l"], "c": s["c"], "a": s["b"], "b": {"k": "break", "l": s["l"]}}]}
            return self.gen_loop(s, st, None, None, s["b"])
        self.gen_loop(s, st, s["c"], None, s["b"])

    def s_do(self, s, st):
        if s["c"]["k"] == "bool" and not s["c"]["v"]:
            lc = LoopCtx()
            self.lctx.append(lc)
            self.block(s["b"], st)
            self.lctx.pop()
            for b in lc.conts + lc.breaks:
                m = self.merge(b.g, b, st)
                st.env, st.heap, st.g = m.env, m.heap, m.g
            return
        # do S while(c)  ==  S-first loop; treated as generic loop without entry test
        self.gen_loop(s, st, None, None, {"k": "block", "l": s["l"], "s": [s["b"], {"k": "if", "l": s["l"], "c": {"k": "un", "op": "!", "e": s["c"], "t": "bool", "l": s["l"]}, "a": {"k": "break", "l": s["l"]}, "b": None}]})

    def quiet(self, fn):
        rec, sq, nc, tc, oc = self.recording, dict(self.seq), dict(self.newcnt), self.trycnt, dict(self.occ)
        self.recording = False
        try: return fn()
        finally:
            self.recording, self.seq, self.newcnt, self.trycnt, self.occ = rec, sq, nc, tc, oc

    def run_body(self, st, body, inc, pre):
        """execute one generic iteration; returns (end-of-iteration state, breaks, returns)"""
        lc = LoopCtx()
        self.lctx.append(lc)
        fr = self.frames[-1]
        nr = len(fr.rets)
        s = State(dict(st.env), dict(st.heap), 1)
        pre(s)
        if s.g != 0: self.block(body, s)
        self.lctx.pop()
        for c in lc.conts: s = self.merge(c.g, c, s)
        if inc is not None and s.g != 0: self.ev(inc, s)
        rets = fr.rets[nr:]
        del fr.rets[nr:]
        return s, lc.breaks, rets

    def changed(self, a, b):
        ks = set()
        for k in set(a.env) | set(b.env):
            if k in a.env and a.env.get(k) is not b.env.get(k) and not (isinstance(a.env.get(k), Place) and isinstance(b.env.get(k), Place) and samep(a.env[k], b.env[k])):
                ks.add(("e", k))
        for k in set(a.heap) | set(b.heap):
            if a.heap.get(k) is not b.heap.get(k): ks.add(("h", k))
        return ks

    def getk(self, s, k):
        if k[0] == "e":
            v = s.env.get(k[1])
            return v
        v = s.heap.get(k[1])
        return v if v is not None else self.dflt(k[1])

    def setk(self, s, k, v):
        if k[0] == "e": s.env[k[1]] = v
        else: s.heap[k[1]] = v

    def gen_loop(self, s, st, cond, inc, body):
        depth = len(self.loops)
        # constant trip count: unroll
        if cond is not None and inc is not None:
            un = self.try_unroll(s, st, cond, inc, body)
            if un: return
        # 1. which locations change?
        tmp = Loop(("?", depth, s["l"]), None, None, None, True, 1, "probe", s["l"])
        self.loops.append(tmp)
        keys = set()
        phis = {}
        def phase(start):
            def pre(x):
                if cond is not None:
                    f = self.cond(cond, x)
                    x.g = B.AND(x.g, f)
            return self.quiet(lambda: self.run_body(start, body, inc, pre))
        start = st.copy()
        for _ in range(6):
            end, brk, rets = phase(start)
            ch = self.changed(start, end)
            for b in brk: ch |= self.changed(start, b)
            new = {k for k in ch if k not in phis and self.loopkey(k)}
            if not new: break
            for k in new:
                ph = mk("phi", "%s@%d:%s" % (s["l"], depth, self.kname(k)))
                phis[k] = ph
                self.setk(start, k, ph)
        # 2. induction variable + range?
        self.loops.pop()
        ind = {}
        for k, ph in phis.items():
            out = self.getk(end, k)
            if isinstance(out, T) and end.g != 0:
                d = self.step(out, ph)
                if d is not None: ind[k] = d
        rng = None
        extra = []
        if cond is not None:
            rng, extra = self.find_range(cond, start, st, phis, ind)
        dr = self.drained(cond, start, body, inc, phis) if rng is None and cond is not None and inc is None else None
        if dr is not None:
            uid = self.uid(depth, None, ZERO, dr)
            def setup(x, iv_):
                for k2, ph in phis.items(): self.setk(x, k2, ph)
            self.finish_loop(s, st, uid, None, ZERO, dr, setup, body, inc, phis, {}, None, False, None, 1, {})
        elif rng is not None:
            k, lo, hi, step, c = rng
            uid = self.uid(depth, c, lo, hi)
            iv = IV(uid)
            init = self.getk(st, k)
            base = {}
            for k2, d in ind.items():
                i2 = self.getk(st, k2)
                if k2 == k: base[k2] = advance(init, mul(d, iv))
                elif isinstance(i2, T): base[k2] = advance(i2, mul(d, iv)) if isnumlike(i2) or i2.op == "iter" else phis[k2]
            def setup(x, iv_):
                for k2, ph in phis.items():
                    self.setk(x, k2, base.get(k2, ph))
                for ex in extra:
                    f = self.cond(ex, x)
                    b = x.copy()
                    b.g = B.AND(x.g, B.NOT(f))
                    if b.g != 0: self.lctx[-1].breaks.append(b)
                    x.g = B.AND(x.g, f)
            self.finish_loop(s, st, uid, c, lo, hi, setup, body, inc, phis, ind, k, bool(extra), cond, 1, base)
        else:
            uid = ("w", depth, str(self.fresh(("loop", depth))))
            def setup(x, iv_):
                for k2, ph in phis.items(): self.setk(x, k2, ph)
                if cond is not None:
                    f = self.cond(cond, x)
                    x.g = B.AND(x.g, f)
            self.finish_loop(s, st, uid, None, None, None, setup, body, inc, phis, {}, None, True, cond, 1, {})

    def drained(self, cond, start, body, inc, phis):
        """size of the container a loop empties: it runs while there is an element
        and takes out exactly one per iteration"""
        f = self.quiet(lambda: self.cond(cond, start.copy()))
        sup = B.support(f)
        if len(sup) != 1 or sup[0].op != "gt0" or f != B.atom(sup[0]): return None
        n = sup[0].a[0]
        if n.op != "size": return None
        c = n.a[0]
        i0, b0 = len(self.effects), list(self.base)
        keep = dict(self.seq), dict(self.newcnt), self.trycnt, dict(self.occ)
        self.base.append(1)
        end, brk, rets = self.run_body(start.copy(), body, inc, lambda x: None)
        es = [e for e in self.effects[i0:] if e.args and e.args[0] is c and e.kind not in ("pure", "call") or e.kind == "call" and c in e.args]
        del self.effects[i0:]
        self.base = b0
        self.seq, self.newcnt, self.trycnt, self.occ = keep
        if brk or rets or len(es) != 1 or es[0].guard != 1 or es[0].loops != tuple(self.loops): return None
        return n if es[0].kind == "remove" else None

    def mkcur(self, init, lo):
        if isinstance(init, T) and init.op == "iter": return mk("iter", init.a[0], lo)
        return lo

    def uid(self, depth, c, lo, hi):
        return ("r", depth, sub(hi, lo))

    def kname(self, k):
        return str(k[1]) if k[0] == "e" else "%s.%s" % (k[1][0].id, k[1][1])

    def loopkey(self, k):
        if k[0] == "e": return True
        o, n = k[1]
        # locations that depend on the probe loop's own generic objects are per-iteration
        return not any(x.op == "iv" and x.a[0] == "?" for x in free(o))

    def step(self, out, ph):
        if out.op == "iter": return None
        if out.op == "op" or not (out.op == "poly" or out is ph): 
            if out.op == "adv" and out.a[0] is ph: return out.a[1]
            return None
        d = sub(out, ph)
        return d if numval(d) is not None and numval(d) != 0 else None

    def find_range(self, cond, start, st, phis, ind):
        conj = []
        def split(e):
            if e["k"] == "bin" and e["op"] == "&&":
                split(e["a"]); split(e["b"])
            else: conj.append(e)
        split(cond)
        for n, e in enumerate(conj):
            f = self.quiet(lambda: self.cond(e, start.copy()))
            for k, d in ind.items():
                ph = phis[k]
                sv = numval(d)
                init = self.getk(st, k)
                if not isinstance(init, T) or abs(sv) != 1: continue
                r = self.match_range(f, ph, init, sv, phis, start, st)
                if r is not None:
                    return (k,) + r, conj[:n] + conj[n + 1:]
        return None, []

    def match_range(self, f, ph, init, sv, phis, start, st):
        allph = set(phis.values())
        sup = B.support(f)
        pterm = ph
        # iterator variable: init iter(C,i0); phi stands for the iterator
        if init.op == "iter":
            c = init.a[0]
            if len(sup) == 1 and sup[0].op == "eq" and f == B.NOT(B.atom(sup[0])):
                x, y = sup[0].a
                o = y if x is ph else x if y is ph else None
                if o is not None and o.op == "iter" and o.a[0] is c and sv == 1:
                    return (init.a[1], o.a[1], 1, c)
            return None
        for a in sup:
            if a.op != "gt0" and a.op != "eq": continue
        if sv == 1:
            # i < N   : N - i > 0 ; i != N
            for a in sup:
                if a.op == "gt0":
                    p = a.a[0]
                    d = pd(p)
                    co = d.get(((ph, 1),))
                    if co is None: continue
                    hi = None
                    if f == B.atom(a) and co == -1: hi = add(p, ph)
                    elif f == B.NOT(B.atom(a)) and co == 1:   # not(i - q > 0): i <= q ; int: i < q+1
                        hi = add(neg(sub(p, ph)), ONE if a.a[1] else ZERO)
                    elif co == 1 or co == -1:
                        # i != N  appears as  not eq
                        N = sub(ph, p) if co == 1 else add(p, ph)
                        for cand in (N, add(N, num(-1)), add(N, ONE)):
                            if f == B.NOT(eq(ph, cand, True)): hi = cand
                    if hi is not None and not (free_deep(hi) & allph):
                        return (init, hi, 1, self.cont_of(init, hi, st))
        if sv == -1:
            for a in sup:
                if a.op == "gt0":
                    p = a.a[0]
                    d = pd(p)
                    co = d.get(((ph, 1),))
                    if co is None: continue
                    lo = None
                    if f == B.atom(a) and co == 1: lo = add(neg(sub(p, ph)), ONE)   # i - q > 0 -> i >= q+1
                    elif f == B.NOT(B.atom(a)) and co == -1: lo = add(p, ph)          # not(q - i > 0): i>=q
                    if lo is not None and not (free_deep(lo) & allph):
                        return (lo, add(init, ONE), -1, self.cont_of(lo, add(init, ONE), st))
        return None

    def cont_of(self, lo, hi, st):
        if lo is ZERO and hi.op == "size": return hi.a[0]
        return None

    def try_unroll(self, s, st, cond, inc, body):
        # probe with constants: run condition concretely for up to max_unroll+1 rounds
        if s.get("i") is None or s["i"]["k"] != "decl" or len(s["i"]["v"]) < 1: return False
        v = s["i"]["v"][0]
        cur = st.env.get(v["id"])
        if not isinstance(cur, T) or numval(cur) is None: return False
        f = self.quiet(lambda: self.cond(cond, st.copy()))
        if f not in (0, 1): return False
        # the loop variable must only be changed by inc: simulate on a probe
        n, probe = 0, st.copy()
        while True:
            f = self.quiet(lambda: self.cond(cond, probe))
            if f == 0: break
            if f != 1 or n > self.max_unroll: return False
            self.quiet(lambda: self.ev(inc, probe))
            x = probe.env.get(v["id"])
            if not isinstance(x, T) or numval(x) is None: return False
            n += 1
        brk = []
        for _ in range(n + 2):
            if st.g == 0: break
            f = self.cond(cond, st)
            if f == 0: break
            if f != 1:
                b = st.copy()
                b.g = B.AND(st.g, B.NOT(f))
                if b.g != 0: brk.append(b)
                st.g = B.AND(st.g, f)
                if st.g == 0: break
            if len(brk) > 40: return self._unroll_bad()
            lc = LoopCtx()
            self.lctx.append(lc)
            self.block(body, st)
            self.lctx.pop()
            for c in lc.conts:
                m = self.merge(c.g, c, st)
                st.env, st.heap, st.g = m.env, m.heap, m.g
            brk += lc.breaks
            if st.g != 0: self.ev(inc, st)
        for b in brk:
            m = self.merge(b.g, b, st)
            st.env, st.heap, st.g = m.env, m.heap, m.g
        return True

    def _unroll_bad(self): raise Giveup("loop variable changed in an unrolled body")

    def range_loop(self, s, st, c, lo, hi, setup, body):
        depth = len(self.loops)
        uid = self.uid(depth, c, lo, hi)
        iv = IV(uid)
        probe = Loop(uid, c, lo, hi, False, 1, "range", s["l"])
        self.loops.append(probe)
        phis = {}
        start = st.copy()
        ivt = iv
        for _ in range(6):
            end, brk, rets = self.quiet(lambda: self.run_body(start, body, None, lambda x: setup(x, ivt)))
            ch = self.changed(start, end)
            for b in brk: ch |= self.changed(start, b)
            new = {k for k in ch if k not in phis and not (k[0] == "h" and iv in free_deep(k[1][0]))
                   and not (k[0] == "e" and k[1] == s.get("v", {}).get("id"))}
            new = {k for k in new if not (k[0] == "e" and k[1] not in st.env)}
            if not new: break
            for k in new:
                ph = mk("phi", "%s@%d:%s" % (s["l"], depth, self.kname(k)))
                phis[k] = ph
                self.setk(start, k, ph)
        self.loops.pop()
        ind, base = {}, {}
        for k, ph in phis.items():
            out = self.getk(end, k)
            if isinstance(out, T) and end.g == 1 and not brk:
                d = self.step(out, ph)
                if d is not None:
                    i2 = self.getk(st, k)
                    if isinstance(i2, T):
                        ind[k] = d
                        base[k] = advance(i2, mul(d, iv))
        def setup2(x, iv_):
            for k2, ph in phis.items(): self.setk(x, k2, base.get(k2, ph))
            setup(x, iv_)
        self.finish_loop(s, st, uid, c, lo, hi, setup2, body, None, phis, ind, None, False, None, 1, base)

    def finish_loop(self, s, st, uid, c, lo, hi, setup, body, inc, phis, ind, mainkey, partial, cond, g, base):
        iv = IV(uid)
        L = Loop(uid, c, lo, hi, partial, g, "range" if hi is not None else "while", s["l"])
        self.loops.append(L)
        self.base.append(self.guard(st))
        start = st.copy()
        i0 = len(self.effects)
        known = lo is not None and hi is not None and numval(lo) == 0 and iv not in TM.RANGES
        if known: TM.RANGES[iv] = hi
        try: end, brk, rets = self.run_body(start, body, inc, lambda x: setup(x, iv))
        finally:
            if known: del TM.RANGES[iv]
        self.base.pop()
        self.loops.pop()
        phis = dict(phis)
        flags = []
        while True:
            k = self.deflag(st, phis, end, brk, rets, i0, base)
            if k is None: break
            flags.append(k)
        phis = self.canon_phis(st, iv, phis, base, end, brk, rets, i0)
        if brk or rets: L.partial = True
        L.exit = B.OR(*[b.g for b in brk], *[r[0].g for r in rets])
        BG = B.OR(*[b.g for b in brk]) if brk else 0
        RG = B.OR(*[r[0].g for r in rets]) if rets else 0
        pre = st.copy()
        # value after a complete run
        post = st.copy()
        for k in set(phis) | {x for x in self.changed(start, end) if x[0] == "h"}:
            out = self.getk(end, k)
            init = self.getk(pre, k)
            ph = phis.get(k)
            if ph is None:
                # per-element location: written for every element of a complete loop
                if not L.partial and L.kind == "range": post.heap[k[1]] = out
                elif isinstance(out, T): post.heap[k[1]] = mk("loopout", iv, out)
                continue
            if (BG or RG) and isinstance(out, T): out = under(out, B.NOT(B.OR(BG, RG)))
            self.setk(post, k, self.loop_result(uid, iv, lo, hi, k, ph, init, out, ind, mainkey, L, BG, RG, end))
        # leaving the loop: at the first iteration where E holds
        E = B.OR(BG, RG)
        if E:
            if self.once_calls(st, iv, L, E, end, brk, rets, i0):
                BG = B.OR(*[b.g for b in brk]) if brk else 0
                RG = B.OR(*[r[0].g for r in rets]) if rets else 0
                E = L.exit = B.OR(BG, RG)
            self.last_acts(st, uid, iv, L, E, phis, i0)
        if brk:
            anyb = self.anyf(uid, E, phis)
            # merge break states into one, then choose
            bm = brk[-1]
            for b in brk[:-1][::-1]: bm = self.merge(b.g, b, bm)
            for k in set(phis) | set(flags):
                bv, pv = self.getk(bm, k), self.getk(post, k)
                if k in flags and isinstance(bv, T) and isinstance(pv, T):
                    bv = under(bv, BG)
                    if free_deep(bv) & ({iv} | set(phis.values())): bv = mk("first", iv, E, bv)
                    self.setk(post, k, ite(anyb, bv, pv))
                    continue
                if not isinstance(bv, T) or not isinstance(pv, T): continue
                bv = under(bv, BG)
                if free_deep(bv) & {iv}: bv = self.split_out(uid, iv, E, lambda g: mk("first", iv, g, bv)) if not (free_deep(bv) & set(phis.values())) else mk("brk", iv, bv)
                elif phis[k] in free_deep(bv): bv = mk("loopout", iv, bv) if bv is not phis[k] else (self.getk(pre, k) if self.getk(end, k) is phis[k] else mk("loopout", iv, bv))
                self.setk(post, k, ite(anyb, bv, pv))
        # returns inside the loop
        if rets:
            anyr = self.anyf(uid, E, phis)
            if brk: anyr = B.AND(anyr, fm(mk("first", iv, E, boolt(RG))))
            fr = self.frames[-1]
            vals = []
            for (rs, rvv) in rets:
                v = self.load(rs, rvv) if isinstance(rvv, Place) and rvv.k != "void" else rvv
                for i, (g_, v_, s_) in enumerate(vals):
                    if v_ is v: vals[i] = (B.OR(g_, rs.g), v_, self.merge(rs.g, rs, s_)); break
                else: vals.append((rs.g, v, rs))
            if len(vals) > 1 and all(isinstance(v, T) for _, v, _ in vals):
                if all(isb(v) for _, v, _ in vals):
                    v = boolt(B.OR(*[B.AND(g_, fm(v_)) for g_, v_, _ in vals]))
                else:
                    vals.sort(key=lambda x: str(x[1]))
                    v = vals[-1][1]
                    for g_, v_, _ in vals[:-1]: v = ite(g_, v_, v)
                ms = vals[-1][2]
                for g_, _, s_ in vals[:-1]: ms = self.merge(g_, s_, ms)
                vals = [(RG, v, ms)]
            for g_, v, rs in vals:
                if isinstance(v, T) and iv in free_deep(v): v = under(v, g_)
                s2 = post.copy()
                for k in set(phis): self.setk(s2, k, self.getk(rs, k))
                for k in self.changed(start, rs):
                    x = rs.heap.get(k[1]) if k[0] == "h" and k not in phis and iv not in free_deep(k[1][0]) else None
                    if isinstance(x, T): s2.heap[k[1]] = mk("first", iv, E, x) if free_deep(x) & ({iv} | set(phis.values())) else x
                s2.g = B.AND(st.g, anyr if len(vals) == 1 else self.anyf(uid, g_, phis))
                if isinstance(v, T) and (iv in free_deep(v)): v = self.split_out(uid, iv, E, lambda g: mk("first", iv, g, v))
                fr.rets.append((s2, v))
            post.g = B.AND(st.g, B.NOT(anyr))
        st.env, st.heap, st.g = post.env, post.heap, post.g
        # body that never ends normally (throws) : handled through effects only

    def once_calls(self, st, iv, L, E, end, brk, rets, i0):
        """a call made only in the iteration that ends the loop is made once: no iteration number"""
        m = {}
        here = tuple(self.loops) + (L,)
        for e in self.effects[i0:]:
            r = e.val
            if e.kind == "call" and isinstance(r, T) and r.op == "call" and e.loops == here and implies(e.guard, E) and iv in r.a \
                    and not any(isinstance(x, T) and iv in free_deep(x) for x in e.args):
                m[r] = mk("call", *[x for x in r.a if x is not iv])
        if m: self.apply_map(m, end, brk, rets, i0, True)
        return bool(m)

    def last_acts(self, st, uid, iv, L, E, phis, i0):
        """what a loop does only in the iteration that ends it is done once, after the
        loop, to the element the loop has stopped at"""
        if uid[0] != "r": return
        ps = set(phis.values())
        here = tuple(self.loops) + (L,)
        es = self.effects[i0:]
        bad = lambda t: isinstance(t, T) and bool(free_deep(t) & ps) or isinstance(t, Place) and any(bad(x) for x in (t.a, t.b))
        if any(free_deep(a) & ps for a in B.support(E)): return
        f = canon(E)
        def once(e):
            return (e.loops == here and implies(e.guard, f) and not any(bad(x) for x in e.args) and not bad(e.val)
                    and not any(isinstance(x, Closure) for x in e.args) and not any(free_deep(a) & ps for a in B.support(e.guard)))
        marks = [once(e) for e in es]
        if True not in marks or False in marks[marks.index(True):]: return
        def at(v):
            if isinstance(v, Place):
                return Place(v.k, at(v.a) if isinstance(v.a, (T, Place)) else v.a, at(v.b) if isinstance(v.b, T) else v.b, v.t)
            if not isinstance(v, T) or iv not in free_deep(v): return v
            if v.op == "iter": return mk("iter", at(v.a[0]), at(v.a[1]))
            if v.op == "poly" and iv in [a for m in pd(v) for a, _ in m] and iv not in free_deep(sub(v, iv)):
                return add(mk("first", iv, f, iv), sub(v, iv))
            return mk("first", iv, f, v)
        for e, m in zip(es, marks):
            if not m: continue
            e.args = tuple(at(x) for x in e.args)
            if e.val is not None: e.val = at(e.val)
            e.loops = tuple(self.loops)
            g = e.guard
            b = self.guard(st)
            h = B.restrict(g, B.AND(b, f))
            if equiv(B.AND(b, f), g): e.guard = B.AND(b, self.anyf(uid, f))
            elif not any(iv in free_deep(a) for a in B.support(h)): e.guard = B.AND(b, self.anyf(uid, f), h)
            else: e.guard = B.AND(b, self.anyf(uid, f), fm(mk("first", iv, f, boolt(g))))

    def apply_map(self, m, end, brk, rets, i0, deep=False):
        """replace terms in everything one iteration has produced"""
        memo = {}
        phset = set(m)
        def rt(t):
            if not isinstance(t, T) or not deep and not (phset & free_deep(t)): return t
            return rebuild(t, lambda x: m.get(x, x), memo)
        def rf(f):
            if f <= 1: return f
            return rebuild_f(f, lambda x: m.get(x, x), memo)
        def rp(v):
            if isinstance(v, Place):
                a = rp(v.a) if isinstance(v.a, Place) else rt(v.a) if isinstance(v.a, T) else v.a
                b = rt(v.b) if isinstance(v.b, T) else v.b
                return v if a is v.a and b is v.b else Place(v.k, a, b, v.t)
            return rt(v)
        seen = set()
        for e in self.effects[i0:]:
            e.args = tuple(rp(x) for x in e.args)
            e.guard = rf(e.guard)
            if e.val is not None: e.val = rp(e.val)
            for L in e.loops:
                if id(L) not in seen:
                    seen.add(id(L))
                    if L.uid[0] == "r": L.uid = tuple(rt(x) for x in L.uid)
                    L.exit = rf(L.exit)
        sts = [end] + list(brk) + [r[0] for r in rets]
        for s in sts:
            if s is None: continue
            s.g = rf(s.g)
            for k, v in list(s.env.items()):
                if v is not None and not isinstance(v, Closure): s.env[k] = rp(v)
            for k, v in list(s.heap.items()):
                nk = (rt(k[0]), k[1])
                if nk != k: del s.heap[k]
                s.heap[nk] = rp(v)
        for i in range(len(rets)): rets[i] = (rets[i][0], rp(rets[i][1]) if not isinstance(rets[i][1], Closure) else rets[i][1])

    def deflag(self, st, phis, end, brk, rets, i0, base):
        """a flag that stops the loop before the next iteration is a break at the
        end of the iteration that changes it"""
        for k, ph in list(phis.items()):
            v0 = self.getk(st, k)
            if v0 is not TRUE and v0 is not FALSE: continue
            out = self.getk(end, k)
            if not isinstance(out, T) or not (isb(out) or out.op == "ite" or out is ph): continue
            if not all(self.getk(b, k) is not None for b in brk): continue
            at = mk("truth", ph)
            stop = 0 if v0 is TRUE else 1                 # value of the flag that ends the loop
            z = lambda f: B.quant(f, at, stop)
            if end.g == 0 or z(end.g) != 0: continue
            if any(z(r[0].g) != 0 for r in rets): continue
            if any(B.AND(e.guard, B.atom(at) if stop else B.NOT(B.atom(at))) != 0 for e in self.effects[i0:]): continue
            if any(z(b.g) != 0 and self.changed_phis(phis, b, base) for b in brk): continue
            self.apply_map({ph: v0}, end, brk, rets, i0)
            del phis[k]
            out = self.getk(end, k)
            f = fm(out)
            if not stop: f = B.NOT(f)
            brk[:] = [b for b in brk if b.g != 0]
            bs = end.copy()
            bs.g = B.AND(end.g, f)
            self.setk(bs, k, TRUE if stop else FALSE)
            if bs.g != 0: brk.append(bs)
            end.g = B.AND(end.g, B.NOT(f))
            self.setk(end, k, v0)
            self.flagged = k
            return k
        # the same with a value that tells whether something was found (null, -1)
        for k, ph in list(phis.items()):
            v0 = self.getk(st, k)
            if not isinstance(v0, T) or v0.op not in ("c", "poly") or v0 is TRUE or v0 is FALSE or v0.op == "poly" and numval(v0) is None: continue
            out = self.getk(end, k)
            if not isinstance(out, T) or out.op != "ite" or end.g <= 1: continue
            for at in B.support(end.g):
                if free_deep(at) != {ph} or any(x.op == "f" for x in subterms(at)): continue
                go = rebuild_f(B.atom(at), lambda x: v0 if x is ph else x, {})
                if go not in (0, 1): continue
                stop = 1 - go
                z = lambda f: B.quant(f, at, stop)
                if z(end.g) != 0 or any(z(r[0].g) != 0 for r in rets): continue
                if any(z(e.guard) != 0 for e in self.effects[i0:]): continue
                if any(z(b.g) != 0 and self.changed_phis(phis, b, base) for b in brk): continue
                seen = set()
                for f in [end.g] + [e.guard for e in self.effects[i0:]]:
                    for a in list(B.support(f)) + [out]:
                        for x in subterms(a):
                            if x.op in ("f", "call") and isinstance(x.a[0], T): seen.add(x.a[0])
                def found(o, n=0):
                    """where the value says stop; None if that is not known"""
                    if o is ph or o is v0: return 0
                    if o.op == "ite":
                        if n > 12: return None
                        a, b = found(o.a[1], n + 1), found(o.a[2], n + 1)
                        if a is None or b is None: return None
                        return B.ite(o.a[0], a, b)
                    if at.op == "truth" and o in seen: return 1
                    f = rebuild_f(B.atom(at), lambda x: o if x is ph else x, {})
                    if not go: f = B.NOT(f)
                    return 1 if unsat(f) else 0 if unsat(B.NOT(f)) and o is v0 else None
                if found(out) is None: continue
                self.apply_map({ph: v0}, end, brk, rets, i0)
                del phis[k]
                out = self.getk(end, k)
                f = found(out)
                brk[:] = [b for b in brk if b.g != 0]
                bs = end.copy()
                bs.g = B.AND(end.g, f)
                self.setk(bs, k, under(out, bs.g))
                if bs.g != 0: brk.append(bs)
                end.g = B.AND(end.g, B.NOT(f))
                self.setk(end, k, v0)
                return k
        return None

    def changed_phis(self, phis, b, base):
        return any(self.getk(b, k) is not base.get(k, ph) for k, ph in phis.items())

    def canon_phis(self, st, iv, phis, base, end, brk, rets, i0):
        """rename loop-carried values after what they are (first value, update), not
        after where they are written"""
        use = {k: ph for k, ph in phis.items() if k not in base}
        if not use: return phis
        SELF = mk("sym", "self")
        init, out = {}, {}
        for k, ph in use.items():
            x, y = self.getk(st, k), self.getk(end, k)
            init[ph] = x if isinstance(x, T) else mk("sym", "none")
            out[ph] = steady(y) if isinstance(y, T) and end.g != 0 else SELF
        col = {ph: mk("ph", init[ph]) for ph in init}
        for _ in range(2):
            new = {}
            for ph in init:
                m = dict(col)
                m[ph] = SELF
                new[ph] = mk("ph", init[ph], replace(out[ph], m))
            col = new
        m = {ph: mk("phi", iv, *col[ph].a) for ph in init}
        self.apply_map(m, end, brk, rets, i0)
        return {k: m.get(ph, ph) for k, ph in phis.items()}

    def anyf(self, uid, f, phis=None):
        f = canon(f)
        if f == 0: return 0
        iv = IV(uid)
        sup = B.support(f)
        dep = [a for a in sup if iv in free_deep(a) or (phis and free_deep(a) & set(phis.values()))]
        if f == 1: return B.atom(mk("any", iv, 1))
        if dep and len(dep) < len(sup) and uid[0] == "r" and len(sup) - len(dep) <= 6:
            # what does not depend on the iteration is decided outside
            x = next(a for a in sup if a not in dep)
            return B.ite(B.atom(x), self.anyf(uid, B.quant(f, x, 1), phis), self.anyf(uid, B.quant(f, x, 0), phis))
        if not dep and uid[0] == "r":
            # independent of the iteration: happens iff the loop runs at all and f
            return B.AND(B.atom(mk("any", iv, 1)), f)
        return B.atom(mk("any", iv, f))

    def split_out(self, uid, iv, f, mkt, n=6):
        """a selection over the iterations, with conditions that do not depend on
        the iteration decided outside of it"""
        f = canon(f)
        if uid[0] == "r" and n and f > 1:
            sup = B.support(f)
            dep = [a for a in sup if iv in free_deep(a) or any(x.op == "phi" for x in free_deep(a))]
            if dep and len(dep) < len(sup):
                x = next(a for a in sup if a not in dep)
                g, h = B.quant(f, x, 1), B.quant(f, x, 0)
                if g == 0: return self.split_out(uid, iv, h, mkt, n - 1)
                if h == 0: return self.split_out(uid, iv, g, mkt, n - 1)
                return ite(B.atom(x), self.split_out(uid, iv, g, mkt, n - 1), self.split_out(uid, iv, h, mkt, n - 1))
        return mkt(f)

    def loop_result(self, uid, iv, lo, hi, k, ph, init, out, ind, mainkey, L, BG, RG, end):
        if out is ph: return init
        if not isinstance(out, T) or not isinstance(init, T): return init
        nph = lambda x: ph not in free_deep(x)
        if k == mainkey:
            if hi is not None:
                if BG: return mk("loopout", iv, ph)
                return self.mkcur(init, hi) if numval(ind[k]) == 1 else sub(lo, ONE)
        if k in ind and hi is not None and not BG:
            return advance(init, mul(ind[k], sub(hi, lo)))
        if L.kind == "range" or True:
            # appended sequences
            r = self.seq_result(uid, iv, ph, init, out)
            if r is not None: return r
            if isnumlike(out) or isnumlike(init) or out.op in ("poly", "ite"):
                d = self.delta(out, ph)
                if d is not None and nph(d):
                    return add(init, mk("agg", "sum", iv, d))
            if out.op in ("min", "max") and ph in out.a:
                rest = [x for x in out.a if x is not ph]
                if all(nph(x) for x in rest):
                    return minmax(out.op, init, mk("agg", out.op, iv, minmax(out.op, *rest)))
            if out.op == "ite":
                for kd in ("min", "max"):
                    d = self.extremum(out, ph, kd)
                    if d is not None and nph(d): return minmax(kd, init, mk("agg", kd, iv, d))
            # conditional overwrite
            c = self.overwrite(out, ph)
            if c is not None:
                f, v = c
                if not any(ph in free_deep(a) for a in B.support(f)) and nph(v):
                    if iv not in free_deep(v): return ite(self.anyf(uid, f), v, init)
                    return ite(self.anyf(uid, f), self.split_out(uid, iv, f, lambda g: mk("last", iv, g, v)), init)
                # boolean flags:  flag &= x / flag |= x
            def leafb(o, n=0):
                if o.op == "ite": return n < 12 and leafb(o.a[1], n + 1) and leafb(o.a[2], n + 1)
                return o is ph or isb(o)
            if isb(out) or isb(init) and out.op == "ite" and leafb(out):
                f = fm(out)
                p = fm(ph)
                hi_, lo_ = B.quant(f, mk("truth", ph), 1), B.quant(f, mk("truth", ph), 0)
                if lo_ == 0: # stays false once false: and
                    return boolt(B.AND(fm(init), B.NOT(self.anyf(uid, B.NOT(hi_)))))
                if hi_ == 1:
                    return boolt(B.OR(fm(init), self.anyf(uid, lo_)))
                if hi_ == B.NOT(lo_) and not any(ph in free_deep(a) for a in B.support(lo_)):
                    # toggled: parity of the number of iterations where lo_ holds
                    o = TM.odd(mk("agg", "sum", iv, ite(lo_, ONE, ZERO)))
                    return boolt(B.ite(fm(init), B.NOT(o), o))
                if not BG and not RG and not any(ph in free_deep(a) or any(x.op == "phi" for x in free_deep(a)) for a in B.support(lo_) + B.support(hi_)):
                    # switched on and off by the iterations
                    r = [fm(mk("agg", "switched from " + n, iv, mk("tup", boolt(canon(lo_)), boolt(canon(hi_))))) for n in ("off", "on")]
                    return boolt(B.ite(fm(init), r[1], r[0]))
        return mk("loopout", iv, out)

    def seq_result(self, uid, iv, ph, init, out):
        def walk(o):
            """list of (guard,val) appended to ph, or None"""
            if o is ph: return []
            if o.op == "append":
                r = walk(o.a[0])
                return None if r is None else r + [(1, o.a[1])]
            if o.op == "ite":
                a, b = walk(o.a[1]), walk(o.a[2])
                if a is None or b is None: return None
                return [(B.AND(o.a[0], g), v) for g, v in a] + [(B.AND(B.NOT(o.a[0]), g), v) for g, v in b]
            return None
        w = walk(out)
        if w is None or not w: return None
        if any(ph in free_deep(v) for g, v in w): return None
        if len(w) == 1: return mk("compr", init, iv, canon(w[0][0]), w[0][1])
        if len(w) <= 6 and all(unsat(B.AND(w[i][0], w[j][0])) for i in range(len(w)) for j in range(i)):
            # one of them each time
            v = w[-1][1]
            for g, x in reversed(w[:-1]): v = ite(g, x, v)
            return mk("compr", init, iv, canon(B.OR(*[g for g, _ in w])), v)
        return mk("compr", init, iv, 1, mk("multi", *[mk("gv", boolt(g), v) for g, v in w]))

    def delta(self, out, ph):
        if out.op == "ite":
            a, b = self.delta(out.a[1], ph), self.delta(out.a[2], ph)
            if a is None or b is None: return None
            if any(ph in free_deep(x) for x in B.support(out.a[0])): return None
            return ite(out.a[0], a, b)
        if out is ph: return ZERO
        if out.op == "poly":
            d = pd(out)
            if d.get(((ph, 1),)) == 1:
                r = sub(out, ph)
                return r if ph not in free_deep(r) else None
        return None

    def extremum(self, out, ph, kd):
        """what a guarded running minimum / maximum is taken over (none: no candidate)"""
        if out is ph: return mk("sym", "none")
        if out.op == "ite":
            if any(ph in free_deep(x) for x in B.support(out.a[0])): return None
            a, b = self.extremum(out.a[1], ph, kd), self.extremum(out.a[2], ph, kd)
            return None if a is None or b is None else ite(out.a[0], a, b)
        if out.op == kd and ph in out.a: return minmax(kd, *[x for x in out.a if x is not ph])
        return None

    def overwrite(self, out, ph):
        """(condition, value): the iteration replaces the carried value, else keeps it"""
        if ph not in free_deep(out): return 1, out
        if out.op != "ite": return None
        def w(o, n=0):
            if o is ph: return (0, None)
            if ph not in free_deep(o): return (1, o)
            if o.op != "ite" or n > 12: return None
            x, y = w(o.a[1], n + 1), w(o.a[2], n + 1)
            if x is None or y is None: return None
            c = o.a[0]
            f = B.OR(B.AND(c, x[0]), B.AND(B.NOT(c), y[0]))
            if x[1] is None or y[1] is None or x[1] is y[1]: return (f, x[1] or y[1])
            return (f, ite(c, x[1], y[1]))
        r = w(out)
        return r if r and r[1] is not None else None

    def as_value(self, r, st):
        """a returned object of a plain class that nobody else knows of is its member values"""
        if r.op == "ite": return ite(r.a[0], self.as_value(r.a[1], st), self.as_value(r.a[2], st))
        if r.op != "new" or not isinstance(r.a[0], str): return r
        rec = self.P.recs.get(r.a[0].split("local:")[-1])
        if rec is None or rec.get("bases") or not rec["fields"] or any(isref(x["t"]) or kind(x["t"]) not in ("bool", "int", "float", "str", "ptr", "vec") for x in rec["fields"]): return r
        for e in self.effects:
            if e.kind == "store" and e.args[0] is r and r not in set(subterms(e.args[1])): continue
            if e.kind != "new" and any(r in set(subterms(a)) for a in e.args if isinstance(a, T)): return r
        return mk("obj", rec["t"], *[self.fld(st, r, x["n"], x["t"]) for x in rec["fields"]])

    # ---------------------------------------------------------------- API
    def analyse(self, fn, this=None, args=None):
        """denotation of a function"""
        RAW[0] = self.raw
        try: return self.analyse1(fn, this, args)
        finally: RAW[0] = False

    def analyse1(self, fn, this, args):
        self.reset()
        st = State()
        this = this if this is not None else (mk("sym", "this") if fn.get("cls") and not fn.get("static") else None)
        av = []
        for i, p in enumerate(fn["params"]):
            if args and i < len(args) and args[i] is not None: av.append(args[i]); continue
            k = kind(p["t"])
            sy = mk("sym", "p%d" % i)
            if k == "vec":
                n = int(re.search(r", (\d+)", p["t"]).group(1)) if re.search(r", (\d+)", p["t"]) else 2
                av.append(mk("vec", *[mk("comp", sy, j) for j in range(n)]))
            elif k == "obj" or not isref(p["t"]): av.append(sy)
            else: av.append(Place("f", mk("sym", "arg"), "p%d" % i, p["t"]))
        self.frames.append(Frame({"f": "<top>", "params": [], "n": "top"}))
        self.frames[-1].this = this
        self.base = [1]
        r = self.inline(fn, this, av, st, fn["l"])
        if isinstance(r, Place): r = self.load(st, r)
        if isinstance(r, T) and not isref(fn.get("rt", "")) and kind(fn.get("rt", "")) == "obj": r = self.as_value(r, st)
        d = Den()
        d.fn, d.ret, d.state, d.effects, d.this, d.args = fn, r, st, list(self.effects), this, av
        d.analysed = set(self.analysed)
        d.calls = self.calls_seen
        return d


class Den:
    pass


# ------------------------------------------------------------- utilities
def switch_groups(items):
    """[(labels, statements)], the default last, if every case ends with a break (or leaves) and breaks nowhere else"""
    groups, cur = [], None
    for k, x in items:
        if k == "label":
            if cur is None or cur[1]: cur = ([], []); groups.append(cur)
            cur[0].append(x)
        elif cur is None: return None
        else: cur[1].append(x)
    def breaks(x):
        if isinstance(x, list): return any(breaks(y) for y in x)
        if not isinstance(x, dict): return False
        if x.get("k") == "break": return True
        if x.get("k") in ("for", "while", "do", "rfor", "switch", "lambda"): return False
        return any(breaks(y) for y in x.values() if isinstance(y, (dict, list)))
    out = []
    for n, (ls, ss) in enumerate(groups):
        while ss and ss[-1]["k"] == "block" and ss[-1]["s"]: ss = ss[:-1] + ss[-1]["s"]
        if ss and ss[-1]["k"] == "break": ss = ss[:-1]
        elif not (ss and ss[-1]["k"] in ("ret", "continue") or n == len(groups) - 1): return None
        if breaks(ss): return None
        out.append((ls, ss))
    return sorted(out, key=lambda g: any(x["k"] == "default" for x in g[0]))


def isref_out(f, i):
    pk = f.get("pk", [])
    return i < len(pk) and pk[i] == "ref"


def ite_leaves(t, n=6):
    if t.op != "ite" or n == 0: return [(t, n)]
    return ite_leaves(t.a[1], n - 1) + ite_leaves(t.a[2], n - 1)


def samep(a, b):
    return isinstance(a, Place) and isinstance(b, Place) and (a.k, a.a, a.b) == (b.k, b.a, b.b)


_fd = {}


def free_deep(t):
    """phi / iv terms occurring anywhere (including inside formulas)"""
    r = _fd.get(t.id)
    if r is not None: return r
    s = set()
    if t.op in ("phi", "iv"): s.add(t)
    if t.op in ("any", "agg", "last", "first"):
        bound = t.a[0] if t.a and isinstance(t.a[0], T) and t.a[0].op == "iv" else (t.a[1] if len(t.a) > 1 and isinstance(t.a[1], T) and t.a[1].op == "iv" else None)
    else: bound = None
    if t.op == "compr": bound = t.a[1]
    for x in TM._kids(t): s |= free_deep(x)
    if bound is not None: s.discard(bound)
    r = frozenset(s)
    _fd[t.id] = r
    return r


def boolish(e):
    """the expression is a truth value before it is promoted to a number"""
    while isinstance(e, dict) and e.get("k") in ("cast", "paren") and isinstance(e.get("e"), dict) and kind(e.get("t", "")) != "bool": e = e["e"]
    return isinstance(e, dict) and kind(e.get("t", "")) == "bool"


def steady(t):
    """t with the conditions of its selections in canonical form"""
    if not contains(t, lambda x: x.op == "ite"): return t
    return rebuild(t, lambda x: ite(canon(x.a[0]), steady(x.a[1]), steady(x.a[2])) if x.op == "ite" else x, {})


def under(v, g):
    """value simplified where g holds"""
    n = 0
    while v.op == "ite" and n < 20:
        n += 1
        if implies(g, v.a[0]): v = v.a[1]
        elif implies(g, B.NOT(v.a[0])): v = v.a[2]
        else: break
    if isb(v) and v.op != "c":
        if implies(g, fm(v)): return TRUE
        if implies(g, B.NOT(fm(v))): return FALSE
        if v.op == "bool": return boolt(B.restrict(fm(v), g))
    return v


def isb(t):
    return t.op in ("bool", "gt0", "eq", "any", "truth", "exc") or (t.op == "c" and t.a[0] == "b")


def isnumlike(t): return t.op in ("poly", "size", "iv", "agg", "min", "max", "trunc")


def unsat_cheap(f): return f == 0


def rem(a, b):
    """the remainder as C++ computes it: of the sign of the dividend; (x % m + m) % m is never negative"""
    d = pd(a)
    bt = ((b, 1),)
    if d.get(bt) == 1 and b.op != "poly":
        r = sub(a, b)
        if r.op == "rem" and r.a[1] is b: return ite(lt(r, ZERO, True), a, r)
    return mk("rem", a, b)


def zero(t):
    m = re.match(r"(.*\w) ?\[([1-8])\]$", strip(t))
    if m: return mk("seq", *[zero(m.group(1))] * int(m.group(2)))
    k = kind(t)
    if k == "bool": return FALSE
    if k in ("int", "float"): return ZERO
    if k == "ptr": return NULL
    if k == "str": return mk("c", "s", "")
    if k == "vec":
        m = re.search(r", (\d+)", t)
        return mk("vec", *[ZERO] * (int(m.group(1)) if m else 2))
    if k == "obj": return mk("seq") if t.startswith("std::") else mk("sym", "zero:" + strip(t))
    return mk("sym", "zero")


def comp(v, i):
    if v.op == "vec": return v.a[i] if i < len(v.a) else ZERO
    if v.op == "seq": return v.a[i] if i < len(v.a) else ZERO
    if v.op == "ite": return ite(v.a[0], comp(v.a[1], i), comp(v.a[2], i))
    return mk("comp", v, i)


def tovec(v):
    return mk("vec", *v.a) if v.op == "seq" else v


def mkvec(vs):
    if len(vs) == 1:
        v = vs[0]
        if v.op == "seq": return tovec(v)
        return v
    return mk("vec", *vs)


# members that follow from others (established by the update_attributes rule, kept by the writer rules)
DERIVED = {"halfscale_": lambda o: mul(num(0.5), mk("f", o, "scale_"))}


def mkf(o, n):
    d = DERIVED.get(n)
    return mk("f", o, n) if d is None else d(o)


def mkix(c, i): return mk("ix", c, i)


def advance(t, n):
    if t.op == "iter": return mk("iter", t.a[0], add(t.a[1], n))
    if t.op == "phi": return add(t, n)
    return add(t, n)


def arith(op, a, b, isint=False):
    if op == "+": return add(a, b)
    if op == "-": return sub(a, b)
    if op == "*": return mul(a, b)
    if op == "/":
        if isint:
            x, y = numval(a), numval(b)
            if x is not None and y: return num(int(x / y))
            return mk("idiv", a, b)
        return div(a, b)
    if op == "%" and RAW[0]: return rem(a, b)
    if op == "%":
        x, y = numval(a), numval(b)
        if x is not None and y: return num(int(x) % int(y))
        return modt(a, b)
    return mk("op", op, a, b)


# bit masks: (base & ~C) | S
FULL = 0xffffffff


def maskval(t):
    n = numval(t)
    if n is not None: return int(n) & FULL
    if isconst(t): return TM.ENUMVAL.get(t.a[1])
    return None


def flagparts(t):
    if t.op == "flags": return t.a
    m = maskval(t)
    if m is not None: return (None, m, FULL & ~m)
    return (t, 0, 0)


def mkflags(b, s, c):
    if b is None or (s | c) == FULL: return num(s)
    if not s and not c: return b
    return mk("flags", b, s, c)


def bitnot(v):
    m = maskval(v)
    if m is not None: return num(FULL & ~m)
    if v.op == "ite": return ite(v.a[0], bitnot(v.a[1]), bitnot(v.a[2]))
    if v.op == "bnot": return v.a[0]
    return mk("bnot", v)


def bitop(op, a, b):
    if a.op == "ite": return ite(a.a[0], bitop(op, a.a[1], b), bitop(op, a.a[2], b))
    if b.op == "ite": return ite(b.a[0], bitop(op, a, b.a[1]), bitop(op, a, b.a[2]))
    x, y = maskval(a), maskval(b)
    if x is not None: a, b, x, y = b, a, y, x
    if x is not None: return num({"&": x & y, "|": x | y, "^": x ^ y}[op])
    if y is not None and op in "&|":
        base, s_, c_ = flagparts(a)
        if op == "|": return mkflags(base, s_ | y, c_ & ~y)
        n = FULL & ~y
        return mkflags(base, s_ & y, c_ | n)
    k = {"&": "band", "|": "bor"}.get(op, "bxor")
    l = []
    for t in (a, b): l += list(t.a) if t.op == k else [t]
    l = sorted(set(l))
    return l[0] if len(l) == 1 else mk(k, *l)


def isconst(t): return t.op == "c" and t.a[0] == "e"


# sequences
def seq_at(ct, i):
    n = numval(i)
    if ct.op == "seq":
        if n is not None and 0 <= n < len(ct.a): return ct.a[int(n)]
        return None
    if ct.op == "cont": return mkix(ct.a[0], i)
    if ct.op == "append":
        b, v = ct.a
        sz = seq_size(b)
        if sz is not None and sz is i: return v
        if n is not None: return seq_at(b, i)
        return None
    if ct.op == "compr":
        init, iv, f, v = ct.a
        if init.op == "seq" and not init.a and f == 1 and v.op != "multi":
            return replace(v, {iv: i})
        return None
    if ct.op == "fill": return ct.a[1]
    if ct.op == "ite":
        a, b = seq_at(ct.a[1], i), seq_at(ct.a[2], i)
        return ite(ct.a[0], a, b) if a is not None and b is not None else None
    return None


def seq_set(ct, i, v):
    n = numval(i)
    if ct.op == "seq" and n is not None and 0 <= n < len(ct.a):
        l = list(ct.a)
        l[int(n)] = v
        return mk("seq", *l)
    return None


def seq_size(ct, c=None):
    if ct.op == "seq": return num(len(ct.a))
    if ct.op == "cont": return mk("size", ct.a[0])
    if ct.op == "append":
        s = seq_size(ct.a[0])
        return add(s, ONE) if s is not None else None
    if ct.op == "compr":
        init, iv, f, v = ct.a
        s = seq_size(init)
        if s is None: return None
        k = num(1) if v.op != "multi" else None
        if f == 1 and iv.a[0] == "r" and k is not None: return add(s, iv.a[2])
        if v.op == "multi" and iv.a[0] == "r" and all(g.a[0] is TRUE for g in v.a):
            return add(s, mul(num(len(v.a)), iv.a[2]))
        return add(s, mk("agg", "sum", iv, ite(f, ONE, ZERO)))
    if ct.op == "fill": return ct.a[0]
    if ct.op == "ite":
        a, b = seq_size(ct.a[1]), seq_size(ct.a[2])
        return ite(ct.a[0], a, b) if a is not None and b is not None else None
    return None


TM.REMK["ix"] = lambda a, b: mkix(a, b)
TM.REMK["bnot"] = lambda a: bitnot(a)
TM.REMK["comp"] = lambda a, b: comp(a, b)


# planar predicates whose value does not depend on how the figure is listed
def _cyc(x, rev=False):
    c = [x[i:] + x[:i] for i in range(len(x))]
    if rev: c += [y[::-1] for y in c]
    return min(c, key=lambda y: [t.id for t in y])


def _set(x): return sorted(x, key=lambda t: t.id)


def _two(a, b): return min((a + b, b + a), key=lambda y: [t.id for t in y])


SYM = {"line_line_intersection": (4, lambda a: _two(_set(a[:2]), _set(a[2:]))),
       "line_line_crossing": (4, lambda a: _two(_set(a[:2]), _set(a[2:]))),
       "in_segment": (3, lambda a: _set(a[:2]) + a[2:]),
       "in_on_segment": (3, lambda a: _set(a[:2]) + a[2:]),
       "line_tri_intersection": (5, lambda a: _set(a[:2]) + _set(a[2:])),
       "line_tri_crossing": (5, lambda a: _set(a[:2]) + _set(a[2:])),
       "line_quad_intersection": (6, lambda a: _set(a[:2]) + _cyc(a[2:], True)),
       "tri_tri_intersection": (6, lambda a: _two(_set(a[:3]), _set(a[3:]))),
       "quad_quad_intersection": (8, lambda a: _two(_cyc(a[:4], True), _cyc(a[4:], True))),
       "tri_quad_intersection": (7, lambda a: _set(a[:3]) + _cyc(a[3:], True)),
       "orientation": (3, lambda a: _cyc(a)), "is_left": (3, lambda a: _cyc(a)), "is_lefton": (3, lambda a: _cyc(a))}


def symcall(q, *full):
    if isinstance(q, str) and q.startswith("CppUtils::"):
        h = SYM.get(q[10:])
        if h and len(full) == h[0] and all(isinstance(x, T) for x in full): full = tuple(h[1](list(full)))
    return mk("call", q, *full)


TM.REMK["call"] = symcall


def reset_terms():
    """forget all value numbers and formulas (after a formula outgrew its bound)"""
    _fd.clear()
    T.tab.clear()
    for t in (TM.NULL, TM.ZERO, TM.ONE, TM.TRUE, TM.FALSE): T.tab[(t.op,) + t.a] = t
    B.__init__()
