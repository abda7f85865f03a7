"""Obligation bookkeeping shared by all property checks."""
import os, json, time, re, signal
from terms import *
from interp import *
import models, compare as CMP


T0 = time.time()
BUDGET, EACH = 720, 75          # seconds: whole run, one comparison


def _alarm(*_): raise Giveup("comparison too large (time)")


STRICT = bool(os.environ.get("TQ_STRICT"))


class Timed:
    """one comparison may not use up the run"""
    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1, min(EACH, BUDGET - (time.time() - T0))))

    def __exit__(self, *_): signal.setitimer(signal.ITIMER_REAL, 0)


class Ctx:
    def __init__(self, pid, facts, repo, tier, verif):
        self.pid, self.repo, self.tier, self.verif = pid, repo, tier, verif
        self.P = Program(facts)
        CMP.P = self.P
        self.obl, self.viol, self.und, self.known = [], [], [], []
        self.functions, self.callsites, self.paths = set(), 0, 0
        self.dropped, self.done = [], set()
        self.cache = {}
        self.geom = {f["q"] for f in self.P.funs.values() if os.path.basename(f["l"].rsplit(":", 1)[0]) in ("Geometry.h", "FacetGeometry.h")}
        kf = os.path.join(verif, "known_findings.json")
        self.findings = [k for k in (json.load(open(kf))["findings"] if os.path.exists(kf) else []) if k["property"] == pid]

    # ------------------------------------------------------------ results
    def ok(self, name, n=1): self.obl.append(name)

    def bad(self, name, where, detail):
        where = self.rel(where)
        for k in self.findings:
            if k["rule"] == name and (k.get("contains") or "") in detail:
                if k not in self.known: self.known.append(k)
                self.obl.append(name)
                return
        self.viol.append((name, where, detail))

    def require(self, cond, name, where, detail):
        if cond: self.ok(name)
        else: self.bad(name, where, detail)
        return cond

    def undecided(self, name, where, detail): self.und.append((name, self.rel(where), detail))

    def rel(self, w): return str(w).replace(self.repo + "/", "")

    def group(self, mod, name):
        if name in self.done: return
        self.done.add(name)
        getattr(mod, name)(self)

    # ----------------------------------------------------------- analysis
    def interp(self, opaque=None, **kw):
        return Interp(self.P, opaque=self.geom if opaque is None else opaque, **kw)

    def den(self, fn, opaque=None, args=None, this=None, **kw):
        k = (fn["f"], frozenset(opaque) if opaque is not None else None, tuple(sorted(kw.items())), tuple(args) if args else None, this)
        if k in self.cache: return self.cache[k]
        d = self.interp(opaque, **kw).analyse(fn, this=this, args=args)
        self.functions |= {x for x in d.analysed if not x.startswith("vp_spec")}
        self.callsites += d.calls
        self.paths += len(d.effects)
        self.cache[k] = d
        return d

    def reset(self):
        k = self.cache.get("callers")
        self.cache.clear()
        if k is not None: self.cache["callers"] = k
        reset_terms()

    def vocab(self, d):
        """what a denotation talks about: call names with the number of different uses, and all other symbols"""
        calls, syms, seen = {}, set(), set()
        ts = [d.ret] if isinstance(d.ret, T) else []
        for e in d.effects:
            if e.kind == "pure": continue
            if e.kind == "call": calls[e.name] = calls.get(e.name, 0) + 1
            else: syms.add((e.kind, e.name))
            ts += [a for a in e.args if isinstance(a, T)] + list(B.support(e.guard))
        for t in ts:
            for x in subterms(t, seen):
                if x.op == "call": calls[x.a[0]] = calls.get(x.a[0], 0) + 1
                elif x.op == "f": syms.add(("f", x.a[1]))
                elif x.op not in ("c", "poly", "ite", "eq", "lt", "le", "new", "vec", "sym"): syms.add(x.op)
        return calls, syms | set(calls)

    def specfun(self, fn, name):
        c = self.P.byq.get("vp_spec::" + name, [])
        if not c: raise Vanished("spec " + name)
        if len(c) == 1: return c[0]
        ta = targs(fn)
        same = [s for s in c if targs(s) == ta] if ta else []
        if len(same) == 1: return same[0]
        want = ([fn["clst"]] if fn.get("cls") and not fn.get("static") else []) + [strip(p["t"]) for p in fn["params"]]
        for s in c:
            if [strip(p["t"]) for p in s["params"]] == want: return s
        c2 = [s for s in c if len(s["params"]) == len(want) and strip(s["params"][0]["t"]) == want[0]]
        if c2: return c2[0]
        raise Vanished("spec %s for %s" % (name, fn["f"]))

    def spec(self, q, name, keep=None, ret=True, opaque=(), order=True, levels=None, rule=None, what="", fns=None, known=None, **kw):
        """every definition of q must be equivalent to the specification program"""
        try: self._spec(q, name, keep, ret, opaque, order, levels, rule, what, fns, kw, known)
        except Vanished as x: self.undecided(rule or name, q, "anchor or specification no longer resolves: %s" % x)

    def _spec(self, q, name, keep, ret, opaque, order, levels, rule, what, fns, kw, known=None):
        ik = {k: kw.pop(k) for k in ("model_container", "entity_ctors", "inline_depth", "max_unroll") if k in kw}
        fns = fns if fns is not None else self.P.find(q, **kw)
        if not fns: raise Vanished(q + str(kw or ""))
        for fn in fns:
            rn = rule or name
            sf = self.specfun(fn, name)
            levels_ = levels if levels is not None else [self.geom | set(opaque), set(opaque)]
            if len(B.nodes) > B.limit // 3: self.reset()
            firm, last = self.decide(fn, sf, levels_, keep, ret, order, ik)
            best = firm if firm is not None else last
            label = "%s[%s]" % (rn, short(fn["f"]))
            if not best: self.ok(label)
            elif all(x.imprecise for x in best):
                self.undecided(rn, fn["l"], "; ".join(map(str, best[:2])))
            elif known and self.known_as(fn, known, levels_, keep, ret, order, ik): self.ok(label + " as listed in known_findings.json")
            else:
                x = [y for y in best if not y.imprecise][0]
                self.bad(rn, x.where, "%s: %s%s: %s" % (short(fn["f"]), (what + ": ") if what else "", x.what, x.detail))
                if self.tier == "thorough" or os.environ.get("TQ_VERBOSE"):
                    for y in best[:8]: print("   ", str(y)[:500])

    def family(self, parent, children, scratch=(), level=frozenset()):
        """a function and the private helpers it is made of: each against its own program; where one of
        them differs, what they do together decides (work may move between them, and what the scratch
        members hold afterwards is nobody's business)"""
        n = len(self.viol), len(self.und), len(self.obl)
        for q, name, levels in [parent] + list(children): self.spec(q, name, levels=levels)
        bad = self.viol[n[0]:]
        if not bad: return
        try: df = self.together(parent, children, scratch, level)
        except (Vanished, Giveup) as x: df = [CMP.Diff("analysis gave up", parent[0], str(x), True)]
        if not df:
            del self.viol[n[0]:]
            self.ok("%s[together with its helpers]" % parent[1])
        elif all(x.imprecise for x in df) and len({v[0] for v in bad}) > 1:
            del self.viol[n[0]:]
            for v in bad: self.undecided(v[0], v[1], "helpers changed together: " + v[2])

    def together(self, parent, children, scratch, level):
        (fn,) = self.P.find(parent[0])
        sf = self.specfun(fn, parent[1])
        red = []
        for q, name, _ in children:
            g = self.P.find(q)
            c = self.P.byq.get("vp_spec::" + name, [])
            if len(c) != 1: raise Vanished(name)
            red.append((q, c[0]["f"]))
        lv = frozenset(level) - {q for q, _ in red}
        with Timed():
            d = self.den(fn, opaque=lv)
            a = ([d.this] if d.this is not None else []) + list(d.args)
            s = self.den(sf, opaque=lv, args=tuple(a), redirect=tuple(red))
            own = {mkf(d.this, m) for m in scratch} if d.this is not None else set()
            # emptied before they are filled: where else they are emptied does not matter
            own = {m for m in own if all(e.kind == "append" and any(x.kind == "clear" and x.args[0] is m and not x.loops and implies(e.guard, x.guard) for x in d.effects[:i])
                                         for i, e in enumerate(d.effects) if e.args and e.args[0] is m and e.kind in ("append", "concat", "insert"))}
            return CMP.compare(d, s, keep=lambda e: not (e.kind == "clear" and e.args[0] in own))

    def decide(self, fn, sf, levels_, keep, ret, order, ik):
        """(certain differences or None, last differences); empty means equal"""
        queue, tried, firm, last, adapted = list(levels_), set(), None, None, 0
        while queue:
            lv = frozenset(queue.pop(0))
            if lv in tried: continue
            tried.add(lv)
            try:
              with Timed():
                d = self.den(fn, opaque=lv, **ik)
                a = ([d.this] if d.this is not None else []) + list(d.args)
                s = self.den(sf, opaque=lv, args=tuple(a), **ik)
                df = CMP.compare(d, s, keep=keep, ret=ret, order=order)
                if not df: firm = last = []; break
                sure = [x for x in df if not x.imprecise]
                if any(x.absent for x in sure):
                    # a call made nowhere: only where the code cannot do it by other means
                    ca, cb = self.vocab(d)[0], self.vocab(s)[0]
                    for x in sure:
                        if x.absent and (adapted or not set(ca) <= set(cb) or x.absent == fn["q"]): x.imprecise = True
                    sure = [x for x in df if not x.imprecise]
                if not sure:
                    last = df
                    continue
                # helpers only one side uses are looked into; a difference counts at once if the code says nothing the specification does not speak of
                (ca, va), (cb, vb) = self.vocab(d), self.vocab(s)
                delta = {n for n in set(ca) | set(cb) if ca.get(n, 0) != cb.get(n, 0)} & lv
                for x in sure: delta |= x.names & lv
                if (not delta or va <= vb) and firm is None: firm = sure
                last = sure
                if delta and adapted < 5:
                    adapted += 1
                    queue.insert(0, lv - delta)
                    for one in ({n for n in delta if not ca.get(n) or not cb.get(n)}, {n for n in delta if not cb.get(n)}):
                        if one and one != delta: queue.insert(0, lv - one)
            except Exception as x:
                if not isinstance(x, Giveup):
                    if STRICT: raise
                    x = Giveup("construct not understood: %s %s" % (type(x).__name__, x))
                if last is None: last = [CMP.Diff("analysis gave up", fn["l"], str(x), True)]
                if "too large" in str(x): self.reset()
        return firm, last

    def known_as(self, fn, name, levels_, keep, ret, order, ik):
        """the code behaves exactly like a listed finding's program (and not in yet another way)"""
        k = [x for x in self.findings if x["rule"] == name]
        if not k: return False
        firm, last = self.decide(fn, self.specfun(fn, name), levels_, keep, ret, order, ik)
        if (firm if firm is not None else last): return False
        if k[0] not in self.known: self.known.append(k[0])
        return True

    def laws(self, ns, only=None, opaque=frozenset(), **ik):
        """every law_* program of a specification namespace returns true for all arguments"""
        pre = "vp_spec::%s::law_" % ns
        fs = [f for q, l in sorted(self.P.byq.items()) if q.startswith(pre) for f in l]
        if not fs: return self.undecided("laws", ns, "no law type-checks")
        for f in fs:
            nm = f["n"]
            if only and nm not in only: continue
            rn = ns + "::" + nm
            try:
                with Timed(): d = self.den(f, opaque=frozenset(opaque), **ik)
            except Exception as x:
                if not isinstance(x, Giveup) and STRICT: raise
                if "too large" in str(x): self.reset()
                self.undecided(rn, f["l"], str(x)); continue
            CMP.SHARED.clear()
            r = d.ret
            g = fm(r) if isinstance(r, T) else None
            if g is not None and (implies(1, g) or valid(g)): self.ok(rn)
            elif g is not None and any(CMP.vague(t) for t in B.support(g)): self.undecided(rn, f["l"], showf(g, 3))
            else: self.bad(rn, f["l"], "law %s does not hold for all arguments: reduces to %s" % (nm, showf(g, 4) if g is not None else r))

    def pairs(self, ns, only=None, opaque=(), levels=None, keep=None, **ik):
        """use_X (a use of the code) behaves like means_X for all arguments"""
        pre = "vp_spec::%s::use_" % ns
        fs = [f for q, l in sorted(self.P.byq.items()) if q.startswith(pre) for f in l]
        if not fs: return self.undecided("pairs", ns, "no program type-checks")
        for f in fs:
            nm = f["n"][4:]
            if only and nm not in only: continue
            self.spec(f["q"], ns + "::means_" + nm, fns=[f], rule=ns + "::" + nm, opaque=opaque, levels=levels, keep=keep, **ik)

    def guard_each(self, name, fn, pick, need, **kw):
        """every effect selected by pick(effect) is guarded by need(effect) -> formula"""
        try:
            with Timed(): d = self.den(fn, **kw)
        except Exception as x:
            if not isinstance(x, Giveup) and STRICT: raise
            self.undecided(name, fn["l"], str(x))
            return
        n = 0
        for e in d.effects:
            if not pick(e): continue
            n += 1
            w = need(e)
            self.require(implies(e.guard, w), name, e.loc, "%s happens without its condition %s; guard is %s" % (CMP.describe(e), showf(w, 4), showf(e.guard, 4)))
        return n

    def writers(self, field, owner):
        """functions of the program that assign a data member (syntactic, over resolved members)"""
        out = []
        def ismem(e):
            while e is not None and e["k"] in ("sub", "call") and (e["k"] == "sub" or e.get("op") == "[]"): e = e["a"] if e["k"] == "sub" else e.get("o")
            return e is not None and (e["k"] == "mem" and e["n"] == field and e["o"].startswith(owner) or e["k"] == "mem" and e["n"] in "xyz" and ismem(e["b"]))
        for f in self.P.funs.values():
            if f["q"].startswith("vp_"): continue
            for e in walk(f.get("body")):
                k = e.get("k")
                t = None
                if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="): t = e["a"]
                elif k == "un" and e["op"] in ("++", "--", "&"): t = e["e"]
                elif k == "call" and e.get("op", "").endswith("=") and e["op"] not in ("==", "!=", "<=", ">="): t = e["o"] if e.get("o") else e["a"][0]
                if t is not None and ismem(t): out.append((f, e["l"]))
        return out

    def only_writers(self, name, field, owner, allowed):
        ws = self.writers(field, owner)
        if not ws: self.undecided(name, field, "no assignment of %s found" % field); return
        ok = set(allowed)
        for f, l in ws:
            self.require(self.within(f, ok), name, l, "%s is assigned in %s; only %s may change it" % (field, short(f["f"]), ", ".join(sorted(ok))))

    def within(self, f, allowed, depth=6):
        """f is an allowed function, or a helper all of whose callers are"""
        if f["q"] in allowed: return True
        if depth == 0: return False
        cs = self.callers().get(f["f"], [])
        return bool(cs) and all(self.within(g, allowed, depth - 1) for g in cs if g["f"] != f["f"])

    def callers(self):
        if "callers" not in self.cache:
            m = {}
            for f in self.P.funs.values():
                if f["q"].startswith("vp_"): continue
                seen = set()
                for e in walk(f.get("body"), f.get("inits")):
                    r = e.get("f")
                    n = r.get("f") if isinstance(r, dict) else None
                    if n and n not in seen: seen.add(n); m.setdefault(n, []).append(f)
            self.cache["callers"] = m
        return self.cache["callers"]

    # --------------------------------------------------------------- exit
    def finish(self, prop, t0):
        lvl = "other"
        cov = {"obligations": len(self.obl) + len(self.viol) + len(self.und), "discharged": len(self.obl),
               "undecided": len(self.und), "undecided_list": ["%s at %s: %s" % (n, w, d[:200]) for n, w, d in self.und],
               "specifications_that_no_longer_type_check": self.dropped,
               "functions_analysed": len(self.functions), "call_sites_resolved": self.callsites, "effects_examined": self.paths,
               "rules": sorted(set(re.sub(r"\[.*", "", o) for o in self.obl) | {v[0] for v in self.viol}),
               "samples": self.obl[:6],
               "checker_cmd": "python3 /verif/run.py %s %s" % (self.pid, self.tier),
               "trusted_base": ["clang 18 front end", "engine/interp.py + engine/models.py (effect analysis, library models)"],
               "explanation": prop["method"] + prop["how"]}
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl,
              "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(self.viol),
              "assumptions": prop["assume"]}
        os.makedirs(os.path.join(self.verif, "evidence"), exist_ok=True)
        with open(os.path.join(self.verif, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided; %d functions, %d call sites, %d guarded effects analysed (%.1f s)" %
              (self.pid, cov["obligations"], len(self.obl), len(self.und), len(self.functions), self.callsites, self.paths, time.time() - t0))
        for x in self.dropped: print("NOTE specification %s no longer type-checks; its obligations are undecided" % x)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for n, w, d in self.und: print("UNDECIDED rule=%s at %s: %s" % (n, w, d[:600]))
        if self.viol:
            rp = os.path.join(self.verif, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for n, w, d in self.viol: f.write("rule: %s\nat: %s\n%s\n\n" % (n, w, d))
            for n, w, d in self.viol: print("  rule %s violated at %s: %s" % (n, w, d[:1200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if not self.obl:
            print("NO-VERDICT property=%s no obligation decided" % self.pid)
            return 2
        return 0


def targs(f):
    """explicit template arguments of a function that is no member of a class template"""
    if not f["f"].startswith(f["q"] + "<"): return None
    d, r = 0, f["f"][len(f["q"]):]
    for i, ch in enumerate(r):
        d += (ch == "<") - (ch == ">")
        if d == 0: return r[:i + 1]


def walk(*xs):
    st = list(xs)
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x: yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend(x)


def short(f):
    f = re.sub(r"std::(_List_const_iterator|_List_iterator|unique_ptr|vector|list)<.*?>+", r"\1", f)
    return f.replace("TQMesh::", "").replace("CppUtils::", "")[:120]
