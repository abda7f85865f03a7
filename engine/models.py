"""Models of the standard library, of the small vector class and of the entity
container, in the terms of the analysis."""
import re
from fractions import Fraction
from terms import *
from interp import *
import terms as TM

MODELS = {}


def model(*qs):
    def d(h):
        for q in qs: MODELS[q] = h
        return h
    return d


def tmpl_arg(t, n=0):
    """n-th template argument of a type string"""
    i = t.find("<")
    if i < 0: return ""
    depth, cur, out = 0, "", []
    for ch in t[i + 1:]:
        if ch == "<" or ch == "(": depth += 1
        if ch == ">" or ch == ")":
            if depth == 0 and ch == ">":
                out.append(cur.strip()); break
            depth -= 1
        if ch == "," and depth == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    return out[n] if n < len(out) else ""


def O(I, e, st):
    """object of a member call as (place-or-value, value)"""
    p = I.ev(e["o"], st)
    v = I.load(st, p) if isinstance(p, Place) else p
    return p, v


def A(I, e, st, n): return I.rv(e["a"][n], st)


def objarg(I, e, st):
    """object and arguments; operators may be exported as free calls"""
    xs = ([e["o"]] if e.get("o") is not None else []) + list(e["a"])
    return xs


# -------------------------------------------------------- smart pointers
def ident(I, e, st):
    x = e["o"] if e.get("o") is not None else e["a"][0]
    return I.rv(x, st)


for _c in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
    for _m in ("get", "operator->", "operator*"): MODELS[_c + "::" + _m] = ident
    MODELS[_c + "::operator bool"] = lambda I, e, st: boolt(fm(ident(I, e, st)))


@model("std::unique_ptr::operator=", "std::shared_ptr::operator=")
def m_ptr_assign(I, e, st):
    xs = objarg(I, e, st)
    v = I.rv(xs[1], st)
    p = I.ev(xs[0], st)
    I.store(st, p, v, e["l"])
    return p


@model("std::unique_ptr::reset", "std::shared_ptr::reset", "std::__shared_ptr::reset")
def m_ptr_reset(I, e, st):
    v = A(I, e, st, 0) if e["a"] and e["a"][0]["k"] != "unk" else NULL
    p = I.ev(e["o"], st)
    I.store(st, p, v, e["l"])
    return p


@model("std::unique_ptr::release")
def m_release(I, e, st):
    p, v = O(I, e, st)
    I.store(st, p, NULL, e["l"])
    return v


@model("std::make_unique", "std::make_shared")
def m_make(I, e, st):
    return I.newobj(tmpl_arg(strip(e["t"])), [I.ev(a, st) for a in e["a"]], st, e["l"], types=[a.get("t", "") for a in e["a"]])


@model("std::move", "std::forward")
def m_move(I, e, st): return I.ev(e["a"][0], st)


@model("std::addressof")
def m_addr(I, e, st): return I.rv(e["a"][0], st)


# -------------------------------------------------------------- iterators
SEQ = ("std::vector", "std::list", "std::array", "std::deque", "std::set", "std::map", "std::initializer_list")


def root(v):
    return v


def m_begin(I, e, st):
    v = ident(I, e, st)
    return mk("iter", v, ZERO)


def m_end(I, e, st):
    v = ident(I, e, st)
    return mk("iter", v, I.size(st, v))


for _c in SEQ:
    for _m in ("begin", "cbegin"): MODELS["%s::%s" % (_c, _m)] = m_begin
    for _m in ("end", "cend"): MODELS["%s::%s" % (_c, _m)] = m_end
    MODELS[_c + "::size"] = lambda I, e, st: I.size(st, ident(I, e, st))
    MODELS[_c + "::empty"] = lambda I, e, st: boolt(eq(I.size(st, ident(I, e, st)), ZERO, True))
MODELS["std::begin"] = MODELS["std::cbegin"] = m_begin
MODELS["std::end"] = MODELS["std::cend"] = m_end


def m_rbegin(I, e, st):
    v = ident(I, e, st)
    return mk("call", "rbegin", v)


for _c in SEQ: MODELS[_c + "::rbegin"] = m_rbegin
for _c in SEQ: MODELS[_c + "::rend"] = lambda I, e, st: mk("call", "rend", ident(I, e, st))


def elem_place(I, c, i, t, st):
    if kind(t) == "obj": return I.index(st, c, i, t)
    return Place("ix", c, i, t)


def deref(I, it, t, st):
    if it.op == "insiter" and len(it.a) == 3: return it.a[2]
    if it.op == "iter": return elem_place(I, it.a[0], it.a[1], t, st)
    if it.op == "ite": return ite(it.a[0], ldv(I, deref(I, it.a[1], t, st), st), ldv(I, deref(I, it.a[2], t, st), st))
    return mk("deref", it)


def ldv(I, v, st): return I.load(st, v) if isinstance(v, Place) else v


ITC = ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator",
       "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::reverse_iterator")


def m_star(I, e, st): return deref(I, ident(I, e, st), e["t"], st)


def m_arrow(I, e, st):
    it = ident(I, e, st)
    t = strip(e["t"])
    return ldv(I, deref(I, it, t[:-1].strip() if t.endswith("*") else t, st), st)


def m_incdec(sign):
    def h(I, e, st):
        xs = objarg(I, e, st)
        p = I.ev(xs[0], st)
        old = ldv(I, p, st)
        I.store(st, p, adv(old, num(sign)), e["l"])
        return old if len(xs) > 1 else p
    return h


def adv(t, n):
    if t.op == "ite": return ite(t.a[0], adv(t.a[1], n), adv(t.a[2], n))
    return advance(t, n)


def m_iteq(sense):
    def h(I, e, st):
        xs = objarg(I, e, st)
        f = eq(I.rv(xs[0], st), I.rv(xs[1], st))
        return boolt(f if sense else B.NOT(f))
    return h


def m_itassign(I, e, st):
    xs = objarg(I, e, st)
    v = I.rv(xs[1], st)
    p = I.ev(xs[0], st)
    I.store(st, p, v, e["l"])
    return p


for _c in ITC:
    MODELS[_c + "::operator*"] = m_star
    MODELS[_c + "::operator->"] = m_arrow
    MODELS[_c + "::operator++"] = m_incdec(1)
    MODELS[_c + "::operator--"] = m_incdec(-1)
    MODELS[_c + "::operator=="] = m_iteq(True)
    MODELS[_c + "::operator!="] = m_iteq(False)
    MODELS[_c + "::operator="] = m_itassign
    MODELS[_c + "::base"] = ident
MODELS["__gnu_cxx::operator=="] = m_iteq(True)
MODELS["__gnu_cxx::operator!="] = m_iteq(False)
MODELS["std::operator=="] = m_iteq(True)
MODELS["std::operator!="] = m_iteq(False)


def m_itplus(sign):
    def h(I, e, st):
        xs = objarg(I, e, st)
        a, b = I.rv(xs[0], st), I.rv(xs[1], st)
        if a.op == "iter" and b.op == "iter": return sub(a.a[1], b.a[1])
        return adv(a, b if sign > 0 else neg(b))
    return h


MODELS["__gnu_cxx::__normal_iterator::operator+"] = m_itplus(1)
MODELS["__gnu_cxx::__normal_iterator::operator-"] = m_itplus(-1)
MODELS["__gnu_cxx::operator-"] = m_itplus(-1)
MODELS["__gnu_cxx::operator+"] = m_itplus(1)


@model("__gnu_cxx::__normal_iterator::operator+=")
def m_itpe(I, e, st):
    xs = objarg(I, e, st)
    p = I.ev(xs[0], st)
    I.store(st, p, adv(ldv(I, p, st), I.rv(xs[1], st)), e["l"])
    return p


@model("std::advance")
def m_advance(I, e, st):
    p = I.ev(e["a"][0], st)
    I.store(st, p, adv(ldv(I, p, st), A(I, e, st, 1)), e["l"])
    return mk("sym", "void")


@model("std::next", "std::prev")
def m_next(I, e, st):
    n = A(I, e, st, 1) if len(e["a"]) > 1 else ONE
    return adv(A(I, e, st, 0), n if e["f"]["n"] == "next" else neg(n))


# -------------------------------------------------------------- sequences
@model("std::vector::operator[]", "std::array::operator[]", "std::deque::operator[]", "std::vector::at", "std::array::at")
def m_index(I, e, st):
    xs = objarg(I, e, st)
    c = I.rv(xs[0], st)
    i = I.rv(xs[1], st)
    t = strip(e["t"])
    if c.op == "seq":
        n = numval(i)
        if n is not None and 0 <= n < len(c.a): return c.a[int(n)]
    if c.op in ("vec",): return comp(c, int(numval(i)))
    return elem_place(I, c, i, "bool" if t.startswith("std::_Bit_reference") else t, st)


@model("std::vector::front", "std::list::front", "std::array::front")
def m_front(I, e, st):
    return elem_place(I, ident(I, e, st), ZERO, e["t"], st)


@model("std::vector::back", "std::list::back", "std::array::back")
def m_back(I, e, st):
    c = ident(I, e, st)
    ct = I.contents(st, c)
    if ct is not None and ct.op == "append": return ct.a[1]
    return elem_place(I, c, sub(I.size(st, c), ONE), e["t"], st)


@model("std::array::data", "std::vector::data")
def m_data(I, e, st): return ident(I, e, st)


def cont_or(I, st, c):
    ct = I.contents(st, c)
    return ct if ct is not None else mk("cont", c)


def append(ct, v):
    if ct.op == "seq" and len(ct.a) < 32: return mk("seq", *(ct.a + (v,)))
    return mk("append", ct, v)


def drop_elems(st, c):
    """forget single-element knowledge about container c"""
    for k in [k for k in st.heap if k[1] == "=" and k[0].op == "ix" and k[0].a[0] is c]: del st.heap[k]


def do_append(I, st, c, v, loc):
    if c.op == "ite":
        for f, o in ((c.a[0], c.a[1]), (B.NOT(c.a[0]), c.a[2])):
            I.eff_g(st, f, "append", "push_back", (o, v), loc)
            old = cont_or(I, st, o)
            st.heap[(o, "#")] = ite(f, append(old, v), old)
        return
    I.eff(st, "append", "push_back", (c, v), loc)
    st.heap[(c, "#")] = append(cont_or(I, st, c), v)


@model("std::vector::push_back", "std::list::push_back", "std::vector::emplace_back", "std::list::emplace_back")
def m_push(I, e, st):
    c = ident(I, e, st)
    t = tmpl_arg(strip(e["o"].get("t", "")))
    args = [I.ev(a, st) for a in e["a"]]
    if any(isinstance(a, Closure) for a in args): return mk("sym", "void")
    vs = I.vals(args, st)
    if len(vs) == 1 and (kind(t) != "obj" or isinstance(vs[0], T) and vs[0].op in ("new", "sym", "f", "ix", "call", "loc", "ite", "seq", "deref", "elem")):
        v = vs[0]
        if v.op == "seq" and kind(t) == "vec": v = tovec(v)
    elif e["f"]["n"] == "emplace_back": v = I.newobj(t, args, st, e["l"], types=[a.get("t", "") for a in e["a"]])
    else: v = vs[0] if vs else zero(t)
    do_append(I, st, c, v, e["l"])
    return v if e["f"]["n"] == "emplace_back" else mk("sym", "void")


@model("std::vector::clear", "std::list::clear", "std::map::clear", "std::set::clear")
def m_clear(I, e, st):
    c = ident(I, e, st)
    I.eff(st, "clear", "clear", (c,), e["l"])
    st.heap[(c, "#")] = mk("seq")
    drop_elems(st, c)
    return mk("sym", "void")


def seteq(I, st, dst, src, loc):
    if src.op == "seq": ct = src
    else: ct = cont_or(I, st, src)
    I.eff(st, "assign", "assign", (dst, ct), loc)
    st.heap[(dst, "#")] = ct
    drop_elems(st, dst)


@model("std::vector::operator=", "std::list::operator=", "std::array::operator=", "std::map::operator=")
def m_cassign(I, e, st):
    xs = objarg(I, e, st)
    if I.raw and strip(xs[0].get("t", "")).startswith("std::array<"):
        o = I.rv(xs[0], st)
        I.copy_array(xs[1], strip(xs[0]["t"]), o, st)
        return o
    src = I.rv(xs[1], st)
    dst = I.rv(xs[0], st)
    seteq(I, st, dst, src, e["l"])
    return dst


@model("std::vector::resize", "std::vector::assign", "std::array::fill", "std::list::resize")
def m_resize(I, e, st):
    c = ident(I, e, st)
    n = A(I, e, st, 0)
    if e["f"]["n"] == "fill":
        m = tmpl_arg(strip(e["o"]["t"]), 1)
        m = re.match(r"\d+", m)
        v, n = n, num(int(m.group(0))) if m else mk("size", c)
        if m and int(m.group(0)) <= 16:
            for i in range(int(m.group(0))): I.store(st, Place("ix", c, num(i), ""), v, e["l"])
            return mk("sym", "void")
    else: v = A(I, e, st, 1) if len(e["a"]) > 1 else zero(tmpl_arg(strip(e["o"].get("t", ""))))
    if n.op == "iter" and e["f"]["n"] == "assign" and len(e["a"]) == 2:
        seteq(I, st, c, n.a[0], e["l"])
        return mk("sym", "void")
    cur = I.contents(st, c)
    I.eff(st, e["f"]["n"], e["f"]["n"], (c, n, v), e["l"])
    k = numval(n)
    if e["f"]["n"] == "resize" and not (cur is not None and cur.op == "seq" and not cur.a):
        st.heap[(c, "#")] = mk("resized", cont_or(I, st, c), n, v)
    elif k is not None and k <= 16: st.heap[(c, "#")] = mk("seq", *[v] * int(k))
    else: st.heap[(c, "#")] = mk("fill", n, v)
    drop_elems(st, c)
    return mk("sym", "void")


def predicate(I, fn, c, st, loc):
    """what a predicate over the elements of c picks: a value (all elements equal to it) or a condition"""
    if isinstance(fn, Place): fn = ldv(I, fn, st)
    if not isinstance(fn, Closure): return None
    x = mk("sym", "elem")
    f = pred_formula(I, fn, x, st, loc)
    sup = B.support(f)
    if len(sup) == 1 and sup[0].op == "eq" and f == B.atom(sup[0]) and x in sup[0].a:
        y = sup[0].a[0] if sup[0].a[1] is x else sup[0].a[1]
        if not contains(y, lambda z: z is x): return y
    return mk("pred", boolt(f))


def removal(I, st, c, name, av, loc):
    I.eff(st, name, name, (c,) + tuple(av), loc)
    st.heap[(c, "#")] = mk("mut", name, cont_or(I, st, c), *av)
    drop_elems(st, c)
    return mk("sym", "void")


@model("std::remove", "std::remove_if")
def m_remove(I, e, st):
    if len(e["a"]) == 1: return NotImplemented
    x = A(I, e, st, 0)
    if x.op != "iter" or "basic_string" in e["a"][0].get("t", ""): return NotImplemented
    r = itrange(I, e, st)
    if r is None or r[1] is not ZERO or r[2] is not I.size(st, r[0]): raise Giveup("removal over part of a container")
    p = predicate(I, I.ev(e["a"][2], st), r[0], st, e["l"]) if e["f"]["n"] == "remove_if" else A(I, e, st, 2)
    if p is None: raise Giveup("remove_if with an unknown predicate")
    return mk("removed", r[0], p)


def order_key(I, args, st, loc):
    """what a comparison function says about two elements"""
    for x in args:
        if isinstance(x, Place): x = I.load(st, x)
        if not isinstance(x, Closure) or len(x.node["params"]) != 2: continue
        s2 = st.copy()
        v = ldv(I, I.quiet(lambda: I.call_closure(x, [mk("sym", "lhs"), mk("sym", "rhs")], s2, loc)), s2)
        return (v,) if isinstance(v, T) else (mk("sym", "unk@order"),)
    return ()


def by_choice(key, g=1):
    """orders chosen by a condition that does not depend on the elements: one case each"""
    if len(key) != 1 or not isb(key[0]): return [(g, key)]
    for a in B.support(fm(key[0])):
        if contains(a, lambda s: s.op == "sym" and s.a[0] in ("lhs", "rhs")): continue
        return [y for c, f in ((TRUE, a), (FALSE, None)) for y in by_choice((replace(key[0], {a: c}),), B.AND(g, B.atom(a) if f is not None else B.NOT(B.atom(a))))]
    return [(g, key)]


def mutate(name):
    def h(I, e, st):
        p, c = O(I, e, st)
        args = [I.ev(a, st) for a in e["a"]]
        av = [x if isinstance(x, T) else mk("sym", "closure") for x in I.vals(args, st)]
        if kind(e["o"].get("t", "")) == "str":
            r = mk("call", e["f"]["q"], c, *av)
            I.store(st, p, r, e["l"])
            return r
        if name == "insert" and len(av) == 2 and av[0].op == "iter" and av[1].op == "seq" and "initializer_list" in e["f"]["f"]:
            if av[0].a[1] is not I.size(st, c): raise Giveup("several elements inserted into the middle")
            for v in av[1].a: do_append(I, st, c, v, e["l"])
            return mk("iter", c, av[0].a[1])
        if name == "insert" and av and av[0].op == "iter" and len(av) == 2 and av[0].a[1] is I.size(st, c):
            do_append(I, st, c, av[1], e["l"])
            return mk("iter", c, av[0].a[1])
        if name == "insert" and len(av) == 3 and av[0].op == "iter" and av[1].op == "iter" and av[2].op == "iter" and av[0].a[1] is I.size(st, c):
            if av[1].a[0] is av[2].a[0]:
                each(I, e, st, (av[1].a[0], av[1].a[1], av[2].a[1]), lambda s2, x, pl: do_append(I, s2, c, x, e["l"]))
                return mk("sym", "it")
            I.eff(st, "concat", "concat", (c, av[1], av[2]), e["l"])
            st.heap[(c, "#")] = mk("concat", cont_or(I, st, c), av[1], av[2])
            return mk("sym", "it")
        if name == "erase" and len(av) == 2 and av[0].op == "removed" and av[0].a[0] is c and av[1].op == "iter" and av[1].a[0] is c and av[1].a[1] is I.size(st, c):
            name_, av = ("remove", [av[0].a[1]]) if av[0].a[1].op != "pred" else ("remove_if", [av[0].a[1]])
            return removal(I, st, c, name_, av, e["l"])
        if name == "remove_if":
            p = predicate(I, args[0], c, st, e["l"])
            if p is None: raise Giveup("remove_if with an unknown predicate")
            return removal(I, st, c, "remove" if p.op != "pred" else name, [p], e["l"])
        if name == "remove": return removal(I, st, c, name, av, e["l"])
        if name == "sort":
            av = list(order_key(I, args, st, e["l"]))
            cases = by_choice(tuple(av))
            if len(cases) > 1:
                for gk, k in cases: I.eff_g(st, gk, name, name, (c,) + k, e["l"])
                st.heap[(c, "#")] = mk("mut", name, cont_or(I, st, c), *av)
                drop_elems(st, c)
                return mk("sym", "void")
        if name == "pop_back":
            ct = I.contents(st, c)
            I.eff(st, name, name, (c,), e["l"])
            if ct is not None and ct.op == "seq" and ct.a: st.heap[(c, "#")] = mk("seq", *ct.a[:-1]); return mk("sym", "void")
            if ct is not None and ct.op == "append": st.heap[(c, "#")] = ct.a[0]; return mk("sym", "void")
        else: I.eff(st, name, name, (c,) + tuple(av), e["l"])
        old = cont_or(I, st, c)
        new = mk("mut", name, old, *av)
        st.heap[(c, "#")] = new
        drop_elems(st, c)
        if name == "insert": return mk("insiter", c, *av)
        if name == "erase": return mk("erasedit", c, *av)
        return mk("sym", "void")
    return h


for _c in ("std::vector", "std::list", "std::map", "std::set", "std::deque"):
    for _m in ("erase", "insert", "emplace", "remove", "remove_if", "sort", "reverse", "splice", "pop_back", "pop_front", "unique", "merge", "push_front", "emplace_front", "swap"):
        MODELS["%s::%s" % (_c, _m)] = mutate(_m)


@model("std::map::operator[]", "std::map::at")
def m_map_ix(I, e, st):
    xs = objarg(I, e, st)
    c, k = I.rv(xs[0], st), I.rv(xs[1], st)
    return elem_place(I, c, k, e["t"], st)


@model("std::map::count", "std::set::count", "std::map::contains")
def m_count(I, e, st):
    return mk("call", "count", ident(I, e, st), A(I, e, st, 0))


@model("std::_Bit_reference::operator bool")
def m_bitb(I, e, st): return ident(I, e, st)


@model("std::_Bit_reference::operator=")
def m_bita(I, e, st):
    xs = objarg(I, e, st)
    v = I.rv(xs[1], st)
    p = I.ev(xs[0], st)
    I.store(st, p, v, e["l"])
    return p


# --------------------------------------------------------------- algorithms
def call_fn(I, fn, args, st, loc):
    if isinstance(fn, Closure): return I.call_closure(fn, args, st, loc)
    if fn.op == "new" and isinstance(fn.a[0], str):
        m = re.match(r"std::(plus|minus|multiplies|divides|negate)<", fn.a[0])
        if m:
            v = [ldv(I, a, st) for a in args]
            return neg(v[0]) if m.group(1) == "negate" else {"plus": add, "minus": sub, "multiplies": mul, "divides": div}[m.group(1)](v[0], v[1])
    return mk("call", "indirect", fn, *[ldv(I, a, st) for a in args])


def itrange(I, e, st):
    a, b = A(I, e, st, 0), A(I, e, st, 1)
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]: return a.a[0], a.a[1], b.a[1]
    return None


def quantif(I, e, st, fnarg):
    """(uid, iv, element, formula) of a predicate over a range; sequence of known
    length is expanded instead"""
    r = itrange(I, e, st)
    if r is None: return None
    c, lo, hi = r
    fn = I.ev(e["a"][fnarg], st)
    fn = ldv(I, fn, st) if isinstance(fn, Place) else fn
    ct = I.contents(st, c) if c.op != "seq" else c
    if ct is not None and ct.op == "seq" and lo is ZERO and numval(hi) == len(ct.a):
        return "const", list(ct.a), fn, c
    uid = I.uid(len(I.loops), c, lo, hi)
    return "gen", uid, fn, c, lo, hi


def pred_formula(I, fn, x, st, loc):
    s2 = st.copy()
    r = I.quiet(lambda: call_fn(I, fn, [x], s2, loc))
    r = ldv(I, r, s2)
    return fm(r)


def acts(I, fn, x, st, loc):
    """the predicate does something besides answering"""
    s2 = st.copy()
    i0 = len(I.effects)
    keep = I.recording, dict(I.seq), dict(I.newcnt), I.trycnt, dict(I.occ)
    I.recording = True
    try: call_fn(I, fn, [x], s2, loc)
    finally:
        es = [y for y in I.effects[i0:] if y.kind not in ("pure", "new")]
        del I.effects[i0:]
        I.recording, I.seq, I.newcnt, I.trycnt, I.occ = keep
    return bool(es)


def in_turn(I, e, st, fn, xs, stop):
    """ask a predicate that acts, element by element, until the answer is stop"""
    done, res = [], 0
    for x in xs:
        f = fm(ldv(I, call_fn(I, fn, [x], st, e["l"]), st))
        if not stop: f = B.NOT(f)
        b = st.copy()
        b.g = B.AND(st.g, f)
        if b.g != 0: done.append(b)
        res = B.OR(res, f)
        st.g = B.AND(st.g, B.NOT(f))
        if st.g == 0: break
    for b in done:
        m = I.merge(b.g, b, st)
        st.env, st.heap, st.g = m.env, m.heap, m.g
    return res


def m_quant(which):
    def h(I, e, st):
        q = quantif(I, e, st, 2)
        if q is None: return NotImplemented
        if q[0] == "const" and q[1] and acts(I, q[2], q[1][0], st, e["l"]) or q[0] == "gen" and acts(I, q[2], I.index(st, q[3], add(q[4], IV(q[1])), ""), st, e["l"]):
            if q[0] == "const": xs = q[1]
            else:
                lo, hi = numval(q[4]), numval(q[5])
                if lo is None or hi is None or hi - lo > I.max_unroll: raise Giveup("algorithm with an acting predicate")
                xs = [I.index(st, q[3], num(i), "") for i in range(int(lo), int(hi))]
            r = in_turn(I, e, st, q[2], xs, which != "all")
            return boolt(r if which == "any" else B.NOT(r))
        if q[0] == "const":
            fs = [pred_formula(I, q[2], x, st, e["l"]) for x in q[1]]
        else:
            uid, fn, c, lo, hi = q[1:]
            iv = IV(uid)
            I.loops.append(Loop(uid, c, lo, hi, False, 1, "range", e["l"]))
            f = pred_formula(I, fn, I.index(st, c, add(lo, iv), ""), st, e["l"])
            I.loops.pop()
            if which == "all": return boolt(B.NOT(I.anyf(uid, B.NOT(f))))
            r = I.anyf(uid, f)
            return boolt(r if which == "any" else B.NOT(r))
        if which == "any": return boolt(B.OR(*fs))
        if which == "all": return boolt(B.AND(*fs))
        return boolt(B.NOT(B.OR(*fs)))
    return h


MODELS["std::any_of"] = m_quant("any")
MODELS["std::all_of"] = m_quant("all")
MODELS["std::none_of"] = m_quant("none")


@model("std::find_if", "std::find")
def m_find(I, e, st):
    r = itrange(I, e, st)
    if r is None: return NotImplemented
    c, lo, hi = r
    uid = I.uid(len(I.loops), c, lo, hi)
    iv = IV(uid)
    fn = fnarg(I, e, st, 2) if e["f"]["n"] == "find_if" else A(I, e, st, 2)
    def hit(i):
        x = I.index(st, c, i, "")
        return pred_formula(I, fn, x, st, e["l"]) if e["f"]["n"] == "find_if" else eq(x, fn)
    a, b = numval(lo), numval(hi)
    if a is not None and b is not None and b - a <= I.max_unroll:
        r = mk("iter", c, hi)
        for i in range(int(b) - 1, int(a) - 1, -1): r = ite(hit(num(i)), mk("iter", c, num(i)), r)
        return r
    I.loops.append(Loop(uid, c, lo, hi, True, 1, "range", e["l"]))
    f = hit(add(lo, iv))
    I.loops.pop()
    return ite(I.anyf(uid, f), mk("iter", c, mk("first", iv, f, add(lo, iv))), mk("iter", c, hi))


@model("std::distance")
def m_distance(I, e, st):
    def diff(a, b):
        if a.op == "ite": return ite(a.a[0], diff(a.a[1], b), diff(a.a[2], b))
        if b.op == "ite": return ite(b.a[0], diff(a, b.a[1]), diff(a, b.a[2]))
        if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]: return sub(b.a[1], a.a[1])
        return mk("distance", a, b)
    return diff(A(I, e, st, 0), A(I, e, st, 1))


def each(I, e, st, r, body):
    """run body(state, element, place) for every element of the range r"""
    c, lo, hi = r
    ct = I.contents(st, c) if c.op != "seq" else c
    a, b = numval(lo), numval(hi)
    if ct is not None and ct.op == "seq" and a is not None and b is not None and b <= len(ct.a) and b - a <= I.max_unroll:
        for i in range(int(a), int(b)): body(st, ct.a[i], Place("ix", c, num(i), ""))
        return
    cur = [None]
    def setup(s2, iv): cur[0] = add(lo, iv)
    s = {"k": "rfor", "l": e["l"], "v": {"id": "each", "t": ""}}
    I.range_loop(s, st, c, lo, hi, setup, {"k": "py", "fn": lambda s2: body(s2, I.index(s2, c, cur[0], ""), Place("ix", c, cur[0], ""))})


def fnarg(I, e, st, i):
    fn = I.ev(e["a"][i], st)
    return ldv(I, fn, st) if isinstance(fn, Place) else fn


def apply(I, fn, x, pl, st, loc):
    if isinstance(fn, Closure):
        t = fn.node["params"][0]["t"] if fn.node["params"] else ""
        if isref(t) and kind(t) != "obj" and "const" not in t: x = Place("ix", pl.a, pl.b, t)
    return call_fn(I, fn, [x], st, loc)


@model("std::for_each")
def m_foreach(I, e, st):
    r = itrange(I, e, st)
    fn = fnarg(I, e, st, 2)
    if r is None or not isinstance(fn, Closure): raise Giveup("for_each over an unknown range")
    if I.raw:
        c, lo, hi = r[0], numval(r[1]), numval(r[2])
        if lo is None or hi is None: raise Giveup("for_each over an unknown range")
        for i in range(int(lo), int(hi)):
            pl = Place("ix", c, num(i), "")
            apply(I, fn, I.index(st, c, num(i), ""), pl, st, e["l"])
        return fn
    each(I, e, st, r, lambda s2, x, pl: apply(I, fn, x, pl, s2, e["l"]))
    return fn


def inserter(I, x, st):
    """container a back_inserter writes to"""
    while x["k"] in ("cast", "paren", "mat", "ctor") and x.get("a" if x["k"] == "ctor" else "e"): x = x["a"][0] if x["k"] == "ctor" else x["e"]
    if x["k"] != "call" or not x.get("f") or x["f"]["q"] != "std::back_inserter": return None
    return A(I, x, st, 0)


@model("std::copy_if", "std::copy")
def m_copyif(I, e, st):
    r = itrange(I, e, st)
    out = inserter(I, e["a"][2], st)
    if r is None or out is None: raise Giveup("copy between unknown ranges")
    fn = fnarg(I, e, st, 3) if len(e["a"]) > 3 else None
    def body(s2, x, pl):
        f = 1 if fn is None else fm(ldv(I, apply(I, fn, x, pl, s2, e["l"]), s2))
        if f == 0: return
        s3 = s2.copy()
        s3.g = B.AND(s2.g, f)
        do_append(I, s3, out, x, e["l"])
        m = I.merge(f, s3, s2)
        s2.env, s2.heap = m.env, m.heap
    each(I, e, st, r, body)
    return mk("sym", "it")


@model("std::count_if", "std::count")
def m_countif(I, e, st):
    r = itrange(I, e, st)
    if r is None: raise Giveup("count over an unknown range")
    c, lo, hi = r
    cnt = e["f"]["n"] == "count"
    fn = fnarg(I, e, st, 2)
    pred = lambda x: eq(x, fn) if cnt else pred_formula(I, fn, x, st, e["l"])
    ct = I.contents(st, c) if c.op != "seq" else c
    a, b = numval(lo), numval(hi)
    if ct is not None and ct.op == "seq" and a is not None and b is not None and b <= len(ct.a):
        n = ZERO
        for i in range(int(a), int(b)): n = add(n, ite(pred(ct.a[i]), ONE, ZERO))
        return n
    uid = I.uid(len(I.loops), c, lo, hi)
    I.loops.append(Loop(uid, c, lo, hi, False, 1, "range", e["l"]))
    f = pred(I.index(st, c, add(lo, IV(uid)), ""))
    I.loops.pop()
    return mk("agg", "sum", IV(uid), ite(f, ONE, ZERO))


def m_elem(which):
    def h(I, e, st):
        r = itrange(I, e, st)
        if r is None: return NotImplemented
        c, lo, hi = r
        ct = I.contents(st, c) if c.op != "seq" else c
        return mk("minel" if which == "min" else "maxel", c if ct is None else ct, lo, hi)
    return h


MODELS["std::min_element"] = m_elem("min")
MODELS["std::max_element"] = m_elem("max")


@model("std::min", "std::max")
def m_minmax(I, e, st):
    if len(e["a"]) == 1:
        s = A(I, e, st, 0)
        if s.op == "seq": return minmax(e["f"]["n"], *s.a)
        return NotImplemented
    if len(e["a"]) != 2: return NotImplemented
    return minmax(e["f"]["n"], A(I, e, st, 0), A(I, e, st, 1))


@model("std::clamp")
def m_clamp(I, e, st):
    return minmax("min", A(I, e, st, 2), minmax("max", A(I, e, st, 1), A(I, e, st, 0)))


@model("std::accumulate")
def m_accumulate(I, e, st):
    r = itrange(I, e, st)
    if r is None: raise Giveup("accumulate over an unknown range")
    c, lo, hi = r
    if len(e["a"]) == 4:
        fn, key = fnarg(I, e, st, 3), "acc@%s" % e["l"]
        st.env[key] = A(I, e, st, 2)
        def body(s2, x, pl): s2.env[key] = ldv(I, call_fn(I, fn, [s2.env[key], x], s2, e["l"]), s2)
        each(I, e, st, r, body)
        return st.env.pop(key)
    uid = I.uid(len(I.loops), c, lo, hi)
    return add(A(I, e, st, 2), mk("agg", "sum", IV(uid), I.index(st, c, add(lo, IV(uid)), "")))


@model("std::inner_product")
def m_inner(I, e, st):
    if not I.raw or len(e["a"]) != 4: return NotImplemented
    a, b, c = [ldv(I, I.ev(x, st), st) for x in e["a"][:3]]
    if not all(t.op == "iter" and numval(t.a[1]) is not None for t in (a, b, c)): raise Giveup("product over an unknown range")
    r = A(I, e, st, 3)
    for i in range(int(numval(b.a[1]) - numval(a.a[1]))): r = add(r, mul(I.index(st, a.a[0], add(a.a[1], num(i)), "double"), I.index(st, c.a[0], add(c.a[1], num(i)), "double")))
    return r


@model("std::make_pair", "std::make_tuple")
def m_pair(I, e, st): return mk("vec", *[A(I, e, st, i) for i in range(len(e["a"]))])


@model("std::swap")
def m_swap(I, e, st):
    p, q = I.ev(e["a"][0], st), I.ev(e["a"][1], st)
    a, b = ldv(I, p, st), ldv(I, q, st)
    if isinstance(p, Place) and isinstance(q, Place):
        I.store(st, p, b, e["l"])
        I.store(st, q, a, e["l"])
    elif isinstance(a, T) and isinstance(b, T):
        ca, cb = cont_or(I, st, a), cont_or(I, st, b)
        I.eff(st, "swap", "swap", (a, b), e["l"])
        st.heap[(a, "#")], st.heap[(b, "#")] = cb, ca
    return mk("sym", "void")


@model("std::sort", "std::stable_sort", "std::reverse", "std::fill", "std::iota", "std::rotate", "std::unique", "std::shuffle")
def m_sort(I, e, st):
    r = itrange(I, e, st) if len(e["a"]) >= 2 else None
    av = []
    cmpf = None
    for a in e["a"]:
        x = I.ev(a, st)
        if isinstance(x, Place): x = I.load(st, x)
        if isinstance(x, Closure): cmpf = x
        av.append(x if isinstance(x, T) else mk("sym", "closure"))
    if r is None:
        I.eff(st, "call", e["f"]["q"], av, e["l"])
        return mk("call", e["f"]["q"], *av)
    c = r[0]
    key = ()
    if cmpf is not None and len(cmpf.node["params"]) == 2:
        s2 = st.copy()
        v = I.quiet(lambda: I.call_closure(cmpf, [mk("sym", "lhs"), mk("sym", "rhs")], s2, e["l"]))
        v = ldv(I, v, s2)
        key = (v,) if isinstance(v, T) else ()
    n = e["f"]["n"].replace("stable_", "")
    xs = [x for x in av[2:] if not (x.op == "sym" and x.a[0] == "closure")]
    lo, hi = numval(r[1]), numval(r[2])
    ct = I.contents(st, c)
    if n == "fill" and xs and (c in I.extent or ct is not None and ct.op == "seq") and lo is not None and hi is not None and hi <= 16:
        for i in range(int(lo), int(hi)): I.store(st, Place("ix", c, num(i), ""), xs[0], e["l"])
        return mk("sym", "void")
    part = () if r[1] is ZERO and r[2] is I.size(st, c) else (r[1], r[2])
    for gk, k in by_choice(key): I.eff_g(st, gk, n, n, (c,) + k + tuple(xs) + part, e["l"])
    st.heap[(c, "#")] = mk("mut", n, cont_or(I, st, c), r[1], r[2], *key, *xs)
    drop_elems(st, c)
    return mk("sym", "void")


# ------------------------------------------------------------------- maths
def mathf(name):
    def h(I, e, st):
        v = A(I, e, st, 0)
        return mathterm(name, v)
    return h


def mathterm(name, v):
    if v.op == "ite" and name == "abs": return ite(v.a[0], mathterm(name, v.a[1]), mathterm(name, v.a[2]))
    n = numval(v)
    if name == "sqrt" and n is not None and n in (0, 1): return v
    if name == "abs" and n is not None: return num(abs(n))
    if name == "abs":
        w = neg(v)
        return mk("abs", min(v, w))
    return mk(name, v)


for _n in ("sqrt", "acos", "cos", "sin", "exp", "ceil", "floor", "atan", "asin", "tan", "log", "round"):
    MODELS[_n] = MODELS["std::" + _n] = mathf(_n)
for _n in ("abs", "fabs", "std::abs", "std::fabs"): MODELS[_n] = mathf("abs")


@model("CppUtils::ABS")
def m_ABS(I, e, st): return mathterm("abs", A(I, e, st, 0))


@model("atan2", "std::atan2", "pow", "std::pow", "fmod", "std::fmod", "hypot", "std::hypot")
def m_math2(I, e, st):
    a, b = A(I, e, st, 0), A(I, e, st, 1)
    n = e["f"]["n"]
    if n == "pow" and numval(b) == 2: return mul(a, a)
    if n == "hypot": return sqrt_(add(mul(a, a), mul(b, b)))
    return mk(n, a, b)


def sqrt_(v): return mathterm("sqrt", v)


@model("CppUtils::EQ")
def m_EQ(I, e, st):
    a, b = A(I, e, st, 0), A(I, e, st, 1)
    return mk("truth", mk("approx", *sorted((a, b)), *[A(I, e, st, i) for i in range(2, len(e["a"]))]))


@model("CppUtils::EQ0")
def m_EQ0(I, e, st):
    return mk("truth", mk("approx0", *[A(I, e, st, i) for i in range(len(e["a"]))]))


@model("CppUtils::MOD")
def m_MOD(I, e, st): return modt(A(I, e, st, 0), A(I, e, st, 1))


@model("std::numeric_limits::epsilon", "std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest", "std::numeric_limits::infinity")
def m_limits(I, e, st): return mk("sym", e["f"]["n"] + ":" + strip(e["t"]))


# --------------------------------------------------------------- small vectors
def vecdim(t):
    m = re.search(r"VecND<[^,]+, (\d+)", t)
    return int(m.group(1)) if m else 2


def comps(v, n): return [comp(v, i) for i in range(n)]


def vmap(f, *vs):
    n = max([len(v.a) for v in vs if v.op == "vec"] or [2])
    return mk("vec", *[f(*[comp(v, i) for v in vs]) for i in range(n)])


def isvec(e): return kind(e.get("t", "")) == "vec"


def m_vop(op):
    def h(I, e, st):
        xs = objarg(I, e, st)
        if not any(isvec(x) for x in xs): return NotImplemented
        if op == "-" and len(xs) == 1: return vmap(neg, I.rv(xs[0], st))
        a, b = I.rv(xs[0], st), I.rv(xs[1], st)
        f = {"+": add, "-": sub, "*": mul, "/": div}[op]
        n = vecdim([x for x in xs if isvec(x)][0]["t"])
        ca = comps(a, n) if isvec(xs[0]) else [a] * n
        cb = comps(b, n) if isvec(xs[1]) else [b] * n
        return mk("vec", *[f(x, y) for x, y in zip(ca, cb)])
    return h


def m_vopa(op):
    def h(I, e, st):
        xs = objarg(I, e, st)
        if not isvec(xs[0]): return NotImplemented
        p = I.ev(xs[0], st)
        a, b = ldv(I, p, st), I.rv(xs[1], st)
        f = {"+": add, "-": sub, "*": mul, "/": div}[op]
        n = vecdim(xs[0]["t"])
        cb = comps(b, n) if isvec(xs[1]) else [b] * n
        r = mk("vec", *[f(x, y) for x, y in zip(comps(a, n), cb)])
        I.store(st, p, r, e["l"])
        return r
    return h


for _o in "+-*/":
    MODELS["CppUtils::operator" + _o] = m_vop(_o)
    MODELS["CppUtils::VecND::operator" + _o] = m_vop(_o)
    MODELS["CppUtils::VecND::operator" + _o + "="] = m_vopa(_o)


@model("CppUtils::VecND::operator=")
def m_vassign(I, e, st):
    xs = objarg(I, e, st)
    v = I.rv(xs[1], st)
    p = I.ev(xs[0], st)
    I.store(st, p, tovec(v), e["l"])
    return p


@model("CppUtils::VecND::operator[]")
def m_vindex(I, e, st):
    xs = objarg(I, e, st)
    p = I.ev(xs[0], st)
    i = numval(I.rv(xs[1], st))
    if i is None: return mk("ix", ldv(I, p, st), I.rv(xs[1], st))
    return Place("comp", p, int(i)) if isinstance(p, Place) else comp(p, int(i))


@model("CppUtils::operator==")
def m_veq(I, e, st):
    xs = objarg(I, e, st)
    if not any(isvec(x) for x in xs): return NotImplemented
    return boolt(eq(I.rv(xs[0], st), I.rv(xs[1], st)))


@model("CppUtils::operator!=")
def m_vne(I, e, st):
    xs = objarg(I, e, st)
    if not any(isvec(x) for x in xs): return NotImplemented
    return boolt(B.NOT(eq(I.rv(xs[0], st), I.rv(xs[1], st))))


@model("CppUtils::dot")
def m_dot(I, e, st):
    a, b = A(I, e, st, 0), A(I, e, st, 1)
    n = vecdim(e["a"][0]["t"])
    r = ZERO
    for x, y in zip(comps(a, n), comps(b, n)): r = add(r, mul(x, y))
    return r


@model("CppUtils::cross")
def m_cross(I, e, st):
    a, b = A(I, e, st, 0), A(I, e, st, 1)
    if vecdim(e["a"][0]["t"]) != 2: return NotImplemented
    return sub(mul(comp(a, 0), comp(b, 1)), mul(comp(a, 1), comp(b, 0)))


@model("CppUtils::VecND::norm_sqr", "CppUtils::VecND::norm")
def m_norm(I, e, st):
    v = ident(I, e, st)
    r = ZERO
    for x in comps(v, vecdim(e["o"]["t"])): r = add(r, mul(x, x))
    return r if e["f"]["n"] == "norm_sqr" else sqrt_(r)


@model("CppUtils::VecND::min", "CppUtils::VecND::max")
def m_vminmax(I, e, st):
    return minmax(e["f"]["n"], *comps(ident(I, e, st), vecdim(e["o"]["t"])))


@model("CppUtils::VecND::get_x", "CppUtils::VecND::get_y", "CppUtils::VecND::get_z")
def m_getx(I, e, st):
    p = I.ev(e["o"], st)
    i = "xyz".index(e["f"]["n"][-1])
    return Place("comp", p, i) if isinstance(p, Place) else comp(p, i)


# ---------------------------------------------------------------- streams
STREAM = re.compile(r"std::basic_(o|io)?(f|string|i)?stream|std::basic_(ostream|ofstream|stringstream|ostringstream)")


def m_out(I, e, st):
    xs = objarg(I, e, st)
    if "stream" not in xs[0].get("t", ""): return NotImplemented
    s = I.ev(xs[0], st)
    s = ldv(I, s, st)
    v = I.ev(xs[1], st) if xs[1]["k"] != "fref" else mk("c", "s", "\n" if xs[1]["f"]["n"] == "endl" else "manip:" + xs[1]["f"]["n"])
    v = ldv(I, v, st)
    if isinstance(v, Closure): v = mk("sym", "closure")
    if v.op == "call" and v.a[0] in ("std::setw", "std::setfill"): return s
    if v.op == "call" and v.a[0] == "std::setprecision":
        st.heap[(s, "%prec")] = v.a[1]
        return s
    if v.op == "c" and v.a[0] == "s" and v.a[1] in ("manip:fixed", "manip:scientific", "manip:defaultfloat"):
        st.heap[(s, "%fmt")] = v
        return s
    if v.op == "c" and v.a[0] == "s" and v.a[1].startswith("manip:"): return s
    k = kind(xs[1].get("t", ""))
    if k in ("float", "vec"):
        v = mk("fmt", v, st.heap.get((s, "%prec"), mk("sym", "prec")), st.heap.get((s, "%fmt"), mk("sym", "fmt")))
    if k == "int" and xs[1].get("ch"): v = mk("c", "s", chr(int(numval(v))))
    I.eff(st, "out", "<<", (s, v), e["l"])
    return s


MODELS["std::operator<<"] = m_out
MODELS["std::basic_ostream::operator<<"] = m_out


@model("CppUtils::operator<<")
def m_out_repo(I, e, st):
    xs = objarg(I, e, st)
    if isvec(xs[1]): return m_out(I, e, st)
    return NotImplemented


@model("exit", "std::exit", "abort", "std::abort", "std::terminate", "_Exit", "quick_exit")
def m_exit(I, e, st):
    av = [I.rv(a, st) for a in e["a"]]
    I.eff(st, "throw", "exit", av, e["l"])
    st.g = 0
    return mk("sym", "noreturn")


@model("std::basic_ios::operator bool", "std::basic_ios::operator!", "std::basic_ios::fail")
def m_ios(I, e, st):
    s = ident(I, e, st)
    f = fm(symcall("std::basic_ios::fail", s, *([st.heap[(s, "%in")]] if (s, "%in") in st.heap else [])))
    return boolt(B.NOT(f) if e["f"]["n"] == "operator bool" else f)


@model("std::operator>>", "std::basic_istream::operator>>")
def m_in(I, e, st):
    """reads a value: the stream itself is the result, its state that of the last read"""
    xs = objarg(I, e, st)
    if "stream" not in xs[0].get("t", "") or len(xs) != 2: return NotImplemented
    s = ldv(I, I.ev(xs[0], st), st)
    p = I.ev(xs[1], st)
    if not isinstance(p, Place): return NotImplemented
    r = mk("call", "std::basic_istream::operator>>", s, st.heap.get((s, "%in"), mk("sym", "fresh")), mk("c", "s", strip(xs[1].get("t", ""))))
    I.eff(st, "call", "std::basic_istream::operator>>", (s,), e["l"], r)
    I.quiet_store(st, p, mk("out", r, mk("c", "s", "0")))
    st.heap[(s, "%in")] = r
    return s


# ----------------------------------------------------------------- strings
@model("std::operator+")
def m_cat(I, e, st):
    return scat([I.rv(x, st) for x in objarg(I, e, st)])


def scat(vs):
    out = []
    for v in vs:
        if v.op == "cat": out += list(v.a)
        else: out.append(v)
    r = []
    for v in out:
        if v.op == "c" and v.a[0] == "s" and r and r[-1].op == "c" and r[-1].a[0] == "s": r[-1] = mk("c", "s", r[-1].a[1] + v.a[1])
        else: r.append(v)
    return mk("cat", *r) if len(r) > 1 else r[0]


@model("std::basic_string::operator=", "std::basic_string::operator+=")
def m_sassign(I, e, st):
    xs = objarg(I, e, st)
    v = I.rv(xs[1], st)
    p = I.ev(xs[0], st)
    if e["f"]["n"] == "operator+=":
        o = ldv(I, p, st)
        v = scat([o, v])
    I.store(st, p, v, e["l"])
    return p


@model("std::basic_string::begin", "std::basic_string::end")
def m_sit(I, e, st):
    p = I.ev(e["o"], st)
    v = ldv(I, p, st)
    return mk("iter", v, ZERO if e["f"]["n"] == "begin" else mk("size", v))


@model("std::basic_string::size", "std::basic_string::length")
def m_ssize(I, e, st): return mk("size", ident(I, e, st))


@model("std::basic_string::empty")
def m_sempty(I, e, st):
    v = ident(I, e, st)
    return boolt(eq(mk("size", v), ZERO, True)) if not (v.op == "c") else boolt(1 if v.a[1] == "" else 0)


@model("std::transform")
def m_transform(I, e, st):
    out = inserter(I, e["a"][2], st) if len(e["a"]) == 4 else None
    if out is not None:
        r = itrange(I, e, st)
        if r is None: raise Giveup("transform of an unknown range")
        fn = fnarg(I, e, st, 3)
        each(I, e, st, r, lambda s2, x, pl: do_append(I, s2, out, ldv(I, apply(I, fn, x, pl, s2, e["l"]), s2), e["l"]))
        return mk("sym", "it")
    if I.raw:
        # element by element, all of a known length
        its = [ldv(I, I.ev(a, st), st) for a in e["a"][:-1]]
        fn = I.ev(e["a"][-1], st)
        fn = ldv(I, fn, st) if isinstance(fn, Place) else fn
        if not all(t.op == "iter" and numval(t.a[1]) is not None for t in its): raise Giveup("transform of an unknown range")
        n = int(numval(its[1].a[1]) - numval(its[0].a[1]))
        src = [its[0]] + its[2:-1]
        vals = []
        for i in range(n): vals.append(ldv(I, call_fn(I, fn, [I.index(st, t.a[0], add(t.a[1], num(i)), "double") for t in src], st, e["l"]), st))
        for i, v in enumerate(vals): I.store(st, Place("ix", its[-1].a[0], add(its[-1].a[1], num(i)), "double"), v, e["l"])
        return mk("iter", its[-1].a[0], add(its[-1].a[1], num(n)))
    # in-place transformation of a string (case folding)
    x = e["a"][2]
    tgt = None
    if x["k"] == "call" and x.get("o") is not None: tgt = I.ev(x["o"], st)
    av = [I.ev(a, st) for a in e["a"]]
    fn = av[-1]
    av = [ldv(I, v, st) for v in av]
    if tgt is not None and isinstance(tgt, Place):
        I.store(st, tgt, mk("call", "std::transform", ldv(I, tgt, st), av[-1] if isinstance(av[-1], T) else mk("sym", "closure")), e["l"])
    else:
        I.eff(st, "call", "std::transform", [v for v in av if isinstance(v, T)], e["l"])
    return mk("sym", "it")


# -------------------------------------------------------------- Container<T>
def cont(fn):
    def h(I, e, st):
        if not I.model_container: return NotImplemented
        return fn(I, e, st)
    return h


def c_back(I, e, st):
    c = ident(I, e, st)
    return mkix(c, sub(I.size(st, c), ONE))


MODELS["CppUtils::Container::begin"] = cont(m_begin)
MODELS["CppUtils::Container::end"] = cont(m_end)
MODELS["CppUtils::Container::size"] = cont(lambda I, e, st: I.size(st, ident(I, e, st)))
MODELS["CppUtils::Container::front"] = cont(lambda I, e, st: mkix(ident(I, e, st), ZERO))
MODELS["CppUtils::Container::back"] = cont(c_back)
MODELS["CppUtils::Container::operator[]"] = cont(lambda I, e, st: mkix(ident(I, e, st), I.rv(objarg(I, e, st)[1], st)))
CONT_EVENTS = ("insert", "push_back", "remove", "update", "clear_waste", "sort", "get_items", "get_nearest", "find")


def generic_model(I, q, e):
    if q.startswith("CppUtils::Container::") and I.model_container and q.split("::")[-1] in CONT_EVENTS: return c_event
    if q.startswith(("std::", "__gnu_cxx::")) or e["f"]["f"] not in I.P.funs:
        return ext_call
    return None


def c_event(I, e, st):
    """container operation as an event; new objects get their constructor run
    by the rules that need it"""
    f = e["f"]
    c = ident(I, e, st)
    args = [I.ev(a, st) for a in e["a"]]
    av = tuple(x if isinstance(x, T) else mk("sym", "closure") for x in I.vals(args, st))
    n = f["n"]
    t = tmpl_arg(strip(e["o"].get("t", "").replace("*", "").strip()))
    if n in ("insert", "push_back"):
        o = I.mkobj(t, e["l"], av)
        pos = av[0] if n == "insert" else mk("iter", c, mk("sym", "end"))
        vs = av[1:] if n == "insert" else av
        ef = I.eff(st, "insert", t, (c, o, pos) + vs, e["l"], o)
        if I.run_entity_ctors:
            ty = [a.get("t", "") for a in e["a"]]
            fn = I.find_ctor(t, (args[1:] if n == "insert" else args), ty[1:] if n == "insert" else ty)
            if fn: I.run_ctor(fn, o, (args[1:] if n == "insert" else args), st, e["l"])
        I.invalidate(st, c)
        return o
    if n in ("get_items", "get_nearest"):
        return I.opaque_call(f, e, c, args, st)
    if n == "remove":
        I.eff(st, "remove", t, (c,) + av, e["l"])
        I.invalidate(st, c)
        return mk("call", q_of(f), c, *av)
    if n == "sort":
        av = order_key(I, args, st, e["l"])
        for gk, k in by_choice(av): I.eff_g(st, gk, n, t, (c,) + k, e["l"])
    else: I.eff(st, n, t, (c,) + av, e["l"])
    return mk("call", q_of(f), c, *av)


def q_of(f): return f["q"]


def closure_term(I, fn, st, loc):
    """what a function object computes, as a term over its arguments"""
    n = fn.node
    if n.get("body") is None: return fn
    s2 = st.copy()
    v = I.quiet(lambda: I.call_closure(fn, [mk("sym", "arg%d" % i) for i in range(len(n["params"]))], s2, loc))
    if v is None: return fn
    v = ldv(I, v, s2)
    return mk("fn", v) if isinstance(v, T) else fn


ALGOS = {"erase_if", "partition", "stable_partition", "generate", "generate_n", "replace_if", "partial_sort", "nth_element", "inner_product", "accumulate", "adjacent_find", "find_if_not",
         "lower_bound", "upper_bound", "equal", "mismatch", "for_each_n", "reduce", "transform_reduce", "unique", "remove_copy_if", "visit", "apply", "invoke", "min_element", "max_element", "minmax_element"}


def ext_call(I, e, st):
    """call out of the repository: value semantics for strings, opaque otherwise"""
    f = e["f"]
    p = I.ev(e["o"], st) if e.get("o") is not None else None
    if isinstance(p, Closure):
        return I.call_closure(p, [I.ev(a, st) for a in e["a"]], st, e["l"], f["f"])
    args = [I.ev(a, st) for a in e["a"]]
    o = ldv(I, p, st) if isinstance(p, Place) else p
    fn = I.P.funs.get(f["f"])
    if fn is not None:
        return NotImplemented
    if f.get("impl") and f["n"] == "operator=" and o is not None:
        v = ldv(I, args[0], st)
        if isinstance(v, T):
            if isinstance(p, Place): I.store(st, p, v, e["l"])
            else:
                I.eff(st, "assign", "operator=", (o, v), e["l"])
                # member-wise copy of known contents
                for (x, n), val in list(st.heap.items()):
                    if x is v: st.heap[(o, n)] = val
        return p
    if f["q"].startswith("std::") and any(isinstance(x, Closure) for x in args) and (f["n"] in ALGOS): raise Giveup("std::%s is not modelled" % f["n"])
    args = [closure_term(I, x, st, e["l"]) if isinstance(x, Closure) and f["q"].startswith("std::") else x for x in args]
    av = [x if isinstance(x, T) else mk("sym", "closure") for x in I.vals(args, st)]
    if e.get("op") and len(args) == 2 and e["op"] in ("==", "!=", "<", ">", "<=", ">="):
        pass
    if isinstance(p, Place) and kind(e["o"].get("t", "")) == "str" and not f.get("const"):
        r = mk("call", f["q"], o, *av)
        I.store(st, p, r, e["l"])
        return r
    if f["q"] in ("std::remove", "std::remove_if") or f["q"].startswith("std::set") or f["q"] in ("std::to_string", "std::stod", "std::stoi") or (f.get("const") and "ref" not in f.get("pk", []) or o is None and all(k in ("val", "cref", "ptr") for k in f["pk"])):
        r = mk("call", f["q"], *([o] if isinstance(o, T) else []), *av)
        if f.get("noret"): st.g = 0
        if not f["q"].startswith("std::"): I.eff(st, "pure", f["q"], ([o] if isinstance(o, T) else []) + av, e["l"], r)
        return r
    return I.opaque_call(f, e, o, args, st)


def iter_root(I, r, t, st):
    """container object iterated by a range-for over a repository class"""
    t = re.sub(r"\bconst\b", "", t).strip()
    if t.startswith("CppUtils::Container<") and I.model_container: return r
    cands = [f for f in I.P.funs.values() if f["n"] == "begin" and f.get("clst") == t and not f["params"]]
    if not cands:
        for b in I.P.recs.get(t, {}).get("bases", []):
            x = iter_root(I, r, strip(b), st)
            if x is not None: return x
        return None
    s2 = st.copy()
    v = I.quiet(lambda: I.inline(cands[0], r, [], s2, ""))
    if isinstance(v, Place): v = I.load(s2, v)
    return v.a[0] if v.op == "iter" and v.a[1] is ZERO else None
