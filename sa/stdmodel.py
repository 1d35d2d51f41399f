"""Models of the standard-library entities the library uses (value semantics only)."""
from .terms import *

NONE = object()

import re
CSTR = {"strlen", "std::strlen", "__builtin_strlen", "atoi", "std::atoi", "atol", "atoll", "std::stoi", "std::stol", "std::stoll",
        "std::stoul", "std::stoull", "isdigit", "std::isdigit", "strcmp", "std::strcmp", "strchr", "std::strchr"}
SEQ = {"std::vector", "std::basic_string", "std::basic_string_view", "std::span", "std::array", "std::initializer_list", "std::ranges::single_view"}
ITER = {"__gnu_cxx::__normal_iterator", "std::move_iterator"}
WRAPPED = {"sparrow::pointer_iterator"}   # iterators of the library whose operator-> designates the element


def unwrapped(M, st, fr, a, line):
    """an iterator of the library that stands for a pointer, as that pointer: (argument, pointer) or None"""
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t.get("tm") not in WRAPPED or not isinstance((t.get("ta") or [None])[0], int):
        return None
    if a[0] == "l":
        l = a[1]
    else:
        l = M.fresh("tmp")
        M.assign(st, l, a[1], quiet=True)
    p = call_method(M, st, fr, dict(t, const=True), l, "operator->", [], line)
    if p is None:
        for nm in ("operator*", "dereference"):
            p = call_method(M, st, fr, dict(t, const=True), l, nm, [], line)
            if p is not None:
                p = addr(p)
                break
        else:
            M.note("unwrap:" + t["s"])
            return None
    return ("v", p, {"t": t["ta"][0]})


def tmn(fr, t):
    while t["k"] in ("ref", "rref"):
        t = fr.tu.types[t["to"]]
    return t.get("tm", t["s"])


def tmn_e(fr, e):
    return tmn(fr, fr.tu.types[e["t"]])


def targ(fr, t, i=0):
    ta = t.get("ta") or []
    if i < len(ta):
        a = ta[i]
        return fr.tu.types[a] if isinstance(a, int) else a
    return None


VIEW, VIEW_STRIDE = ("std::ranges::transform_view", "std::ranges::iota_view", "std::ranges::join_view", "std::ranges::take_view"), 256
# a lazy view over a range is modelled by the sequence of its elements (the functions mapped over it are pure), in
# storage of its own and VIEW_STRIDE apart


def view_iter(t):
    tm = t.get("tm") or ""
    return tm.startswith(("std::ranges::transform_view<", "std::ranges::join_view<", "std::ranges::take_view<")) and tm.endswith(("::_Iterator", "::_Sentinel"))


def elem_size(fr, t):
    if t.get("tm") in VIEW or view_iter(t):
        return VIEW_STRIDE
    a = targ(fr, t, 0)
    if not isinstance(a, dict) or "k" not in a:
        return 1
    if t.get("tm") in ITER and a.get("tm") in WRAPPED:
        a = targ(fr, a, 0) or a
    if a["k"] in ("ptr",) and t.get("tm") in ITER:
        a = fr.tu.types[a["to"]]
    if a["k"] == "bool" and t.get("tm") == "std::vector":
        return 1
    return a.get("sz", 1)


def seq_b(M, st, fr, t, loc):
    if t.get("tm") == "std::array":
        return addr(fld(loc, "$e"))
    return M.lookup(st, fld(loc, "$b"))


def seq_n(M, st, fr, t, loc):
    if t.get("tm") == "std::array":
        a = targ(fr, t, 1)
        return I(a["v"]) if isinstance(a, dict) and "v" in a else M.lookup(st, fld(loc, "$n"))
    return M.lookup(st, fld(loc, "$n"))


def seqval(base, b, n):
    return rec(base, {"$b": b, "$n": n})


def fresh_storage(M):
    return addr(M.fresh("heap"))


def deref_t(fr, t):
    while t["k"] in ("ref", "rref"):
        t = fr.tu.types[t["to"]]
    return t


def is_ptrlike(fr, t):
    t = deref_t(fr, t)
    return t["k"] == "ptr" or t.get("tm") in ITER or view_iter(t)


def ptr_es(fr, t):
    t = deref_t(fr, t)
    if t["k"] == "ptr":
        return fr.tu.types[t["to"]].get("sz", 1)
    return elem_size(fr, t)


def bare(s):
    return s.replace("const ", "").replace(" &", "").replace("&", "").strip()


def bare_t(fr, t):
    t = deref_t(fr, t)
    s = t["s"]
    if t.get("const") and s.startswith("const "):
        s = s[6:]
    return s


def alt_index(fr, vt, t):
    """index of the alternative of variant type vt with type t"""
    s = bare_t(fr, t)
    alts = variant_alts(fr, vt)
    for i, a in enumerate(alts):
        if bare_t(fr, a) == s:
            return i
    return None


def variant_alts(fr, vt):
    return [fr.tu.types[a] for a in vt.get("ta", []) if isinstance(a, int)]


def pv_style(fr, vt):
    """variant<X*, X>"""
    a = variant_alts(fr, vt)
    return len(a) == 2 and a[0]["k"] == "ptr" and fr.tu.types[a[0]["to"]]["s"].replace("const ", "") == a[1]["s"].replace("const ", "")


def alt_field(fr, vt, i):
    if pv_style(fr, vt):
        return "$vp" if i == 0 else "$obj"
    return f"$v{i}"


def variant_loc_of(M, fr, t):
    """variant base class (std types deriving from variant are repo classes with a variant base)"""
    return t


def find_variant_type(M, fr, t):
    t = deref_t(fr, t)
    if t.get("tm") == "std::variant":
        return t
    r = M.prog.records.get(bare(t["s"])) or M.prog.records.get(bare_t(fr, t))
    if r:
        for b in r[0]["bases"]:
            bt = r[1].types[b]
            if bt.get("tm") == "std::variant":
                return bt
    return None


def methods_of(M, tname, name):
    """(fn) candidates of method `name` in record tname and its bases"""
    out = []
    r = M.prog.records.get(tname)
    if not r:
        return out
    for m in r[0].get("methods", []):
        if m["n"] == name:
            f = M.prog.get(r[1], m["key"])
            if f is not None:
                out.append(f)
    if not out:
        # member templates
        out = list(M.prog.by_cls.get((tname, name), ()))
    if not out:
        for b in r[0]["bases"]:
            out += methods_of(M, r[1].types[b]["s"], name)
    return out


def call_method(M, st, fr, t, loc, name, argv, line):
    t = deref_t(fr, t)
    c = [f for f in methods_of(M, bare_t(fr, t), name) if len(f.params) == len(argv)]
    if not c:
        return None
    if t.get("const"):
        cc = [f for f in c if f.d.get("const")]
        c = cc or c
    else:
        cc = [f for f in c if not f.d.get("const")]
        c = cc or c
    if M.recursing(c[0]):
        return None
    return M.call_fn(st, c[0], loc, argv, line)


def resolve_ctor(M, cname, fr, A):
    r = M.prog.records.get(cname)
    if not r:
        return None
    best = []
    for m in r[0].get("methods", []):
        if "ctor" not in m:
            continue
        f = M.prog.get(r[1], m["key"])
        if f is None or len(f.params) < len(A):
            continue
        if any("d" not in p for p in f.params[len(A):]):
            continue
        ok = True
        score = 0
        for p, a in zip(f.params, A):
            pt = deref_t_tu(f.tu, f.tu.types[p["t"]])
            at = deref_t(fr, fr.tu.types[a[2]["t"]])
            ps, as_ = pt["s"].replace("const ", ""), at["s"].replace("const ", "")
            if ps == as_:
                score += 2
                rawp = f.tu.types[p["t"]]
                if rawp["k"] == "rref" and a[0] == "l" and not is_xvalue(a[2]):
                    ok = False
                if rawp["k"] == "rref" and is_xvalue(a[2]):
                    score += 1
            elif pt["k"] in ("int", "uint", "bool", "enum") and at["k"] in ("int", "uint", "bool", "enum"):
                score += 1
            else:
                ok = False
        if ok:
            best.append((score, f))
    best.sort(key=lambda x: -x[0])
    return best[0][1] if best else None


def is_xvalue(e):
    return (not e.get("g")) or e["k"] == "mat" or (e["k"] == "call" and e["f"]["n"] in ("std::move",))


def deref_t_tu(tu, t):
    while t["k"] in ("ref", "rref"):
        t = tu.types[t["to"]]
    return t


def make_object(M, st, fr, cname, loc, A, line):
    if len(A) == 1 and bare_t(fr, fr.tu.types[A[0][2]["t"]]) == cname and resolve_ctor(M, cname, fr, A) is None:
        M.assign(st, loc, M.val(st, A[0]), quiet=True)
        return True
    f = resolve_ctor(M, cname, fr, A)
    if f is None or M.is_opaque(f) or M.recursing(f):
        vals = [M.val(st, a) for a in A]
        M.assign(st, loc, mk("call", cname + "::ctor", *vals), quiet=True)
        M.ev("call", st, line, name=cname + "::ctor", obj=addr(loc), args=vals, extra=(None, vals, f))
        return False
    pv = []
    for p, a in zip(f.params, A):
        t = f.tu.types[p["t"]]
        if t["k"] in ("ref", "rref"):
            if a[0] == "l":
                pv.append(a[1])
            else:
                tl = M.fresh("tmp")
                M.assign(st, tl, a[1], quiet=True)
                pv.append(tl)
        else:
            pv.append(M.val(st, a))
    for p in f.params[len(A):]:
        fr2 = M.frame_for(f)
        t = f.tu.types[p["t"]]
        pv.append(M.lv(st, p["d"], fr2) if t["k"] in ("ref", "rref") else M.rv(st, p["d"], fr2))
    M.call_fn(st, f, loc, pv, line)
    return True


# ---------------------------------------------------------------------------------------------- constructors
CMPS = {"std::cmp_less": "<", "std::cmp_less_equal": "<=", "std::cmp_greater": ">", "std::cmp_greater_equal": ">="}


def ctor(M, st, loc, f, cls, A, e, fr):
    nm = cls.get("tm", "")
    vals = None
    kind = f.get("ctor")

    def V(i):
        return M.val(st, A[i])

    def T_(i):
        return deref_t(fr, fr.tu.types[A[i][2]["t"]])

    def put(v):
        M.assign(st, loc, v, quiet=True)
        return True

    if nm == "std::allocator":   # has no state
        return put(ZERO)
    if nm in VIEW and kind not in ("copy", "move"):
        if nm == VIEW[1] and len(A) == 2 and V(0) is ZERO:
            return put(materialised(M, st, V(1), lambda s, ctr: ctr))
        if nm == VIEW[0] and len(A) == 2:
            r = mapped(M, st, fr, A[0], A[1], 0)
            return put(r) if r is not None else False
        return False
    if nm in ITER or nm.startswith(("std::ranges::transform_view<", "std::ranges::join_view<", "std::ranges::take_view<")):
        if len(A) == 1:
            return put(V(0))
        if not A:
            return put(ZERO)
        return False
    if nm == "std::ranges::single_view" and len(A) == 1 and kind not in ("copy", "move"):
        b = fresh_storage(M)
        conv_into(M, st, fr, deref(b), targ(fr, cls, 0), A[0])
        return put(seqval(ZERO, b, ONE))
    if nm in SEQ:
        es = elem_size(fr, cls)
        if kind in ("copy", "move") and A:
            v = V(0)
            if nm in ("std::vector", "std::basic_string") and kind == "copy":
                return put(copy_seq(M, st, v, es, nm == "std::basic_string"))
            put(v)
            if kind == "move" and A[0][0] == "l" and nm in ("std::vector",):
                M.assign(st, fld(A[0][1], "$n"), ZERO, quiet=True)
            return True
        if not A or (len(A) == 1 and T_(0).get("tm", "") in ("std::allocator", "sparrow::any_allocator")):
            if nm == "std::array":
                return True
            b = fresh_storage(M) if nm in ("std::vector", "std::basic_string") else ZERO
            if nm == "std::basic_string":
                M.assign(st, deref(b), ZERO, quiet=True)
            return put(seqval(ZERO, b, ZERO))
        A2 = [a for a in A if deref_t(fr, fr.tu.types[a[2]["t"]]).get("tm", "") not in ("std::allocator",)]
        t0 = deref_t(fr, fr.tu.types[A2[0][2]["t"]])
        if nm in ("std::basic_string_view", "std::basic_string", "std::span"):
            cp = (lambda b, n: new_copy(M, st, b, n, text=True)) if nm == "std::basic_string" else (lambda b, n: b)
            if len(A2) == 1:
                if t0.get("tm") in SEQ:
                    l = as_loc(M, st, A2[0])
                    n = seq_n(M, st, fr, t0, l)
                    return put(seqval(ZERO, cp(seq_b(M, st, fr, t0, l), n), n))
                if t0["k"] == "ptr":
                    v = M.val(st, A2[0])
                    if v.op == "str":
                        n = I(len(v.args[0].encode()))
                        return put(seqval(ZERO, cp(v, n), n))
                    n = c_strlen(M, st, v)
                    return put(seqval(ZERO, cp(v, n), n))
                # repository range
                l = as_loc(M, st, A2[0])
                b = call_method(M, st, fr, t0, l, "data", [], 0)
                n = call_method(M, st, fr, t0, l, "size", [], 0)
                if b is not None and n is not None:
                    return put(seqval(ZERO, cp(b, n), n))
                return False
            if len(A2) == 2:
                a, b = M.val(st, A2[0]), M.val(st, A2[1])
                if is_ptrlike(fr, t0):
                    t1 = deref_t(fr, fr.tu.types[A2[1][2]["t"]])
                    if is_ptrlike(fr, t1):
                        n = div(sub(b, a), I(es))
                        return put(seqval(ZERO, cp(a, n), n))
                    return put(seqval(ZERO, cp(a, b), b))
                if t0["k"] in ("int", "uint"):
                    return put(seqval(mk("fillv", b), fresh_storage(M), a))
            return False
        if nm == "std::vector":
            if t0["k"] in ("int", "uint", "enum") and (len(A2) == 1 or not is_ptrlike(fr, deref_t(fr, fr.tu.types[A2[1][2]["t"]]))):
                n = M.val(st, A2[0])
                v = M.val(st, A2[1]) if len(A2) > 1 else ZERO
                h = fresh_storage(M)
                if n.op == "int":
                    for i in range(min(n.args[0], 32)):
                        M.assign(st, deref(add(h, I(i * es))), v, quiet=True)
                elif targ(fr, cls, 0) and targ(fr, cls, 0)["k"] != "rec":
                    M.write_range(st, h, es, n, lambda s_, i: v)
                return put(seqval(mk("fillv", v), h, n))
            if t0.get("tm") == "std::initializer_list":
                v = M.val(st, A2[0])
                return put(seqval(ZERO, new_copy(M, st, fldof(v, "$b"), fldof(v, "$n"), es), fldof(v, "$n")))
            if t0.get("tm") == "std::vector":
                return put(copy_seq(M, st, M.val(st, A2[0]), es))
            if len(A2) == 2 and is_ptrlike(fr, t0):
                a, b = M.val(st, A2[0]), M.val(st, A2[1])
                n = div(sub(b, a), I(es))
                return put(seqval(ZERO, new_copy(M, st, a, n, es), n))
            if len(A2) == 2:
                a, b = M.val(st, A2[0]), M.val(st, A2[1])
                base = mk("call", "vector_range", a, b)
                return put(seqval(base, mk("rngstore", base), mk("rngsize", base)))
        return False
    if nm == "std::optional":
        if kind in ("copy", "move") and A:
            return put(V(0))
        if not A:
            return put(rec(ZERO, {"$has": FALSE}))
        t0 = T_(0)
        if t0.get("tm") == "std::nullopt_t" or t0["s"].endswith("nullopt_t"):
            return put(rec(ZERO, {"$has": FALSE}))
        if t0.get("tm") == "std::optional":
            return put(V(0))
        a = [x for x in A if "in_place" not in deref_t(fr, fr.tu.types[x[2]["t"]])["s"]]
        M.assign(st, loc, ZERO, quiet=True)
        M.assign(st, fld(loc, "$has"), TRUE, quiet=True)
        inner = targ(fr, cls, 0)
        if len(a) == 1:
            conv_into(M, st, fr, fld(loc, "$val"), inner, a[0])
        else:
            make_object(M, st, fr, inner["s"], fld(loc, "$val"), a, 0)
        return True
    if nm in ("std::unique_ptr", "std::shared_ptr"):
        if not A:
            return put(rec(ZERO, {"$p": ZERO}))
        t0 = T_(0)
        if t0.get("tm") in ("std::unique_ptr", "std::shared_ptr"):
            l = as_loc(M, st, A[0])
            p = M.lookup(st, fld(l, "$p"))
            put(rec(ZERO, {"$p": p}))
            if kind == "move" or (t0.get("tm") == "std::unique_ptr"):
                M.assign(st, fld(l, "$p"), ZERO, quiet=True)
            return True
        p = V(0)
        return put(rec(ZERO, {"$p": p}))
    if nm == "std::variant":
        return variant_assign(M, st, fr, loc, cls, A, kind)
    if nm == "std::pair":
        if len(A) == 2:
            return put(rec(ZERO, {"first": V(0), "second": V(1)}))
        if len(A) == 1:
            return put(V(0))
        return False
    if nm == "std::tuple":
        if kind in ("copy", "move") and len(A) == 1:
            return put(V(0))
        return put(rec(ZERO, {f"$t{i}": (M.val(st, a)) for i, a in enumerate(A)}))
    if nm == "std::reference_wrapper":
        if kind in ("copy", "move"):
            return put(V(0))
        if len(A) == 1 and A[0][0] == "l":
            return put(rec(ZERO, {"$r": addr(A[0][1])}))
        return False
    if nm == "std::ranges::subrange":
        if kind in ("copy", "move"):
            return put(V(0))
        if len(A) == 2:
            return put(rec(ZERO, {"$sb": V(0), "$se": V(1)}))
        return False
    if nm in ("std::reverse_iterator",):
        if kind in ("copy", "move"):
            return put(V(0))
        if len(A) == 1:
            return put(rec(ZERO, {"$cur": V(0)}))
        return False
    if nm == "std::_Bit_reference" and A:
        return put(V(0))
    if nm.startswith("std::") and not A:
        return put(ZERO)
    return False


def as_loc(M, st, a):
    if a[0] == "l":
        return a[1]
    t = M.fresh("tmp")
    M.assign(st, t, a[1], quiet=True)
    return t


def copy_seq(M, st, v, es=None, text=False):
    b = fldof(v, "$b")
    n = fldof(v, "$n")
    return seqval(ZERO, new_copy(M, st, b, n, es, text), n)


def new_copy(M, st, b, n=None, es=None, text=False):
    """fresh storage holding a copy of the n elements at b (a snapshot: later writes to the source do not show)"""
    if text and es is None:
        es = 1
    if n is not None and n.op == "int" and 0 <= n.args[0] <= 64 and es:
        h = addr(M.fresh("heap"))
        for i in range(n.args[0]):
            M.assign(st, deref(add(h, I(i * es))), M.load(st, deref(add(b, I(i * es)))), quiet=True)
        if text:
            M.assign(st, deref(add(h, n)), ZERO, quiet=True)
        return h
    M.nfresh += 1
    t = mk("copyof", b, M.nfresh, "text") if text else mk("copyof", b, M.nfresh)
    M.copied[t] = dict(st.store)
    return t


def conv_into(M, st, fr, loc, t, a):
    """construct an object of type t at loc from one argument"""
    v = M.val(st, a)
    at = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t["k"] in ("rec",) and bare_t(fr, at) != bare_t(fr, t):
        nm = t.get("tm", "")
        if nm in ("std::basic_string", "std::basic_string_view", "std::vector") and at.get("tm") in SEQ:
            l = as_loc(M, st, a)
            b, n = seq_b(M, st, fr, at, l), seq_n(M, st, fr, at, l)
            M.assign(st, loc, seqval(ZERO, new_copy(M, st, b, n, text=nm == "std::basic_string") if nm != "std::basic_string_view" else b, n), quiet=True)
            return
        if nm in ("std::basic_string", "std::basic_string_view") and at["k"] == "ptr":
            n = c_strlen(M, st, v)
            M.assign(st, loc, seqval(ZERO, new_copy(M, st, v, n, text=True) if nm == "std::basic_string" else v, n), quiet=True)
            return
        f = resolve_ctor(M, t["s"], fr, [a])
        if f is not None:
            make_object(M, st, fr, t["s"], loc, [a], 0)
            return
    M.assign(st, loc, v, quiet=True)


def transfer(M, st, fr, dst, src, t, move, line=0):
    """copy- or move-construct, at dst, the object of type t at src, running the constructors that matter"""
    if st.dead or not M.has_dtor(fr.tu, t):
        M.assign(st, dst, M.load(st, src), quiet=True)
        return
    tm = t.get("tm", "")
    if tm == "std::variant":
        i = M.lookup(st, fld(src, "$alt"))
        alts = variant_alts(fr, t)
        M.assign(st, dst, M.load(st, src), quiet=True)
        done, rest = [], st
        for j, a in enumerate(alts):
            c = M.dec(rest, eq(i, I(j)))
            if c is FALSE or not M.has_dtor(fr.tu, a):
                continue
            s1 = rest.copy(c)
            transfer(M, s1, fr, fld(dst, alt_field(fr, t, j)), fld(src, alt_field(fr, t, j)), a, move, line)
            done.append(s1)
            if c is TRUE:
                rest = None
                break
            rest = rest.copy(Not(c))
        if done:
            st.set(M.merge(done + ([rest] if rest is not None else [])))
        return
    if tm == "std::unique_ptr":
        M.assign(st, dst, M.load(st, src), quiet=True)
        M.assign(st, fld(src, "$p"), ZERO, quiet=True)
        return
    if tm == "std::vector":
        n, b = M.lookup(st, fld(src, "$n")), M.lookup(st, fld(src, "$b"))
        if move:
            M.assign(st, dst, M.load(st, src), quiet=True)
            M.assign(st, fld(src, "$n"), ZERO, quiet=True)
            return
        if n.op == "int" and n.args[0] <= 16:
            et = fr.tu.types[t["ta"][0]]
            nb = fresh_storage(M)
            for k in range(n.args[0]):
                o = I(k * et.get("sz", 8))
                transfer(M, st, fr, deref(add(nb, o)), deref(add(b, o)), et, False, line)
            M.assign(st, dst, seqval(ZERO, nb, n), quiet=True)
            return
    r = M.prog.records.get(bare_t(fr, t))
    if r and special(M, st, fr, r, "ctor", dst, src, move, line):
        return
    M.note("transfer " + tm)
    M.assign(st, dst, M.load(st, src), quiet=True)


def special(M, st, fr, r, which, dst, src, move, line):
    """the copy or move constructor (assignment) of record r; memberwise when it is the compiler's own"""
    rec_, tu = r
    for want in (("move", "copy") if move else ("copy",)):
        for m in rec_.get("methods", []):
            if m.get(which) != want:
                continue
            f = M.prog.get(tu, m["key"])
            if f is not None and not M.is_opaque(f):
                if M.recursing(f):
                    return False
                M.call_fn(st, f, dst, [src], line)
                return True
            if m.get("dflt"):
                memberwise(M, st, fr, r, which, dst, src, move, line)
                return True
    return False


class _F:
    """just enough of a frame: the types of a translation unit"""
    def __init__(self, tu):
        self.tu = tu


def memberwise(M, st, fr, r, which, dst, src, move, line):
    rec_, tu = r
    fr2 = _F(tu)
    go = transfer if which == "ctor" else assign_object
    own = [b["t"] if isinstance(b, dict) else b for b in rec_.get("bases", [])]
    for b in own:
        br = M.prog.records.get(bare_t(fr2, tu.types[b]))
        if br:
            if not special(M, st, fr2, br, which, dst, src, move, line):
                memberwise(M, st, fr2, br, which, dst, src, move, line)
    for f in rec_.get("fields", []):
        t = tu.types[f["t"]]
        if t["k"] in ("ref", "rref"):
            M.put(st, fld(dst, f["n"]), M.lookup(st, fld(src, f["n"])))
        else:
            go(M, st, fr2, fld(dst, f["n"]), fld(src, f["n"]), t, move, line)


def assign_object(M, st, fr, dst, src, t, move, line=0):
    """*dst = *src for an object of type t, running the operators and destructors that matter"""
    if st.dead:
        return
    if not M.has_dtor(fr.tu, t):
        M.assign(st, dst, M.load(st, src), line)
        return
    tm = t.get("tm", "")
    if tm == "std::unique_ptr":
        et = fr.tu.types[t["ta"][0]]
        p, q = M.lookup(st, fld(dst, "$p")), M.lookup(st, fld(src, "$p"))
        M.assign(st, fld(src, "$p"), ZERO, quiet=True)
        M.assign(st, fld(dst, "$p"), q, line)
        M.delete_ptr(st, p, fr.tu, fr.tu.types[et["to"]] if et["k"] == "array" else et, et["k"] == "array", line)
        return
    if not tm.startswith("std::"):
        r = M.prog.records.get(bare_t(fr, t))
        if r and special(M, st, fr, r, "asg", dst, src, move, line):
            return
    x = M.fresh("tmp")
    transfer(M, st, fr, x, src, t, move, line)
    M.destroy(st, dst, fr.tu, t, line)
    M.assign(st, dst, M.load(st, x), line)


def variant_assign(M, st, fr, loc, cls, A, kind=None, over=False):
    if not A:
        alts = variant_alts(fr, cls)
        M.assign(st, loc, rec(ZERO, {"$alt": ZERO, alt_field(fr, cls, 0): ZERO}), quiet=True)
        return True
    if len(A) == 1:
        t0 = deref_t(fr, fr.tu.types[A[0][2]["t"]])
        if bare_t(fr, t0) == bare_t(fr, cls) or t0.get("tm") == "std::variant":
            if A[0][0] == "l" and M.has_dtor(fr.tu, cls) and bare_t(fr, t0) == bare_t(fr, cls):
                if over:
                    t = M.fresh("tmp")
                    transfer(M, st, fr, t, A[0][1], cls, is_xvalue(A[0][2]))
                    M.destroy(st, loc, fr.tu, cls)
                    M.assign(st, loc, M.load(st, t), quiet=True)
                else:
                    transfer(M, st, fr, loc, A[0][1], cls, kind == "move")
                return True
            M.assign(st, loc, M.val(st, A[0]), quiet=True)
            return True
        i = alt_index(fr, cls, t0)
        if i is None and t0["k"] == "null":
            i = next((j for j, a in enumerate(variant_alts(fr, cls)) if a["k"] == "ptr"), None)
        if i is None:
            # unique convertible alternative
            al = variant_alts(fr, cls)
            cand = [j for j, a in enumerate(al) if a["k"] == t0["k"] == "ptr"]
            if len(cand) == 1:
                i = cand[0]
        if i is not None:
            at = variant_alts(fr, cls)[i]
            if A[0][0] == "l" and M.has_dtor(fr.tu, at) and bare_t(fr, t0) == bare_t(fr, at):
                t = M.fresh("tmp")
                transfer(M, st, fr, t, A[0][1], at, is_xvalue(A[0][2]))
                v = M.load(st, t)
            else:
                v = M.val(st, A[0])
            if over:
                M.destroy(st, loc, fr.tu, cls)
            M.assign(st, loc, ZERO, quiet=True)
            M.assign(st, fld(loc, "$alt"), I(i), quiet=True)
            M.assign(st, fld(loc, alt_field(fr, cls, i)), v, quiet=True)
            return True
        v = M.val(st, A[0])
        M.assign(st, loc, mk("call", "variant::from", v), quiet=True)
        return True
    return False


# ---------------------------------------------------------------------------------------------- calls
def seq_range(M, st, fr, a):
    """(first, last, elemsize) of a range argument, or None"""
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t.get("tm") in SEQ or t.get("tm") in VIEW:
        l = as_loc(M, st, a)
        if t.get("tm") in VIEW and M.lookup(st, fld(l, "$b")).op == "fldof":
            return None
        b, n, es = seq_b(M, st, fr, t, l), seq_n(M, st, fr, t, l), elem_size(fr, t)
        return b, add(b, scale(n, es)), es
    if t["k"] == "array":
        es = fr.tu.types[t["to"]].get("sz", 1)
        b = addr(as_loc(M, st, a))
        return b, add(b, I(es * t.get("n", 0))), es
    if t["k"] == "rec":
        l = as_loc(M, st, a)
        if methods_of(M, bare_t(fr, t), "data") and methods_of(M, bare_t(fr, t), "size"):
            b = call_method(M, st, fr, t, l, "data", [], 0)
            n = call_method(M, st, fr, t, l, "size", [], 0)
            if b is not None and n is not None:
                fnd = methods_of(M, bare_t(fr, t), "data")[0]
                rt = fnd.tu.types[fnd.d["ret"]]
                es = fnd.tu.types[rt["to"]].get("sz", 1) if rt["k"] == "ptr" else 1
                return b, add(b, scale(n, es)), es
    return None


def foreach(M, st, fr, first, last, es, clos, line, fnargs=None):
    pv = M.fresh("var") if False else mk("var", M.fresh("itv").id, 0, "it")
    M.assign(st, pv, first, quiet=True)

    def cond(s):
        return Not(eq(M.lookup(s, pv), last))

    def inc(s):
        M.assign(s, pv, add(M.lookup(s, pv), I(es)), quiet=True)

    def body(s):
        l = deref(M.lookup(s, pv))
        call_with_elem(M, s, fr, clos, l, line)

    M.loop_py(st, fr, cond, inc, body, line)


def call_with_elem(M, s, fr, clos, l, line):
    fns = M.closure_fns(clos)
    if fns:
        f = fns[0]
        p = f.tu.types[f.params[0]["t"]] if f.params else None
        if p is not None and p["k"] not in ("ref", "rref"):
            return M.call_closure(s, clos, None, fr, None, line, argv=[M.load(s, l)])
        return M.call_closure(s, clos, None, fr, None, line, argv=[l])
    return M.call_closure(s, clos, None, fr, None, line, argv=[l])


def body_term(M, st, fr, clos, line, nargs=1):
    """value of the closure on symbolic element(s) (side effects are recorded as events)"""
    s = st.copy()
    fns = M.closure_fns(clos)
    if not fns:
        return clos
    f = fns[0]
    argv = []
    for i, p in enumerate(f.params):
        t = f.tu.types[p["t"]]
        l = mk("obj", f"$elem{i}")
        argv.append(l if t["k"] in ("ref", "rref") else init(l))
    r = M.call_closure(s, clos, None, fr, None, line, argv=argv)
    rt = f.tu.types[f.d["ret"]]
    if rt["k"] in ("ref", "rref"):
        r = M.load(s, r)
    return r


def allocator_call(M, st, fr, f, short, A, line):
    """std::allocator_traits, whatever the allocator"""
    if short == "allocate":
        n = M.val(st, A[1])
        b = fresh_storage(M)
        M.ev("allocate", st, line, obj=b, val=n)
        h = M.hooks.get("allocate")
        if h:
            h(M, st, b, n)
        return b
    if short == "deallocate":
        p, n = M.val(st, A[1]), M.val(st, A[2])
        M.ev("deallocate", st, line, obj=p, val=n)
        h = M.hooks.get("deallocate")
        if h:
            t = deref_t(fr, fr.tu.types[A[1][2]["t"]])
            h(M, st, p, n, fr.tu.types[t["to"]].get("sz", 1) if t["k"] == "ptr" else 1)
        return UNDEF
    if short == "construct":
        t = deref_t(fr, fr.tu.types[A[1][2]["t"]])
        t = fr.tu.types[t["to"]] if t["k"] == "ptr" else None
        if t is None:
            return NONE
        l = deref(M.val(st, A[1]))
        if len(A) == 2:
            if t["k"] == "rec" and make_object(M, st, fr, t["s"], l, [], line):
                return UNDEF
            M.assign(st, l, ZERO, line)
        elif len(A) == 3 and t["k"] != "rec":
            M.assign(st, l, M.val(st, A[2]), line)
        elif len(A) == 3:
            conv_into(M, st, fr, l, t, A[2])
        else:
            make_object(M, st, fr, t["s"], l, A[2:], line)
        return UNDEF
    if short == "destroy":
        t = deref_t(fr, fr.tu.types[A[1][2]["t"]])
        if t["k"] == "ptr":
            M.destroy(st, deref(M.val(st, A[1])), fr.tu, fr.tu.types[t["to"]], line)
            return UNDEF
    if short == "max_size":
        return I((1 << 62) - 1)
    if short == "select_on_container_copy_construction":
        return M.val(st, A[0])
    return NONE


def model(M, st, e, fr, f, name, obj, A, line):
    short = f["s"]

    def V(i):
        return M.val(st, A[i])

    def T_(i):
        return deref_t(fr, fr.tu.types[A[i][2]["t"]])

    def L(i):
        return as_loc(M, st, A[i])

    def ret_ref():
        return fr.tu.types[f["ret"]]["k"] in ("ref", "rref")

    def tmp(v):
        t = M.fresh("tmp")
        M.assign(st, t, v, quiet=True)
        return t

    def outv(v):
        return tmp(v) if ret_ref() else v

    if name.startswith("std::ranges::views::_") and short in ("operator()", "operator|"):
        r = view_adaptor(M, st, fr, f, name, short, obj, A)
        if r is not NONE:
            return r
    if name.startswith("std::allocator_traits::"):
        r = allocator_call(M, st, fr, f, short, A, line)
        if r is not NONE:
            return r
    # ---------------- free functions
    if obj is None:
        if name in ("std::move", "std::forward", "std::as_const", "std::move_if_noexcept") and len(A) == 1:
            return A[0][1] if A[0][0] == "l" else tmp(A[0][1])
        if name in ("std::addressof", "std::__addressof", "__builtin_addressof"):
            if A[0][1].op == "fn":
                return A[0][1]
            return addr(A[0][1])
        if name == "std::to_address" and len(A) == 1:
            t = T_(0)
            if t["k"] == "ptr" or is_ptrlike(fr, t):
                return V(0)
            l = tmp(V(0)) if A[0][0] != "l" else A[0][1]
            r = call_method(M, st, fr, t, l, "operator->", [], line)
            if r is not None:
                return r
        if M.contract and name in CMPS and T_(0)["k"] == T_(1)["k"] == "uint":
            return M.compare_unsigned(CMPS[name], V(0), V(1))
        if name in ("std::cmp_less", "std::ranges::less"):
            return lt(V(0), V(1))
        if name == "std::cmp_less_equal":
            return le(V(0), V(1))
        if name == "std::cmp_greater":
            return lt(V(1), V(0))
        if name == "std::cmp_greater_equal":
            return le(V(1), V(0))
        if name == "std::cmp_equal":
            return eq(V(0), V(1))
        if name == "std::cmp_not_equal":
            return Not(eq(V(0), V(1)))
        if name in ("trunc", "std::trunc", "floor", "std::floor") and len(A) == 1:
            v = V(0)
            if v.op == "fq":
                return mk("fq", div(v.args[0], I(1 << v.args[1])), 0)
        if name in ("std::min", "std::max") and len(A) == 2 and T_(0)["k"] in ("int", "uint"):
            a, b = V(0), V(1)
            v = ite(lt(b, a), b, a) if name == "std::min" else ite(lt(a, b), b, a)
            return outv(v)
        if name == "std::abs" and len(A) == 1:
            return mk("call", "std::abs", V(0))
        if name in ("std::swap", "std::ranges::swap") and len(A) == 2 and A[0][0] == "l":
            a, b = V(0), V(1)
            M.ev("swap", st, line, args=[addr(A[0][1]), addr(A[1][1])])
            M.assign(st, A[0][1], b, line)
            M.assign(st, A[1][1], a, line)
            return UNDEF
        if name == "std::exchange" and A[0][0] == "l":
            a = V(0)
            M.assign(st, A[0][1], V(1), line)
            return a
        if name in ("std::next", "std::prev", "std::ranges::next"):
            n = V(1) if len(A) > 1 else ONE
            if name == "std::prev":
                n = scale(n, -1)
            if is_ptrlike(fr, T_(0)):
                return add(V(0), scale(n, ptr_es(fr, T_(0))))
            l = tmp(V(0))
            if iter_advance(M, st, fr, T_(0), l, n, line):
                return M.load(st, l)
            return mk("call", "std::next", V(0), n)
        if name == "std::advance":
            if is_ptrlike(fr, T_(0)):
                M.assign(st, A[0][1], add(V(0), scale(V(1), ptr_es(fr, T_(0)))), line)
                return UNDEF
            if iter_advance(M, st, fr, T_(0), A[0][1], V(1), line):
                return UNDEF
            return NONE
        if name in ("std::distance", "std::ranges::distance") and len(A) == 2:
            if is_ptrlike(fr, T_(0)):
                return div(sub(V(1), V(0)), I(ptr_es(fr, T_(0))))
            r = iter_distance(M, st, fr, T_(0), L(0), L(1), line)
            if r is not None:
                return r
            return mk("call", "std::distance", V(0), V(1))
        if name in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::data", "std::size", "std::empty", "std::ssize") and len(A) == 1:
            return range_access(M, st, fr, A[0], short, line)
        if name == "std::get" and len(A) == 1:
            return std_get(M, st, fr, f, A[0], ret_ref())
        if name == "std::get_if" and len(A) == 1:
            p = V(0)
            vt = fr.tu.types[T_(0)["to"]] if T_(0)["k"] == "ptr" else None
            i = get_index(M, fr, f, vt)
            if vt is not None and i is not None:
                l = deref(p)
                return ite(eq(M.lookup(st, fld(l, "$alt")), I(i)), addr(fld(l, alt_field(fr, vt, i))), ZERO)
        if name == "std::holds_alternative":
            vt = find_variant_type(M, fr, T_(0))
            i = get_index(M, fr, f, vt)
            if i is not None:
                return eq(M.lookup(st, fld(L(0), "$alt")), I(i))
        if name == "std::to_string" and len(A) == 1 and is_int(V(0)):
            return text_value(M, st, str(V(0).args[0]))
        if name == "std::operator+" and len(A) == 2 and fr.tu.types[f["ret"]].get("tm") == "std::basic_string":
            bs = [arg_bytes(M, st, fr, a) for a in A]
            if None not in bs:
                return text_value(M, st, b"".join(bs).decode("latin1"))
        if name == "std::visit" and len(A) == 2:
            return do_visit(M, st, fr, A[0], A[1], line, ret_ref())
        if name in ("std::make_unique", "std::make_shared"):
            ta = f.get("ta") or []
            t = fr.tu.types[ta[0]] if ta and isinstance(ta[0], int) else None
            if t is not None:
                if t["k"] == "array":
                    h = M.fresh("heap")
                    et = fr.tu.types[t["to"]]
                    M.ev("new", st, line, name=et["s"], obj=addr(h), extra="arr", val=V(0) if A else None)
                    M.assign(st, h, ZERO, quiet=True)
                    return rec(ZERO, {"$p": addr(h)})
                h = M.fresh("heap")
                M.ev("new", st, line, name=t["s"], obj=addr(h))
                if t["k"] == "rec":
                    make_object(M, st, fr, t["s"], h, A, line)
                elif A:
                    M.assign(st, h, V(0), quiet=True)
                return rec(ZERO, {"$p": addr(h)})
        if name == "std::make_pair" and len(A) == 2:
            return rec(ZERO, {"first": V(0), "second": V(1)})
        if name in ("std::make_tuple",):
            return rec(ZERO, {f"$t{i}": M.val(st, a) for i, a in enumerate(A)})
        if name in ("std::forward_as_tuple", "std::tie"):
            return rec(ZERO, {f"$t{i}": addr(a[1]) if a[0] == "l" else a[1] for i, a in enumerate(A)})
        if name in ("std::make_optional",):
            return rec(ZERO, {"$has": TRUE, "$val": V(0)})
        if name in ("std::make_move_iterator", "std::make_reverse_iterator") and len(A) == 1:
            if name == "std::make_move_iterator" and unwrapped(M, st, fr, A[0], line):
                return outv(unwrapped(M, st, fr, A[0], line)[1])
            if name == "std::make_move_iterator":
                return V(0)
            return rec(ZERO, {"$cur": V(0)})
        if name in ("std::for_each",):
            if is_ptrlike(fr, T_(0)):
                foreach(M, st, fr, V(0), V(1), ptr_es(fr, T_(0)), V(2), line)
                return UNDEF
        if name in ("std::all_of", "std::any_of", "std::none_of", "std::find_if", "std::count_if", "std::find_if_not"):
            r = const_range_algo(M, st, fr, name, A, line)
            if r is not None:
                return r
            bt = body_term(M, st, fr, V(2), line)
            return mk("call", name, V(0), V(1), bt)
        if name in ("std::find", "std::count"):
            r = const_range_algo(M, st, fr, name, A, line)
            if r is not None:
                return r
            return mk("call", name, V(0), V(1), V(2))
        if name in ("std::ref", "std::cref") and A[0][0] == "l":
            return rec(ZERO, {"$r": addr(A[0][1])})
        if name == "std::construct_at":
            p = V(0)
            t = fr.tu.types[T_(0)["to"]]
            l = deref(p)
            M.ev("call", st, line, name=name, args=[p] + [M.val(st, a) for a in A[1:]])
            if t["k"] == "rec" and t["s"].startswith("sparrow"):
                make_object(M, st, fr, t["s"], l, A[1:], line)
            elif len(A) > 1:
                M.assign(st, l, V(1), line)
            return p
        if name in ("__builtin_unreachable", "std::unreachable", "std::terminate", "std::abort", "abort", "__builtin_trap"):
            M.ev("abort", st, line, name=name)
            st.dead = True
            return UNDEF
        if name == "std::invoke" and A:
            v = V(0)
            if v.op == "clos":
                return closure_result(M, st, fr, v, [a[1] if a[0] == "l" else tmp(a[1]) for a in A[1:]], line, ret_ref())
            if A[0][0] == "l" or True:
                t = T_(0)
                argv = [a[1] if a[0] == "l" else tmp(a[1]) for a in A[1:]]
                r = call_functor(M, st, fr, t, L(0), argv, line, ret_ref())
                if r is not None:
                    return r
        if name == "std::apply" and len(A) == 2:
            pass
        if name in ("std::operator==", "__gnu_cxx::operator==", "std::operator!=", "__gnu_cxx::operator!=", "std::ranges::operator==", "std::ranges::operator!=") and len(A) == 2:
            neg = short.endswith("!=")
            t0, t1 = T_(0), T_(1)
            r = None
            if t0.get("tm") in ITER or view_iter(t0) or t0.get("tm") in ("std::unique_ptr", "std::shared_ptr") or t1.get("tm") in ("std::unique_ptr", "std::shared_ptr"):
                a = V(0)
                b = V(1)
                a = fldof(a, "$p") if t0.get("tm") in ("std::unique_ptr", "std::shared_ptr") else a
                b = fldof(b, "$p") if t1.get("tm") in ("std::unique_ptr", "std::shared_ptr") else b
                r = eq(a, b)
            elif t0.get("tm") == "std::optional" and t1["s"].endswith("nullopt_t"):
                r = Not(tobool(M.lookup(st, fld(L(0), "$has"))))
            elif t0.get("tm") == t1.get("tm") == "std::allocator":
                r = TRUE
            elif t0.get("tm") in ("std::variant",):
                r = mk("bcall", "eqv", *sorted([V(0), V(1)], key=lambda t: t.id))
            elif t0.get("tm") in ("std::basic_string", "std::basic_string_view", "std::vector"):
                ba = arg_bytes(M, st, fr, A[0])
                bb = arg_bytes(M, st, fr, A[1]) if ba is not None else None
                if ba is not None and bb is not None:
                    r = TRUE if ba == bb else FALSE
                    return Not(r) if neg else r
                ka, kb = seq_key(M, st, fr, A[0]), seq_key(M, st, fr, A[1])
                r = mk("bcall", "seqeq", *sorted([ka, kb], key=lambda t: t.id))
                if ka is kb:
                    r = TRUE
            if r is not None:
                return Not(r) if neg else r
        if name in ("std::operator-", "__gnu_cxx::operator-") and len(A) == 2 and is_ptrlike(fr, T_(0)):
            return div(sub(V(0), V(1)), I(ptr_es(fr, T_(0))))
        if name in ("std::operator<", "__gnu_cxx::operator<") and len(A) == 2 and is_ptrlike(fr, T_(0)):
            return lt(V(0), V(1))
        if name == "__gnu_cxx::operator<=>" or (name == "std::operator<=>" and T_(0).get("tm") in ITER):
            return mk("cmp3", V(0), V(1))
        if name in ("std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "std::operator==") and len(A) == 2 and "ordering" in T_(0)["s"]:
            r = order_test(V(0), short[8:])
            if r is not None:
                return r
        if name == "std::to_underlying":
            return V(0)
        if name in ("std::is_eq", "std::is_lt"):
            pass
        if name in CSTR:
            r = const_string_call(M, st, fr, f, name, short, A)
            if r is not None:
                return r
        if name in ("strlen", "std::strlen", "__builtin_strlen"):
            v = V(0)
            if v.op == "str":
                return I(len(v.args[0].encode()))
            return c_strlen(M, st, v)
        if name in ("std::popcount", "std::countl_zero", "std::countr_zero", "std::bit_cast") :
            if name == "std::popcount":
                return popcount(V(0), 8 * (deref_t(fr, T_(0)).get("sz") or 8))
            return mk("call", name, *[M.val(st, a) for a in A])
        if name in ("std::copy", "std::move", "std::copy_n", "std::uninitialized_copy", "std::uninitialized_copy_n", "std::copy_backward", "std::move_backward",
                    "std::fill", "std::fill_n", "std::uninitialized_fill_n", "std::uninitialized_fill", "std::uninitialized_value_construct_n",
                    "std::uninitialized_move", "memcpy", "std::memcpy", "memmove", "std::memmove", "memset", "std::memset", "std::transform", "std::destroy",
                    "std::destroy_at", "std::destroy_n", "std::rotate", "std::iota"):
            B = [unwrapped(M, st, fr, a, line) or a for a in A]
            r = write_algo(M, st, fr, f, name.split("::")[-1], name, B, line, outv)
            rt = deref_t(fr, fr.tu.types[f["ret"]])
            if rt.get("tm") in WRAPPED and isinstance(r, T) and r.op != "rec":
                # back to the iterator type of the argument it was counted from
                for a, b in zip(A, B):
                    if a is not b and deref_t(fr, fr.tu.types[a[2]["t"]])["s"].replace("const ", "") == rt["s"].replace("const ", ""):
                        l = M.fresh("tmp")
                        M.assign(st, l, M.load(st, a[1]) if a[0] == "l" else a[1], quiet=True)
                        if iter_advance(M, st, fr, rt, l, div(sub(r, b[1]), I(ptr_es(fr, fr.tu.types[b[2]["t"]]))), line):
                            r = M.load(st, l)
                        break
            return r
        if name in ("std::back_inserter",) and A[0][0] == "l":
            t = T_(0)
            return rec(ZERO, {"$bi": addr(A[0][1]), "$es": I(elem_size(fr, t))})
        return NONE

    # ---------------- methods
    ct = fr.tu.types[f["cls"]] if "cls" in f else {}
    tm = ct.get("tm", "")
    if tm in VIEW and short in ("begin", "end", "size", "empty", "cbegin", "cend"):
        r = range_access(M, st, fr, ("l", obj, None), short, line, ct)
        if r is not None:
            return r
    if tm in ITER or tm == "std::_Bit_iterator" or view_iter(ct):
        es = elem_size(fr, ct) if tm != "std::_Bit_iterator" else 1
        cur = M.load(st, obj)
        if view_iter(ct) and short in ("operator*", "operator[]") and not ret_ref():
            return M.load(st, deref(add(cur, scale(V(0), es) if A else ZERO)))
        if short == "operator*":
            return deref(cur)
        if short == "operator->":
            return cur
        if short == "operator[]":
            return deref(add(cur, scale(V(0), es)))
        if short in ("operator++", "operator--"):
            n = add(cur, I(es if short == "operator++" else -es))
            M.assign(st, obj, n, line)
            return cur if A else obj
        if short in ("operator+=", "operator-="):
            M.assign(st, obj, add(cur, scale(V(0), es if short == "operator+=" else -es)), line)
            return obj
        if short == "operator+":
            return add(cur, scale(V(0), es))
        if short == "operator-" and len(A) == 1:
            return sub(cur, scale(V(0), es))
        if short == "base":
            return outv(cur)
        if short == "operator=":
            M.assign(st, obj, V(0), line)
            return obj
    if tm == "std::ranges::view_interface":
        d = targ(fr, ct, 0)
        if isinstance(d, dict) and d.get("tm") in SEQ:
            ct, tm = d, d["tm"]
            es = elem_size(fr, ct)
    if tm in SEQ:
        return seq_method(M, st, e, fr, f, ct, tm, short, obj, A, line, V, T_, L, outv)
    if tm == "std::_Bit_reference":
        cur = M.load(st, obj)
        if short == "operator bool":
            return tobool(M.load(st, deref(cur)))
        if short == "operator=":
            v = V(0)
            if T_(0).get("tm") == "std::_Bit_reference":
                v = M.load(st, deref(v))
            M.assign(st, deref(cur), v, line)
            return obj
    if tm == "std::optional" or (tm.startswith("std::_Optional")):
        has = fld(obj, "$has")
        val = fld(obj, "$val")
        if short in ("has_value", "operator bool", "_M_is_engaged"):
            return tobool(M.lookup(st, has))
        if short == "value":
            M.ev("check", st, line, name="optional::value", val=tobool(M.lookup(st, has)))
            return val
        if short in ("operator*",):
            return val
        if short == "operator->":
            return addr(val)
        if short == "value_or":
            return ite(tobool(M.lookup(st, has)), M.load(st, val), V(0))
        if short == "reset":
            M.assign(st, has, FALSE, line)
            return UNDEF
        if short == "operator=":
            t0 = T_(0)
            if t0["s"].endswith("nullopt_t"):
                M.assign(st, has, FALSE, line)
            elif t0.get("tm") == "std::optional":
                v = V(0)
                inner, inner0 = targ(fr, ct, 0), targ(fr, t0, 0)
                if inner.get("tm") == "std::basic_string" and v.op == "rec" or inner.get("tm") == "std::basic_string":
                    sv = fldof(v, "$val")
                    v = rec(ZERO, {"$has": fldof(v, "$has"), "$val": seqval(ZERO, new_copy(M, st, fldof(sv, "$b"), fldof(sv, "$n"), text=True), fldof(sv, "$n"))})
                M.assign(st, obj, v, line)
            else:
                M.assign(st, has, TRUE, line)
                conv_into(M, st, fr, val, targ(fr, ct, 0), A[0])
            return obj
        if short == "emplace":
            M.assign(st, has, TRUE, line)
            make_object(M, st, fr, targ(fr, ct, 0)["s"], val, A, line)
            return val
    if tm in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
        p = fld(obj, "$p")
        if short == "get":
            return M.lookup(st, p)
        if short == "operator bool":
            return tobool(M.lookup(st, p))
        if short == "operator*":
            return deref(M.lookup(st, p))
        if short == "operator->":
            return M.lookup(st, p)
        if short == "operator[]":
            es = (targ(fr, ct, 0) or {}).get("sz", 8)
            et = targ(fr, ct, 0)
            if et and et["k"] == "array":
                es = fr.tu.types[et["to"]].get("sz", 8)
            return deref(add(M.lookup(st, p), scale(V(0), es)))
        if short == "release":
            v = M.lookup(st, p)
            M.assign(st, p, ZERO, line)
            return v
        if short == "reset":
            old = M.lookup(st, p)
            del_event(M, st, fr, ct, old, line)
            M.assign(st, p, V(0) if A else ZERO, line)
            return UNDEF
        if short == "swap":
            a, b = M.load(st, obj), V(0)
            M.assign(st, obj, b, line)
            M.assign(st, A[0][1], a, line)
            return UNDEF
        if short == "operator=":
            old = M.lookup(st, p)
            del_event(M, st, fr, ct, old, line)
            t0 = T_(0)
            if t0["k"] == "null":
                M.assign(st, p, ZERO, line)
            else:
                l = L(0)
                v = M.lookup(st, fld(l, "$p"))
                if tm == "std::unique_ptr" or (is_xvalue(A[0][2])):
                    M.assign(st, fld(l, "$p"), ZERO, quiet=True)
                M.assign(st, p, v, line)
            return obj
        if short == "get_deleter":
            return fld(obj, "$del")
    if tm == "std::variant":
        if short == "index":
            return M.lookup(st, fld(obj, "$alt"))
        if short == "operator=":
            A2 = A
            t0 = T_(0)
            ok = variant_assign(M, st, fr, obj, ct, A, over=True)
            M.ev("store", st, line, obj=obj, val=M.load(st, obj))
            return obj
        if short == "emplace":
            ta = f.get("ta") or []
            i = ta[0]["v"] if ta and isinstance(ta[0], dict) else alt_index(fr, ct, fr.tu.types[ta[0]]) if ta else None
            if i is not None:
                M.assign(st, obj, ZERO, quiet=True)
                M.assign(st, fld(obj, "$alt"), I(i), line)
                l = fld(obj, alt_field(fr, ct, i))
                at = variant_alts(fr, ct)[i]
                if at["k"] == "rec":
                    make_object(M, st, fr, at["s"], l, A, line)
                elif A:
                    M.assign(st, l, V(0), quiet=True)
                return l
        if short == "swap":
            a, b = M.load(st, obj), V(0)
            M.assign(st, obj, b, line)
            M.assign(st, A[0][1], a, line)
            return UNDEF
    if tm == "std::ranges::subrange" and short in ("begin", "end"):
        if fld(obj, "$sb") in st.store:
            return M.load(st, fld(obj, "$sb" if short == "begin" else "$se"))
        v = M.load(st, obj)
        if v.op == "rec" and "$sb" in dict(v.args[1]):
            return dict(v.args[1])["$sb" if short == "begin" else "$se"]
    if tm == "std::reverse_iterator":
        r = reverse_iter(M, st, fr, ct, short, obj, A, line)
        if r is not NONE:
            return r
    if tm == "std::ranges::subrange" and short in ("begin", "end", "size", "empty"):
        b, n = M.lookup(st, fld(obj, "$b")), M.lookup(st, fld(obj, "$n"))
        if b.op != "fldof":
            return {"begin": b, "end": add(b, n), "size": n, "empty": eq0(n)}[short]
    if tm == "std::reference_wrapper":
        r = M.lookup(st, fld(obj, "$r"))
        if short in ("get", "operator type-parameter-0-0 &") or short.startswith("operator "):
            return deref(r)
        if short == "operator=":
            M.assign(st, obj, V(0), line)
            return obj
    if tm in ("std::pair", "std::tuple") and short == "operator=":
        M.assign(st, obj, V(0), line)
        return obj
    if name.startswith("std::ranges::__cust_access::") and short == "operator()":
        w = {"_Begin": "begin", "_End": "end", "_Size": "size", "_Data": "data", "_Empty": "empty", "_SSize": "size", "_CBegin": "begin", "_CEnd": "end"}.get(name.split("::")[3])
        if w:
            return range_access(M, st, fr, A[0], w, line)
    if name.startswith("std::ranges::__") and short == "operator()":
        fnm = name.split("::")[2].strip("_").replace("_fn", "").replace("__", "")
        return ranges_algo(M, st, e, fr, f, fnm, A, line, V, outv)
    if name == "std::less::operator()" or name == "std::ranges::less::operator()":
        return lt(V(0), V(1))
    if name == "std::equal_to::operator()" or name == "std::ranges::equal_to::operator()":
        return eq(V(0), V(1))
    if tm == "std::allocator_traits" or tm == "std::allocator":
        pass
    return NONE


def order_test(v, op):
    """a comparison category value compared with zero"""
    if v.op == "cmp3":
        a, b = v.args
        return {"<": lt(a, b), ">": lt(b, a), "<=": le(a, b), ">=": le(b, a), "==": eq(a, b)}[op]
    if v.op == "ite":
        x, y = order_test(v.args[1], op), order_test(v.args[2], op)
        return None if x is None or y is None else ite(v.args[0], x, y)
    if v.op == "init":
        v = v.args[0]
    if v.op == "glob":
        n = str(v.args[0]).rsplit("::", 1)[-1]
        ok = {"less": ("<", "<="), "equal": ("<=", ">=", "=="), "equivalent": ("<=", ">=", "=="), "greater": (">", ">=")}.get(n)
        if ok is not None:
            return TRUE if op in ok else FALSE
    return None


def it_of(fr, a):
    """(kind) pointer-like iterator argument?"""
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if is_ptrlike(fr, t):
        return ptr_es(fr, t)
    return None


CPO = {"_Begin": "begin", "_End": "end", "_Size": "size", "_Data": "data", "_Empty": "empty", "_SSize": "size"}


def elem_type(fr, a):
    """element type of a range argument"""
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t.get("tm") in SEQ or t.get("tm") in ITER:
        x = targ(fr, t, 0)
        if isinstance(x, dict) and x.get("k") == "ptr" and t.get("tm") in ITER:
            return fr.tu.types[x["to"]]
        return x if isinstance(x, dict) and "k" in x else None
    if t["k"] in ("ptr", "array"):
        return fr.tu.types[t["to"]]
    return None


def apply_fn(M, st, fr, a, argl, line, et=None):
    """value of calling the function object argument a on element locations argl"""
    v = M.val(st, a)
    if v.op == "clos":
        return closure_result(M, st, fr, v, argl, line, False)
    if v.op == "fn":
        fn = M.prog.by_key.get(v.args[0])
        if fn is not None:
            return invoke_fn(M, st, fr, fn, argl, line, False)
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    w = CPO.get(t["s"].replace("const ", "").split("::")[-1])
    if w and et is not None and len(argl) == 1:
        return range_access(M, st, fr, ("l", argl[0], None), w, line, et)
    if t["k"] == "rec":
        r = call_functor(M, st, fr, t, as_loc(M, st, a), argl, line, False)
        if r is not None:
            return r
    return mk("call", "apply", v, *[M.load(st, x) for x in argl])


def sink(M, st, fr, a):
    """destination of an algorithm: (pointer, element size, finish) or None"""
    v = M.val(st, a)
    es = it_of(fr, a)
    if es is not None:
        return v, es, None
    b = fldof(v, "$bi") if v.op == "rec" else None
    if b is not None and b.op == "addr":
        loc = b.args[0]
        return loc, fldof(v, "$es").args[0], "append"
    return None


def emit(M, st, fr, dst, n, valfn, line):
    p, es, mode = dst
    if mode == "append":
        nl, bl = fld(p, "$n"), fld(p, "$b")
        n0 = M.lookup(st, nl)
        if n.op == "int" and 0 <= n.args[0] <= 16 and n0.op == "int":
            b = M.lookup(st, bl)
            if b is ZERO or (n0 is ZERO and b.op == "mapof"):
                b = fresh_storage(M)
                M.assign(st, bl, b, quiet=True)
            for i in range(n.args[0]):
                v = valfn(st, I(i))
                M.assign(st, deref(add(b, I((n0.args[0] + i) * es))), v, quiet=True)
            M.assign(st, nl, add(n0, n), quiet=True)
            return None
        if n0 is ZERO:
            M.nloop += 1
            ctr = mk("ctr", M.nloop)
            M.assign(st, bl, mk("mapof", es, ctr, valfn(st, ctr)), quiet=True)
        else:
            M.write_range(st, add(M.lookup(st, bl), scale(n0, es)), es, n, valfn, line)
        M.assign(st, nl, add(n0, n), quiet=True)
        return None
    M.write_range(st, p, es, n, valfn, line)
    return add(p, scale(n, es))


def write_algo(M, st, fr, f, short, name, A, line, outv):
    vals = [M.val(st, a) for a in A]
    M.ev("call", st, line, name=name, args=vals, extra=(f, vals, None))
    isvoid = fr.tu.types[f["ret"]]["k"] == "void"

    def done(v):
        if isvoid:
            return UNDEF
        return outv(v if v is not None else mk("call", name, *vals))

    es0 = it_of(fr, A[0]) if A else None
    if short in ("copy", "move", "uninitialized_copy", "uninitialized_move", "transform") and es0 is not None and len(A) >= 3 and it_of(fr, A[1]):
        n = div(sub(vals[1], vals[0]), I(es0))
        d = sink(M, st, fr, A[2])
        if d and (short != "transform" or len(A) == 4):
            def val(s, ctr):
                l = deref(add(vals[0], scale(ctr, es0)))
                return M.load(s, l) if short != "transform" else apply_fn(M, s, fr, A[3], [l], line, elem_type(fr, A[0]))
            return done(emit(M, st, fr, d, n, val, line))
    if short in ("copy_n", "uninitialized_copy_n", "uninitialized_move_n") and es0 is not None:
        d = sink(M, st, fr, A[2])
        if d:
            return done(emit(M, st, fr, d, vals[1], lambda s, ctr: M.load(s, deref(add(vals[0], scale(ctr, es0)))), line))
    if short in ("copy_backward", "move_backward") and es0 is not None and it_of(fr, A[2]):
        n = div(sub(vals[1], vals[0]), I(es0))
        b = sub(vals[2], scale(n, it_of(fr, A[2])))
        M.write_range(st, b, it_of(fr, A[2]), n, lambda s, ctr: M.load(s, deref(add(vals[0], scale(ctr, es0)))), line)
        return done(b)
    if short in ("fill", "uninitialized_fill") and es0 is not None:
        n = div(sub(vals[1], vals[0]), I(es0))
        M.write_range(st, vals[0], es0, n, lambda s, ctr: vals[2], line)
        return done(vals[1])
    if short in ("fill_n", "uninitialized_fill_n", "uninitialized_value_construct_n") and es0 is not None:
        v = vals[2] if len(vals) > 2 else ZERO
        M.write_range(st, vals[0], es0, vals[1], lambda s, ctr: v, line)
        return done(add(vals[0], scale(vals[1], es0)))
    if short in ("memcpy", "memmove"):
        M.write_range(st, vals[0], 1, vals[2], lambda s, ctr: M.load(s, deref(add(vals[1], ctr))), line)
        return done(vals[0])
    if short == "memset":
        M.write_range(st, vals[0], 1, vals[2], lambda s, ctr: vals[1], line)
        return done(vals[0])
    if short in REWRITES:
        lost(M, st, fr, short, A, line)
    return done(None)


def c_strlen(M, st, v):
    if v.op == "str":
        return I(len(v.args[0].encode()))
    b = cbytes(M, st, v, None)
    return I(len(b)) if b is not None else mk("call", "strlen", v)


def cbytes(M, st, b, n, limit=256):
    """the bytes of a constant character sequence (n None: up to the terminating NUL), or None"""
    out = []
    if n is not None and n.op != "int":
        return None
    top = n.args[0] if n is not None else limit
    if top > limit or top < 0:
        return None
    for i in range(top):
        v = M.lookup(st, deref(add(b, I(i))))
        if v.op != "int":
            return None
        c = v.args[0] & 255
        if n is None and c == 0:
            return bytes(out)
        out.append(c)
    return bytes(out) if n is not None else None


def arg_bytes(M, st, fr, a):
    """constant bytes of a string-like argument, or None"""
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t.get("tm") in SEQ:
        l = as_loc(M, st, a)
        return cbytes(M, st, seq_b(M, st, fr, t, l), seq_n(M, st, fr, t, l))
    if t["k"] == "ptr":
        return cbytes(M, st, M.val(st, a), None)
    if t["k"] == "array":
        return cbytes(M, st, M.val(st, a), None) if M.val(st, a).op == "str" else None
    if t["k"] in ("int", "uint", "char") :
        v = M.val(st, a)
        return bytes([v.args[0] & 255]) if v.op == "int" else None
    return None


def c_atoi(b):
    m = re.match(rb"[ \t\n]*[+-]?\d+", b)
    return int(m.group(0)) if m else 0


def const_string_call(M, st, fr, f, name, short, A):
    """calls whose string arguments are constants; None when they are not"""
    if name in ("strlen", "std::strlen", "__builtin_strlen"):
        b = arg_bytes(M, st, fr, A[0])
        return I(len(b)) if b is not None else None
    if name in ("atoi", "std::atoi", "atol", "atoll", "std::stoi", "std::stol", "std::stoll", "std::stoul", "std::stoull") and len(A) <= 3:
        b = arg_bytes(M, st, fr, A[0])
        if b is not None and (name.endswith(("atoi", "atol", "atoll")) or re.match(rb"\s*[+-]?\d", b)):
            return I(c_atoi(b))
        return None
    if name in ("isdigit", "std::isdigit"):
        v = M.val(st, A[0])
        return I(1 if 48 <= v.args[0] <= 57 else 0) if v.op == "int" else None
    if name in ("strcmp", "std::strcmp"):
        a, b = arg_bytes(M, st, fr, A[0]), arg_bytes(M, st, fr, A[1])
        return I((a > b) - (a < b)) if a is not None and b is not None else None
    if name in ("strchr", "std::strchr"):
        a, c = arg_bytes(M, st, fr, A[0]), M.val(st, A[1])
        if a is not None and c.op == "int":
            k = a.find(bytes([c.args[0] & 255]))
            return add(M.val(st, A[0]), I(k)) if k >= 0 else ZERO
        return None
    return None


def const_elems(M, st, fr, A, limit=64):
    """the element locations of a pointer range of constant extent, or None"""
    t0 = fr.tu.types[A[0][2]["t"]]
    if not is_ptrlike(fr, t0):
        return None
    es = ptr_es(fr, t0)
    a, b = M.val(st, A[0]), M.val(st, A[1])
    n = div(sub(b, a), I(es))
    if n.op != "int" or not 0 <= n.args[0] <= limit:
        return None
    return [add(a, I(es * i)) for i in range(n.args[0])], b


def const_range_algo(M, st, fr, name, A, line):
    r = const_elems(M, st, fr, A)
    if r is None:
        return None
    ptrs, end = r
    if name in ("std::find", "std::count"):
        w = M.val(st, A[2])
        cs = [eq(M.load(st, deref(p)), w) for p in ptrs]
    else:
        w = M.val(st, A[2])
        fns = M.closure_fns(w)
        if not fns:
            return None
        cs = [tobool(closure_result(M, st, fr, w, [deref(p)], line, False)) for p in ptrs]
    if name == "std::all_of":
        return And(*cs) if cs else TRUE
    if name == "std::any_of":
        return Or(*cs) if cs else FALSE
    if name == "std::none_of":
        return Not(Or(*cs)) if cs else TRUE
    if name == "std::find_if_not":
        cs = [Not(c) for c in cs]
    if name in ("std::count", "std::count_if"):
        t = ZERO
        for c in cs:
            t = add(t, ite(c, ONE, ZERO))
        return t
    out = end
    for c, p in reversed(list(zip(cs, ptrs))):
        out = ite(c, p, out)
    return out


def seq_key(M, st, fr, a):
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t.get("tm") in SEQ:
        l = as_loc(M, st, a)
        b = seq_b(M, st, fr, t, l)
        while b.op == "copyof":
            b = b.args[0]
        n = seq_n(M, st, fr, t, l)
        if b.op == "str" and n.op == "int":
            return b
        return mk("seq", b, n)
    if t["k"] == "ptr":
        v = M.val(st, a)
        if v.op == "str":
            return v
        return mk("seq", v, c_strlen(M, st, v))
    return M.val(st, a)


def del_event(M, st, fr, ct, p, line):
    c = M.dec(st, Not(eq0(p)))
    if c is FALSE:
        return
    t = targ(fr, ct, 0)
    arr = bool(t and t["k"] == "array")
    M.delete_ptr(st, p, fr.tu, fr.tu.types[t["to"]] if arr else t, arr, line)


def closure_result(M, st, fr, clos, argl, line, want_ref):
    fns = M.closure_fns(clos)
    if not fns:
        return mk("call", "closure", clos, *[M.load(st, a) for a in argl])
    return invoke_fn(M, st, fr, fns[0], argl, line, want_ref, clos=clos)


def invoke_fn(M, st, fr, f, argl, line, want_ref, clos=None, this=None):
    argv = []
    for p, a in zip(f.params, argl):
        t = f.tu.types[p["t"]]
        argv.append(a if t["k"] in ("ref", "rref") else M.load(st, a))
    if clos is not None:
        keys, caps, cthis, tu = M.closures[clos]
        r = M.call_fn(st, f, None, argv, line, caps=caps, capthis=cthis) if not M.recursing(f) else UNDEF
    else:
        r = M.call_fn(st, f, this, argv, line) if not M.recursing(f) else UNDEF
    rt = f.tu.types[f.d["ret"]]
    isref = rt["k"] in ("ref", "rref")
    if isref and not want_ref:
        return M.load(st, r)
    if not isref and want_ref:
        t = M.fresh("tmp")
        M.assign(st, t, r, quiet=True)
        return t
    return r


def call_functor(M, st, fr, t, loc, argl, line, want_ref):
    c = [f for f in methods_of(M, bare_t(fr, t), "operator()") if len(f.params) == len(argl)]
    if len(c) == 1:
        return invoke_fn(M, st, fr, c[0], argl, line, want_ref, this=loc)
    return None


def ptype_matches(M, f, i, s):
    t = deref_t_tu(f.tu, f.tu.types[f.params[i]["t"]])
    n = t["s"]
    if t.get("const") and n.startswith("const "):
        n = n[6:]
    if n.endswith(" const"):
        n = n[:-6]
    return n == s


def do_visit(M, st, fr, fa, va, line, want_ref):
    vt = find_variant_type(M, fr, fr.tu.types[va[2]["t"]])
    if vt is None:
        return NONE
    vl = as_loc(M, st, va)
    alts = variant_alts(fr, vt)
    alt = M.lookup(st, fld(vl, "$alt"))
    fv = M.val(st, fa)
    cands = M.closure_fns(fv)
    this = None
    clos = fv if cands else None
    if not cands:
        ft = deref_t(fr, fr.tu.types[fa[2]["t"]])
        this = as_loc(M, st, fa)
        # all operator() overloads incl. template instantiations
        cands = [f for f in M.prog.all() if f.short == "operator()" and f.d.get("m") and f.tu.types[f.d["cls"]]["s"] == bare_t(fr, ft)]
        if not cands:
            # constrained template operators are reached through their specialisations
            return NONE
    outs = []
    res = []
    for i, a in enumerate(alts):
        c = M.dec(st, eq(alt, I(i)))
        if c is FALSE:
            continue
        s = bare_t(fr, a)
        fs = [f for f in cands if f.params and ptype_matches(M, f, 0, s)]
        if not fs:
            fs = [f for f in cands if f.params and f.tu.types[f.params[0]["t"]]["s"].replace("const ", "").rstrip(" &") == s.replace("const ", "")]
        s1 = st.copy(c)
        if not fs:
            M.note("visit-noalt")
            r = mk("call", "visit?", fv, I(i), M.load(st, fld(vl, alt_field(fr, vt, i))))
            if want_ref:
                r = mk("rloc", r)
        else:
            l = fld(vl, alt_field(fr, vt, i))
            r = invoke_fn(M, s1, fr, fs[0], [l], line, want_ref, clos=clos, this=this)
        if not s1.dead:
            outs.append(s1)
            res.append((c, r))
        if c is TRUE:
            break
    st.set(M.merge(outs))
    if not res:
        return UNDEF
    r = res[-1][1]
    for c, v in reversed(res[:-1]):
        if isinstance(v, T) and isinstance(r, T):
            r = v if v is r else ite(c, v, r)
    return r


def get_index(M, fr, f, vt):
    ta = f.get("ta") or []
    if not ta:
        return None
    a = ta[0]
    if isinstance(a, dict) and "v" in a:
        return a["v"]
    if isinstance(a, int) and vt is not None:
        return alt_index(fr, vt, fr.tu.types[a])
    return None


def std_get(M, st, fr, f, a, ref):
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    vt = find_variant_type(M, fr, t)
    l = as_loc(M, st, a)
    if vt is not None:
        i = get_index(M, fr, f, vt)
        if i is None:
            return NONE
        M.ev("check", st, 0, name="variant::get", val=eq(M.lookup(st, fld(l, "$alt")), I(i)))
        return fld(l, alt_field(fr, vt, i))
    i = get_index(M, fr, f, None)
    if t.get("tm") == "std::pair" and i is not None:
        return fld(l, "first" if i == 0 else "second")
    if t.get("tm") == "std::tuple" and i is not None:
        return fld(l, f"$t{i}")
    if t.get("tm") == "std::array" and i is not None:
        return deref(add(addr(fld(l, "$e")), I(i * elem_size(fr, t))))
    return NONE


def range_access(M, st, fr, a, what, line, t=None):
    t = t or deref_t(fr, fr.tu.types[a[2]["t"]])
    what = {"cbegin": "begin", "cend": "end", "ssize": "size"}.get(what, what)
    if t.get("tm") in SEQ or t["k"] == "array" or (t.get("tm") in VIEW and M.lookup(st, fld(as_loc(M, st, a), "$b")).op != "fldof"):
        l = as_loc(M, st, a)
        if t["k"] == "array":
            es = fr.tu.types[t["to"]].get("sz", 1)
            b, e_ = addr(l), add(addr(l), I(es * t.get("n", 0)))
        else:
            b, es = seq_b(M, st, fr, t, l), elem_size(fr, t)
            e_ = add(b, scale(seq_n(M, st, fr, t, l), es))
        if what in ("begin", "data"):
            return b
        if what == "end":
            return e_
        n = div(sub(e_, b), I(es))
        if t["k"] != "array":
            n = seq_n(M, st, fr, t, as_loc(M, st, a))
        return n if what == "size" else eq0(n)
    l = as_loc(M, st, a)
    if t["k"] == "rec":
        r = call_method(M, st, fr, t, l, what, [], line)
        if r is not None:
            return r
        if what == "size":
            b = call_method(M, st, fr, t, l, "begin", [], line)
            e_ = call_method(M, st, fr, t, l, "end", [], line)
            if b is not None and e_ is not None:
                return mk("call", "range-size", b, e_)
    v = M.load(st, l)
    if v.op == "rec" and dict(v.args[1]).get("$n") is not None:
        d = dict(v.args[1])
        if what == "size":
            return d["$n"]
    return mk("call", "range-" + what, v)


def iter_advance(M, st, fr, t, l, n, line):
    for nm in ("advance", "operator+="):
        c = [f for f in methods_of(M, bare_t(fr, t), nm) if len(f.params) == 1]
        if c and not M.recursing(c[0]):
            p = c[0].tu.types[c[0].params[0]["t"]]
            if p["k"] in ("ref", "rref"):
                tl = M.fresh("tmp")
                M.assign(st, tl, n, quiet=True)
                n = tl
            M.call_fn(st, c[0], l, [n], line)
            return True
    return False


def moved_iter(M, st, fr, t, v, n, line):
    """value of iterator v (of type t) moved by n, or None"""
    if is_ptrlike(fr, t):
        return add(v, scale(n, ptr_es(fr, t)))
    l = M.fresh("tmp")
    M.assign(st, l, v, quiet=True)
    if iter_advance(M, st, fr, t, l, n, line):
        return M.load(st, l)
    one = "operator++" if n is ONE else "operator--" if n is I(-1) else None
    if one and call_method(M, st, fr, t, l, one, [], line) is not None:
        return M.load(st, l)
    return None


def reverse_iter(M, st, fr, ct, short, obj, A, line):
    t = targ(fr, ct, 0)
    cur = fld(obj, "$cur")
    if short == "base":
        return M.load(st, cur)
    if not isinstance(t, dict) or "k" not in t:
        return NONE
    if short in ("operator*", "operator[]", "operator->"):
        n = I(-1) if short != "operator[]" else sub(I(-1), M.val(st, A[0]))
        v = moved_iter(M, st, fr, t, M.load(st, cur), n, line)
        if v is None:
            return NONE
        if is_ptrlike(fr, t):
            return deref(v) if short != "operator->" else v
        l = M.fresh("tmp")
        M.assign(st, l, v, quiet=True)
        r = call_method(M, st, fr, t, l, "operator->" if short == "operator->" else "operator*", [], line)
        return NONE if r is None else r
    if short in ("operator+", "operator-", "operator+=", "operator-=", "operator++", "operator--") and not (short == "operator-" and not A):
        one = short in ("operator++", "operator--")
        n = ONE if one else M.val(st, A[0])
        if short in ("operator+", "operator+=", "operator++"):
            n = scale(n, -1)
        old = M.load(st, cur)
        v = moved_iter(M, st, fr, t, old, n, line)
        if v is None:
            return NONE
        if short in ("operator+", "operator-"):
            return rec(ZERO, {"$cur": v})
        M.assign(st, cur, v, line)
        if one and A:
            return rec(ZERO, {"$cur": old})
        return obj
    return NONE


def iter_distance(M, st, fr, t, a, b, line):
    c = [f for f in methods_of(M, bare_t(fr, t), "distance_to") if len(f.params) == 1]
    if c and not M.recursing(c[0]):
        return M.call_fn(st, c[0], a, [b], line)
    return None


def text_value(M, st, t):
    """a std::string of known text"""
    v = mk("str", t)
    return seqval(ZERO, new_copy(M, st, v, I(len(t)), text=True), I(len(t)))


def materialised(M, st, n, valfn, line=0):
    b = fresh_storage(M)
    M.write_range(st, b, VIEW_STRIDE, n, valfn, line)
    return seqval(ZERO, b, n)


def mapped(M, st, fr, a, fn, line):
    """the elements of a range with a function applied to each"""
    r = seq_range(M, st, fr, a)
    if r is None:
        return None
    n = div(sub(r[1], r[0]), I(r[2]))
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t.get("tm") in SEQ or t.get("tm") in VIEW:
        n = seq_n(M, st, fr, t, as_loc(M, st, a))
    return materialised(M, st, n, lambda s, ctr: apply_fn(M, s, fr, fn, [deref(add(r[0], scale(ctr, r[2])))], line, elem_type(fr, a)), line)


def taken(M, st, fr, a, k, line):
    """the first k elements of a range"""
    r = seq_range(M, st, fr, a)
    if r is None:
        return None
    n = div(sub(r[1], r[0]), I(r[2]))
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if t.get("tm") in SEQ or t.get("tm") in VIEW:
        n = seq_n(M, st, fr, t, as_loc(M, st, a))
    return materialised(M, st, ite(M.dec(st, lt(n, k)), n, k), lambda s, ctr: M.load(s, deref(add(r[0], scale(ctr, r[2])))), line)


REWRITES = {"transform", "copy", "move", "copy_n", "copy_if", "copy_backward", "move_backward", "fill", "fill_n", "generate", "generate_n", "iota", "replace",
            "replace_if", "reverse", "rotate", "sort", "stable_sort", "partition", "remove", "remove_if", "unique", "shift_left", "shift_right", "swap_ranges",
            "uninitialized_copy", "uninitialized_copy_n", "uninitialized_move", "uninitialized_move_n", "uninitialized_fill", "uninitialized_fill_n",
            "partial_sum", "exclusive_scan", "inclusive_scan", "transform_exclusive_scan", "transform_inclusive_scan", "adjacent_difference", "merge",
            "set_union", "set_intersection", "set_difference", "reverse_copy", "rotate_copy", "replace_copy", "replace_copy_if", "unique_copy", "remove_copy",
            "remove_copy_if", "uninitialized_default_construct_n", "uninitialized_value_construct", "uninitialized_default_construct", "nth_element", "partial_sort"}


def lost(M, st, fr, name, A, line):
    """an algorithm that writes what is not known: any element from where it may write is unknown"""
    for a in A:
        t = deref_t(fr, fr.tu.types[a[2]["t"]])
        es, b = it_of(fr, a), None
        if es is not None and not (t["k"] == "ptr" and fr.tu.types[t["to"]].get("const")):
            b = M.val(st, a)
        elif a[0] == "l" and es is None and t.get("tm") in SEQ and not t.get("const"):
            r = seq_range(M, st, fr, a)
            b, es = (r[0], r[2]) if r else (None, 1)
        if b is not None and b.op != "unk":
            M.nloop += 1
            u = mk("unk", name, M.nloop)
            M.write_range(st, b, es, u, lambda s, ctr: u, line)


def joined_view(M, st, fr, a, line):
    """the elements of the elements of a short range"""
    r, et = seq_range(M, st, fr, a), elem_type(fr, a)
    t = deref_t(fr, fr.tu.types[a[2]["t"]])
    if et is None and t.get("tm") == VIEW[0] and isinstance(targ(fr, t, 1), dict):
        c = methods_of(M, bare_t(fr, targ(fr, t, 1)), "operator()")
        if c:
            fr = M.frame_for(c[0])
            et = c[0].tu.types[c[0].d["ret"]]
    if r is None or et is None or et.get("tm") not in SEQ:
        return None
    n = div(sub(r[1], r[0]), I(r[2]))
    if n.op != "int" or not 0 <= n.args[0] <= 16:
        return None
    b, total, es = fresh_storage(M), ZERO, elem_size(fr, et)
    for i in range(n.args[0]):
        l = deref(add(r[0], I(i * r[2])))
        p, k = seq_b(M, st, fr, et, l), seq_n(M, st, fr, et, l)
        M.write_range(st, add(b, scale(total, VIEW_STRIDE)), VIEW_STRIDE, k, lambda s, ctr: M.load(s, deref(add(p, scale(ctr, es)))), line)
        total = add(total, k)
    return seqval(ZERO, b, total)


def view_adaptor(M, st, fr, f, name, short, obj, A):
    rt = fr.tu.types[f["ret"]].get("tm")
    if short == "operator()":
        if len(A) == 1 and "_Partial<std::ranges::views::_Take, " in fr.tu.types[f["ret"]]["s"]:
            return rec(ZERO, {"$take": M.val(st, A[0])})
        if "_RangeAdaptor<" in name or name.split("::")[4].startswith("_RangeAdaptor"):
            ab = arg_bytes(M, st, fr, A[-1])
            if ab is not None:
                return mk("call", "views::partial", mk("str", ab.decode("latin1")))
        if len(A) == 2 and rt == VIEW[0]:
            r = mapped(M, st, fr, A[0], A[1], 0)
            return r if r is not None else NONE
        if len(A) == 1 and rt == VIEW[2]:
            r = joined_view(M, st, fr, A[0], 0)
            return r if r is not None else NONE
        if len(A) == 2 and rt == VIEW[3]:
            r = taken(M, st, fr, A[0], M.val(st, A[1]), 0)
            return r if r is not None else NONE
        if len(A) == 1 and rt == "std::ranges::views::__adaptor::_Partial":
            if M.val(st, A[0]).op == "clos":
                return rec(ZERO, {"$map": M.val(st, A[0])})
        return NONE
    if len(A) == 2 and rt == VIEW[0]:
        p = M.val(st, A[1])
        c = dict(p.args[1]).get("$map") if p.op == "rec" else None
        if c is not None:
            r = mapped(M, st, fr, A[0], ("v", c, A[1][2]), 0)
            if r is not None:
                return r
    if len(A) == 2 and rt == VIEW[3]:
        p = M.val(st, A[1])
        c = dict(p.args[1]).get("$take") if p.op == "rec" else None
        if c is not None:
            r = taken(M, st, fr, A[0], c, 0)
            if r is not None:
                return r
    if len(A) == 2 and rt == "std::ranges::split_view":
        b = M.val(st, A[1])
        if b.op == "call" and b.args and b.args[-1].op == "str":
            return mk("splitv", M.val(st, A[0]), b.args[-1])
    return NONE


def split_pieces(M, st, v):
    """[(base, size)] of a split view over a constant string"""
    sq, dl = v.args[0], v.args[1]
    b, n = fldof(sq, "$b"), fldof(sq, "$n")
    d = dl.args[0].encode()
    whole = cbytes(M, st, b, n)
    if whole is None:
        return None
    out, pos = [], 0
    if not whole:
        return []
    for part in whole.split(d):
        out.append((add(b, I(pos)), I(len(part))))
        pos += len(part) + len(d)
    return out


def ranges_algo(M, st, e, fr, f, fnm, A, line, V, outv):
    if fnm == "for_each" and len(A) >= 2 and V(0).op == "splitv" and V(1).op == "clos":
        ps = split_pieces(M, st, V(0))
        if ps is not None:
            for b, n in ps:
                t = M.fresh("tmp")
                M.assign(st, t, seqval(ZERO, b, n), quiet=True)
                call_with_elem(M, st, fr, V(1), t, line)
            return mk("call", "ranges::for_each")
    clos_i = next((i for i, a in enumerate(A) if M.val(st, a).op == "clos"), None)
    if fnm == "for_each" and clos_i is not None:
        if clos_i == 1:
            r = seq_range(M, st, fr, A[0])
            if r:
                foreach(M, st, fr, r[0], r[1], r[2], V(1), line)
                return mk("call", "ranges::for_each")
        elif clos_i == 2 and is_ptrlike(fr, fr.tu.types[A[0][2]["t"]]):
            foreach(M, st, fr, V(0), V(1), ptr_es(fr, fr.tu.types[A[0][2]["t"]]), V(2), line)
            return mk("call", "ranges::for_each")
    if fnm in ("transform", "copy", "move") and len(A) >= 2:
        r = seq_range(M, st, fr, A[0])
        k = 1
        if r is None and it_of(fr, A[0]) is not None and len(A) > 2 and it_of(fr, A[1]) is not None:
            r = (V(0), V(1), it_of(fr, A[0]))
            k = 2
        d = None
        if r and len(A) > k:
            d = sink(M, st, fr, A[k]) or sink(M, st, fr, unwrapped(M, st, fr, A[k], line) or A[k])
        if r and d and (fnm != "transform" or len(A) > k + 1):
            first, es0 = r[0], r[2]
            vals = [M.val(st, a) for a in A]
            M.ev("call", st, line, name="std::ranges::" + fnm, args=vals, extra=(f, vals, None))

            def val(s, ctr):
                l = deref(add(first, scale(ctr, es0)))
                return M.load(s, l) if fnm != "transform" else apply_fn(M, s, fr, A[k + 1], [l], line, elem_type(fr, A[0]))
            n = div(sub(r[1], first), I(es0))
            emit(M, st, fr, d, n, val, line)
            return outv(mk("call", "std::ranges::" + fnm, *vals))
    vals = []
    for i, a in enumerate(A):
        v = M.val(st, a)
        if v.op == "clos":
            v = body_term(M, st, fr, v, line)
        elif i == 0 and len(A) >= 1:
            r = seq_range(M, st, fr, a) if a[0] == "l" else None
            if r:
                v = mk("range", r[0], r[1])
        vals.append(v)
    M.ev("call", st, line, name="std::ranges::" + fnm, args=vals, extra=(f, vals, None))
    if fnm in REWRITES:
        lost(M, st, fr, fnm, A, line)
    if fnm in ("size", "distance") and vals[0].op == "range":
        r = seq_range(M, st, fr, A[0])
        return div(sub(r[1], r[0]), I(r[2]))
    return outv(mk("call", "std::ranges::" + fnm, *vals))


def seq_method(M, st, e, fr, f, ct, tm, short, obj, A, line, V, T_, L, outv):
    es = elem_size(fr, ct)
    if short in ("begin", "cbegin", "data", "c_str", "end", "cend", "size", "length", "empty", "operator[]", "at", "front", "back", "ssize",
                 "size_bytes", "operator basic_string_view"):
        b, n = seq_b(M, st, fr, ct, obj), seq_n(M, st, fr, ct, obj)
        if short in ("begin", "cbegin", "data", "c_str"):
            return b
        if short in ("end", "cend"):
            return add(b, scale(n, es))
        if short in ("size", "length", "ssize"):
            return n
        if short == "size_bytes":
            return scale(n, es)
        if short == "empty":
            return eq0(n)
        if short == "operator[]" or short == "at":
            i = V(0)
            if short == "at":
                M.ev("check", st, line, name="at", val=lt(i, n))
            return bitref(fr, f, deref(add(b, scale(i, es))), M, st)
        if short == "front":
            return bitref(fr, f, deref(b), M, st)
        if short == "back":
            return bitref(fr, f, deref(add(b, scale(add(n, I(-1)), es))), M, st)
        if short.startswith("operator basic_string_view"):
            return seqval(ZERO, b, n)
    nl = fld(obj, "$n")
    bl = fld(obj, "$b")
    if short == "operator std::basic_string_view" or (short.startswith("operator") and "string_view" in short):
        return seqval(ZERO, M.lookup(st, bl), M.lookup(st, nl))
    if short in ("rbegin", "rend", "crbegin", "crend"):
        b, n = seq_b(M, st, fr, ct, obj), seq_n(M, st, fr, ct, obj)
        return rec(ZERO, {"$cur": add(b, scale(n, es)) if "begin" in short else b})
    if tm == "std::basic_string" and short in ("operator+=", "append", "push_back", "pop_back") and len(A) <= 1:
        x = cbytes(M, st, M.lookup(st, bl), M.lookup(st, nl))
        y = arg_bytes(M, st, fr, A[0]) if A else b""
        if x is not None and y is not None:
            M.assign(st, obj, text_value(M, st, (x + y if A else x[:-1]).decode("latin1")), line)
            return obj
    if short in ("push_back", "emplace_back"):
        b, n = M.lookup(st, bl), M.lookup(st, nl)
        if b is ZERO:
            b = fresh_storage(M)
            M.assign(st, bl, b, quiet=True)
        l = deref(add(b, scale(n, es)))
        t = targ(fr, ct, 0)
        vals = [M.val(st, a) for a in A]
        M.ev("call", st, line, name=f"{tm}::{short}", obj=addr(obj), args=vals, extra=(f, vals, A))
        if len(A) == 1 and bare_t(fr, fr.tu.types[A[0][2]["t"]]) == bare_t(fr, t):
            if A[0][0] == "l":
                transfer(M, st, fr, l, A[0][1], t, is_xvalue(A[0][2]), line)
            else:
                M.assign(st, l, vals[0], quiet=True)
        elif t["k"] == "rec" and t.get("tm", "").startswith("sparrow"):
            make_object(M, st, fr, t["s"], l, A, line)
        elif len(A) == 1:
            conv_into(M, st, fr, l, t, A[0])
        else:
            M.assign(st, l, mk("call", t["s"] + "::ctor", *vals), quiet=True)
        M.assign(st, nl, add(n, ONE), quiet=True)
        return l if short == "emplace_back" else UNDEF
    if short == "pop_back":
        M.ev("call", st, line, name=f"{tm}::{short}", obj=addr(obj), args=[])
        M.assign(st, nl, add(M.lookup(st, nl), I(-1)), quiet=True)
        return UNDEF
    if short == "clear":
        M.ev("call", st, line, name=f"{tm}::clear", obj=addr(obj), args=[])
        M.assign(st, nl, ZERO, quiet=True)
        return UNDEF
    if short in ("reserve", "shrink_to_fit"):
        for a in A:
            M.val(st, a)
        return UNDEF
    if short == "resize":
        vals = [M.val(st, a) for a in A]
        M.ev("call", st, line, name=f"{tm}::resize", obj=addr(obj), args=vals, extra=(f, vals, None))
        n0 = M.lookup(st, nl)
        if n0.op == "int" and vals[0].op == "int" and n0.args[0] < vals[0].args[0] <= n0.args[0] + 8:
            b = M.lookup(st, bl)
            if b is ZERO:
                b = fresh_storage(M)
                M.assign(st, bl, b, quiet=True)
            for i in range(n0.args[0], vals[0].args[0]):
                M.assign(st, deref(add(b, I(i * es))), vals[1] if len(vals) > 1 else ZERO, quiet=True)
        elif targ(fr, ct, 0) and targ(fr, ct, 0)["k"] != "rec" and M.lookup(st, bl) is not ZERO:
            v = vals[1] if len(vals) > 1 else ZERO
            M.write_range(st, add(M.lookup(st, bl), scale(n0, es)), es, sub(vals[0], n0), lambda s_, i: v)
        elif tm == "std::vector" and vals[0].op != "int":
            M.assign(st, bl, mk("call", "vector::resize", M.lookup(st, bl), vals[0]), quiet=True)   # elements that are not modelled
        M.assign(st, nl, vals[0], quiet=True)
        return UNDEF
    if short == "assign" and tm == "std::vector" and len(A) == 2 and T_(0)["k"] in ("int", "uint") and targ(fr, ct, 0)["k"] != "rec":
        vals = [M.val(st, a) for a in A]
        M.ev("call", st, line, name=f"{tm}::assign", obj=addr(obj), args=vals, extra=(f, vals, None))
        b = M.lookup(st, bl)
        if b is ZERO:
            b = fresh_storage(M)
            M.assign(st, bl, b, quiet=True)
        M.write_range(st, b, es, vals[0], lambda s_, i: vals[1])
        M.assign(st, nl, vals[0], quiet=True)
        return UNDEF
    if short == "swap":
        a, b = M.load(st, obj), V(0)
        M.assign(st, obj, b, line)
        M.assign(st, A[0][1], a, line)
        return UNDEF
    if short == "operator=":
        t0 = T_(0)
        if tm == "std::array":
            M.assign(st, obj, V(0), line)
            return obj
        if t0.get("tm") in SEQ:
            l = L(0)
            v = M.load(st, l)
            mv = f.get("asg") == "move"
            b, n = seq_b(M, st, fr, t0, l), seq_n(M, st, fr, t0, l)
            if tm in ("std::vector", "std::basic_string") and not mv:
                v = seqval(ZERO, new_copy(M, st, b, n, es, tm == "std::basic_string"), n)
            M.assign(st, obj, v, line)
            if mv and A[0][0] == "l" and tm == "std::vector":
                M.assign(st, fld(A[0][1], "$n"), ZERO, quiet=True)
            return obj
        if t0["k"] == "ptr":
            v = V(0)
            n = c_strlen(M, st, v)
            M.assign(st, obj, seqval(ZERO, new_copy(M, st, v, n, text=True), n), line)
            return obj
        M.assign(st, obj, V(0), line)
        return obj
    if short == "erase" and tm == "std::vector":
        vals = [M.val(st, a) for a in A]
        n = M.lookup(st, nl)
        M.ev("call", st, line, name=f"{tm}::erase", obj=addr(obj), args=vals, extra=(f, vals, None))
        d = ONE if len(vals) == 1 else div(sub(vals[1], vals[0]), I(es))
        old = M.load(st, obj)
        M.assign(st, obj, mk("call", "vector::erase", old, *vals), quiet=True)
        M.assign(st, nl, sub(n, d), quiet=True)
        return vals[0]
    if short in ("insert", "emplace") and tm == "std::vector":
        vals = [M.val(st, a) for a in A]
        n = M.lookup(st, nl)
        M.ev("call", st, line, name=f"{tm}::insert", obj=addr(obj), args=vals, extra=(f, vals, None))
        old = M.load(st, obj)
        M.assign(st, obj, mk("call", "vector::insert", old, *vals), quiet=True)
        if len(vals) == 2 or short == "emplace":
            M.assign(st, nl, add(n, ONE), quiet=True)
        elif len(vals) == 3 and T_(1)["k"] in ("int", "uint"):
            M.assign(st, nl, add(n, vals[1]), quiet=True)
        elif len(vals) == 3 and is_ptrlike(fr, T_(1)):
            M.assign(st, nl, add(n, div(sub(vals[2], vals[1]), I(es))), quiet=True)
        return vals[0]
    if tm == "std::basic_string_view" or tm == "std::basic_string":
        if short == "substr" or short == "subspan":
            b, n = M.lookup(st, bl), M.lookup(st, nl)
            p = V(0) if A else ZERO
            if len(A) > 1:
                c = V(1)
                rest = sub(n, p)
                ln = c if False else (rest if (c.op == "int" and c.args[0] < 0) else minmax("min", c, rest))
            else:
                ln = sub(n, p)
            return seqval(ZERO, add(b, p), ln)
        if short == "remove_prefix":
            k = V(0)
            M.assign(st, bl, add(M.lookup(st, bl), k), line)
            M.assign(st, nl, sub(M.lookup(st, nl), k), line)
            return UNDEF
        if short in ("starts_with", "ends_with", "find", "compare", "find_first_of", "rfind", "contains"):
            ks = []
            for a in A:
                t = deref_t(fr, fr.tu.types[a[2]["t"]])
                ks.append(seq_key(M, st, fr, a) if (t.get("tm") in SEQ or t["k"] == "ptr") else M.val(st, a))
            b, n = M.lookup(st, bl), M.lookup(st, nl)
            cb = cbytes(M, st, b, n)
            if cb is not None and len(A) == 1:
                ab = arg_bytes(M, st, fr, A[0])
                if ab is not None:
                    if short == "starts_with":
                        return TRUE if cb.startswith(ab) else FALSE
                    if short == "ends_with":
                        return TRUE if cb.endswith(ab) else FALSE
                    if short == "contains":
                        return TRUE if ab in cb else FALSE
                    if short == "compare":
                        return I((cb > ab) - (cb < ab))
                    k = cb.find(ab) if short == "find" else cb.rfind(ab) if short == "rfind" else None
                    if k is not None:
                        return I(k if k >= 0 else (1 << 64) - 1)
            return mk("call", short, mk("seq", b, n), *ks)
    if tm == "std::span" and short in ("subspan", "first", "last"):
        b, n = M.lookup(st, bl), M.lookup(st, nl)
        if short == "subspan":
            p = V(0)
            ln = V(1) if len(A) > 1 else sub(n, p)
            return seqval(ZERO, add(b, scale(p, es)), ln)
        if short == "first":
            return seqval(ZERO, b, V(0))
    return NONE


def bitref(fr, f, loc, M, st):
    rt = fr.tu.types[f["ret"]]
    if rt.get("tm") == "std::_Bit_reference":
        return addr(loc)
    if rt["k"] == "bool":
        return tobool(M.load(st, loc))
    return loc
