"""Interprocedural gated-value-graph construction over the exported (resolved) program.

One function is abstractly evaluated on symbolic inputs: every scalar gets a value-numbered term (affine
normal form, gated joins), every side effect becomes an event carrying its path condition and loop context.
Repository callees are inlined (so helper extraction does not matter), standard-library callees are modelled,
anything else stays an uninterpreted term.
"""
import json
import sys
from .terms import *

sys.setrecursionlimit(20000)


class Fn:
    __slots__ = ("d", "tu", "key", "name", "short", "cls", "params", "body", "inits", "file", "line")

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d["key"]
        self.name = d["n"]
        self.short = d["s"]
        self.params = d["params"]
        self.body = d["body"]
        self.inits = d.get("inits")
        self.file = d["file"]
        self.line = d["line"]

    def __repr__(self):
        return f"{self.name}@{self.file.split('/')[-1]}:{self.line}"

    @property
    def where(self):
        return f"{relpath(self.file)}:{self.line}"


def relpath(f):
    for m in ("/include/sparrow/", "/src/", "/tool/", "/witness/"):
        i = f.find(m)
        if i >= 0:
            return f[i + 1:]
    return f


class TU:
    def __init__(self, path, idx):
        d = json.load(open(path))
        self.idx = idx
        self.types = d["types"]
        self.records = d["records"]
        self.globals = d["globals"]
        self.enums = d["enums"]
        self.errors = d["errors"]
        self.funcs = [Fn(f, self) for f in d["funcs"]]


class Program:
    def __init__(self, paths):
        self.tus = [TU(p, i) for i, p in enumerate(paths)]
        self.by_key = {}
        self.local = {}
        self.records = {}
        self.enums = {}
        for tu in self.tus:
            for f in tu.funcs:
                if f.key.startswith("@"):
                    self.local[(tu.idx, f.key)] = f
                elif f.key not in self.by_key:
                    self.by_key[f.key] = f
            for k, r in tu.records.items():
                o = self.records.get(k)
                if o is None or (len(r.get("methods", [])) > len(o[0].get("methods", []))):
                    self.records[k] = (r, tu)
            self.enums.update(tu.enums)
        self.base_names = set()
        for r, tu in self.records.values():
            for b in r.get("bases", []):
                c = tu.types[b["t"] if isinstance(b, dict) else b]["s"]
                if c.startswith("sparrow::"):
                    self.base_names.add(c)
        self.by_name = {}
        for f in self.all():
            self.by_name.setdefault(f.name, []).append(f)
        self.by_cls = {}
        for f in self.all():
            if f.d.get("m") and "cls" in f.d:
                self.by_cls.setdefault((f.tu.types[f.d["cls"]]["s"], f.short), []).append(f)

    def all(self):
        for f in self.by_key.values():
            yield f
        for f in self.local.values():
            yield f

    def get(self, tu, key):
        if key.startswith("@"):
            return self.local.get((tu.idx, key))
        return self.by_key.get(key)

    def find(self, name, **kw):
        """functions by qualified name (template args of the class stripped for matching when given bare)"""
        out = []
        for f in self.all():
            if f.name == name or strip_targs(f.name) == name:
                if all(f.d.get(k, False) == v for k, v in kw.items()):
                    out.append(f)
        return out


def strip_targs(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            if s[:i].endswith("operator") or s[:i].endswith("operator<") or s[:i].endswith("operator<="):
                if d == 0:
                    out.append(c)
                    i += 1
                    continue
            d += 1
        elif c == ">" and not (i and s[i - 1] == "-"):
            if d == 0:
                out.append(c)
            else:
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


class State:
    __slots__ = ("store", "pc", "dead")

    def __init__(self, store=None, pc=(), dead=False):
        self.store = store if store is not None else {}
        self.pc = pc
        self.dead = dead

    def copy(self, lit=None):
        s = State(dict(self.store), self.pc, self.dead)
        if lit is not None and lit is not TRUE:
            if lit.op == "and":
                s.pc = s.pc + tuple(lit.args)
            else:
                s.pc = s.pc + (lit,)
        return s

    def set(self, o):
        self.store, self.pc, self.dead = o.store, o.pc, o.dead


class Event:
    __slots__ = ("kind", "pc", "loops", "line", "fn", "name", "obj", "args", "val", "extra", "idx", "stack", "trys")

    def __init__(self, **k):
        for s in Event.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        b = f"[{self.kind}] {self.name or ''}"
        if self.obj is not None:
            b += f" obj={self.obj}"
        if self.args:
            b += " args=" + ", ".join(show(a) if isinstance(a, T) else str(a) for a in self.args)
        if self.val is not None:
            b += f" val={self.val}"
        if self.pc:
            b += "  IF " + " && ".join(show(p) for p in self.pc)
        if self.loops:
            b += "  LOOPS " + ",".join(f"L{l.id}(trip={l.trip})" for l in self.loops)
        return b + f"  @{relpath(self.fn.file)}:{self.line}" if self.fn else b


class Loop:
    def __init__(self, i):
        self.id = i
        self.trip = None
        self.ctr = mk("ctr", i)
        self.defs = {}
        self.line = 0
        self.fn = None
        self.early = False
        self.conds = None


class Frame:
    _n = [0]

    def __init__(self, fn, tu, this=None, parent=None):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.fn = fn
        self.tu = tu
        self.this = this  # location
        self.env = {}
        self.rets = []
        self.brk = []
        self.cont = []
        self.scope = []
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0


class Limit(Exception):
    pass


def bare_s(s):
    return s[6:] if s.startswith("const ") else s


ACC = {"fwd", }

PASS = {"std::move", "std::forward", "std::as_const", "std::move_if_noexcept", "std::launder", "std::to_address"}

CONTAINERS = {"std::vector", "std::basic_string", "std::basic_string_view", "std::span", "std::array",
              "std::initializer_list"}

PURE_PREFIX = ("std::", "__builtin", "date::", "numeric::", "operator")


class Machine:
    def __init__(self, prog, opaque=(), opaque_pred=None, max_depth=60, max_steps=400000, no_assert_pc=False,
                 track_stores=True):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.steps = 0
        self.events = []
        self.loops = []
        self.trys = []
        self.closures = {}
        self.unknown = {}
        self.nfresh = 0
        self.nloop = 0
        self.loop_keys = {}
        from . import decide as D
        D.LOOPS.clear()
        self.frames = []
        self.called = {}
        self.inlined = set()
        self.loc_types = {}
        self.probing = 0
        self.hooks = {}
        self.copied = {}
        self.inits_seen = set()
        self.max_rec = 0
        self.dyn = {}
        self.dyn_classes = set()
        self.contract = False     # evaluating the condition of a contract assertion
        self.unroll = 0
        self.destroying = set()   # class templates whose destruction matters ("" : none)
        self.inert = set()
        self._dmemo = {}
        self.live_tmps = []
        self.wrote = set()        # locations stored to in the current iteration of the innermost loop
        self.frozen = None        # (var roots, fresh mark) while writes to existing objects are recorded
        self.unsure = 0

    # ------------------------------------------------------------ utils
    def fresh(self, kind):
        self.nfresh += 1
        return mk(kind, self.nfresh)

    def ev(self, kind, st, line=0, **k):
        if st.dead:
            return None
        e = Event(kind=kind, pc=st.pc, loops=tuple(self.loops), line=line, fn=self.frames[-1].fn if self.frames else None,
                  idx=len(self.events), stack=tuple((f.fn.name if f.fn else "?") for f in self.frames), trys=tuple(self.trys), **k)
        self.events.append(e)
        return e

    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def ty(self, fr, e_or_idx):
        i = e_or_idx["t"] if isinstance(e_or_idx, dict) else e_or_idx
        return fr.tu.types[i]

    def deref_type(self, fr, t):
        while t["k"] in ("ref", "rref"):
            t = fr.tu.types[t["to"]]
        return t

    # ------------------------------------------------------------ store
    def lookup(self, st, loc):
        if loc.op == "ite":
            return ite(self.dec(st, loc.args[0]), self.lookup(st, loc.args[1]), self.lookup(st, loc.args[2]))
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc.op == "all":
            return self.lookup(st, loc.args[1])
        return self.inherited(st, loc)

    def inherited(self, st, loc):
        # nearest ancestor with an entry
        if loc.op == "fld":
            p = loc.args[0]
            if p.op == "ite":
                return ite(p.args[0], self.lookup(st, fld(p.args[1], loc.args[1])), self.lookup(st, fld(p.args[2], loc.args[1])))
            b = st.store.get(p)
            if b is None:
                if p.op == "fld" or p.op == "ite":
                    b = self.inherited(st, p)
                elif p.op == "deref":
                    b = self.inherited(st, p)
                else:
                    b = init(p)
            return self.norm_init(fldof(b, loc.args[1]))
        if loc.op == "deref":
            c, p = lin_parts(loc.args[0])
            # character of a string literal
            if len(p) == 1 and is_int(I(c)):
                (t, k), = p.items()
                if t.op == "str" and k == 1:
                    b = t.args[0].encode()
                    if 0 <= c <= len(b):
                        return I(b[c]) if c < len(b) else ZERO
            # a cell at one of two addresses
            sp = split_base(loc)
            if sp:
                return ite(sp[0], self.lookup(st, sp[1]), self.lookup(st, sp[2]))
            ie = inline_elems(loc.args[0])
            if ie is not None:
                v = self.inline_elem(st, loc, ie)
                if v is not None:
                    return v
            v = self.elem_lookup(st, loc)
            if v is not None:
                return v
            v = self.copied_elem(st, loc)
            if v is not None:
                return v
        if loc.op == "heap" and any(k.op == "all" for k in st.store):
            # the first element of a storage, of which ranges were written
            v = self.elem_lookup(st, mk("deref", addr(loc)))
            if v is not None:
                return subst(v, {init(mk("deref", addr(loc))): init(loc)})
        return init(loc)

    def inline_elem(self, st, loc, ie):
        """element of an inline array at a non-constant index: a gated choice over the elements written so far"""
        base, c, rest = ie
        ks = [k for k in st.store if k.op == "fld" and k.args[0] is base and k.args[1].startswith("#")]
        if len(ks) > 300:
            return None
        b = st.store.get(base)
        if b is None:
            b = self.inherited(st, base)
        v = ZERO if b is ZERO else init(loc)
        idx = lin(c, rest)
        for k in ks:
            g = self.dec(st, eq0(sub(idx, I(int(k.args[1][1:])))))
            if g is TRUE:
                return st.store[k]
            if g is not FALSE:
                v = ite(g, st.store[k], v)
        return v

    def elem_lookup(self, st, loc):
        """value of an element, from the cells and ranges of the same storage written at positions not known to differ"""
        cells = [(k, c) for k, c in near_cells(st, loc)]
        alls = [k for k in st.store if k.op == "all"]
        if not cells and not alls:
            return None
        hit = []
        for k, d in cells:
            g = self.dec(st, eq0(d))
            if g is TRUE:
                return chosen(hit, st.store[k])
            if g is not FALSE:
                hit.append((g, st.store[k]))
        for k in reversed(alls):
            lid, pat, trip = k.args
            ctr = mk("ctr", lid)
            if pat.op != "deref":
                continue
            idx = match_index(pat.args[0], loc.args[0], ctr)
            if idx is None:
                continue
            inr = And(Not(lt0(idx)), lt(idx, trip))
            inr = self.dec(st, inr)
            if inr is FALSE:
                continue
            v = subst(st.store[k], {ctr: idx})
            if inr is TRUE:
                return chosen(hit, v)
            hit.append((inr, v))
        if not hit:
            return None
        return chosen(hit, self.older(st, loc))

    def older(self, st, loc):
        """what an element holds when nothing written through positions applies"""
        v = self.copied_elem(st, loc)
        return init(loc) if v is None else v

    def copied_elem(self, st, loc):
        c, p = lin_parts(loc.args[0])
        for t in p:
            if t.op == "mapof" and p[t] == 1:
                q = dict(p)
                del q[t]
                es, ctr, templ = t.args
                return subst(templ, {ctr: div(lin(c, q), I(es))})
        # element of a copied storage reads the source element while untouched
        for t in p:
            if t.op == "copyof" and p[t] == 1:
                q = dict(p)
                del q[t]
                src = deref(add(t.args[0], lin(c, q)))
                snap = self.copied.get(t)
                if snap is not None:
                    return self.lookup(State(snap), src)
                return self.lookup(st, src)
        return None

    def check_frozen(self, st, loc, line, val):
        """records a write to an object that existed when the law froze the state"""
        vs, mark = self.frozen
        r = root(loc)
        if r.op == "deref":
            for x in subterms(r.args[0]):
                if x.op in ("heap", "tmp") and x.args[0] > mark or x.op in ("var", "cap") and x not in vs or x.op == "copyof" and x.args[1] > mark:
                    return
            if r.args[0].op in ("unk", "undef"):
                return
        elif r.op in ("heap", "tmp"):
            if r.args[0] > mark:
                return
        elif r.op in ("var", "cap", "retloc", "obj"):
            if r not in vs or r.op == "obj" and str(r.args[0]).startswith("$g"):
                return
        self.ev("fwrite", st, line or 0, obj=loc, val=val, extra=bool(self.unsure))

    def write_all(self, st, lid, pat, trip, v):
        """elements pat[ctr], 0 <= ctr < trip, receive v[ctr]"""
        sp = split_base(pat)
        if sp:
            g = self.dec(st, sp[0])
            ctr = mk("ctr", lid)
            for w, l in ((True, sp[1]), (False, sp[2])):
                if g is (FALSE if w else TRUE):
                    continue
                m = {sp[0]: TRUE if w else FALSE}
                l = subst(l, m)
                self.nloop += 1
                ctr2 = mk("ctr", self.nloop)
                nv = subst(v, {**m, ctr: ctr2})
                l = subst(l, {ctr: ctr2})
                if g not in (TRUE, FALSE):
                    ov = self.lookup(st, l)
                    nv = ite(g, nv, ov) if w else ite(g, ov, nv)
                self.write_all(st, self.nloop, l, subst(trip, m), nv)
            return
        if self.frozen is not None:
            self.check_frozen(st, pat, 0, v)
        ctr = mk("ctr", lid)
        for k in list(st.store):
            r = root(k)
            if r.op in ("deref", "heap") and r is not pat and pat.op == "deref":
                idx = match_index(pat.args[0], r.args[0] if r.op == "deref" else addr(r), ctr)
                if idx is None or k.op == "all":
                    continue
                inr = self.dec(st, And(Not(lt0(idx)), lt(idx, trip)))
                if inr is FALSE:
                    continue
                if k is not r:
                    # field entries under the element
                    path = []
                    x = k
                    while x is not r:
                        path.append(x.args[1])
                        x = x.args[0]
                    nv = subst(v, {ctr: idx})
                    for f in reversed(path):
                        nv = fldof(nv, f)
                else:
                    nv = subst(v, {ctr: idx})
                st.store[k] = ite(inr, nv, st.store[k])
                self.wrote.add(k)
        st.store[mk("all", lid, pat, trip)] = v

    def write_range(self, st, out, es, n, valfn, line=0):
        """standard algorithms writing n elements of size es from out; valfn(state, ctr) gives the element value"""
        if n.op == "int" and 0 <= n.args[0] <= 16:
            vs = [valfn(st, I(i)) for i in range(n.args[0])]
            for i, v in enumerate(vs):
                self.assign(st, deref(add(out, I(i * es))), v, line)
            return
        self.nloop += 1
        ctr = mk("ctr", self.nloop)
        v = valfn(st, ctr)
        self.write_all(st, self.nloop, deref(add(out, scale(ctr, es))), n, v)

    def norm_init(self, v):
        # variant<X*, X>: the pointer alternative of an untouched variant designates the same abstract object
        if v.op == "init" and v.args[0].op == "fld" and v.args[0].args[1] == "$vp":
            return addr(fld(v.args[0].args[0], "$obj"))
        return v

    def load(self, st, loc):
        """value of the object at loc (scalar or whole record)"""
        if loc.op == "ite":
            return ite(self.dec(st, loc.args[0]), self.load(st, loc.args[1]), self.load(st, loc.args[2]))
        subs = [k for k in st.store if k.op == "fld" and self.under(k, loc)]
        base = self.lookup(st, loc)
        if not subs:
            return base
        return self.build(st, loc, base, subs)

    def build(self, st, loc, base, subs):
        d = {}
        for k in subs:
            path = []
            x = k
            while x is not loc:
                path.append(x.args[1])
                x = x.args[0]
            d.setdefault(path[-1], []).append(k)
        fields = {}
        for f, ks in d.items():
            fl = fld(loc, f)
            deeper = [k for k in ks if k is not fl]
            b = st.store.get(fl)
            if b is None:
                b = self.norm_init(fldof(base, f))
            fields[f] = self.build(st, fl, b, deeper) if deeper else b
        fields = {f: v for f, v in fields.items() if fldof(base, f) is not v}
        return rec(base, fields)

    def under(self, k, loc):
        x = k
        while x.op == "fld":
            x = x.args[0]
            if x is loc:
                return True
        return False

    def assign(self, st, loc, val, line=0, quiet=False):
        if st.dead:
            return
        if loc.op == "deref":
            sp = split_base(loc)
            if sp:
                loc = mk("ite", *sp)
        if loc.op == "ite":
            c = self.dec(st, loc.args[0])
            if c is TRUE:
                return self.assign(st, loc.args[1], val, line, quiet)
            if c is FALSE:
                return self.assign(st, loc.args[2], val, line, quiet)
            a, b = loc.args[1], loc.args[2]
            va = self.load(st, a)
            if not quiet:
                self.ev("store", st, line, obj=loc, val=val)
            self.assign(st, a, ite(c, val, va), line, True)
            self.assign(st, b, ite(c, self.load(st, b), val), line, True)
            return
        if not quiet:
            self.ev("store", st, line, obj=loc, val=val)
        if self.frozen is not None:
            self.check_frozen(st, loc, line, val)
        for k in [k for k in st.store if k.op == "fld" and self.under(k, loc)]:
            del st.store[k]
        if loc.op == "deref" or loc.op in FRESH:
            self.alias(st, loc, val)
        self.put(st, loc, val)

    def alias(self, st, loc, val):
        """cells of the same storage at positions not known to differ receive the value where the positions agree"""
        for k, d in near_cells(st, loc):
            g = self.dec(st, eq0(d))
            if g is not FALSE:
                st.store[k] = ite(g, val, st.store[k])

    def put(self, st, loc, val):
        if val.op == "rec":
            st.store[loc] = val.args[0]
            self.wrote.add(loc)
            for f, v in val.args[1]:
                self.put(st, fld(loc, f), v)
        else:
            st.store[loc] = val
            self.wrote.add(loc)

    # ------------------------------------------------------------ path facts
    def dec(self, st, c):
        return decide(c, st.pc)

    def dec_ite(self, st, v):
        """v with the choices the path settles made"""
        if v.op != "ite":
            return v
        c = self.dec(st, v.args[0])
        if c is TRUE:
            return self.dec_ite(st, v.args[1])
        if c is FALSE:
            return self.dec_ite(st, v.args[2])
        return ite(c, self.dec_ite(st, v.args[1]), self.dec_ite(st, v.args[2]))

    # ------------------------------------------------------------ merge
    def merge(self, states):
        ss = [s for s in states if s is not None and not s.dead]
        if not ss:
            return State({}, (), True)
        r = ss[0]
        for s in ss[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        pre = a.pc[:n]
        ra, rb = a.pc[n:], b.pc[n:]
        ca, cb = And(*ra), And(*rb)
        if Not(ca) is cb:
            sel = ca
            pc = pre
        else:
            if ra and rb and Not(ra[0]) is rb[0]:
                sel = ra[0]
            elif ra:
                sel = ca
            else:
                sel = Not(cb) if rb else TRUE
            o = Or(ca, cb)
            pc = pre + ((o,) if o is not TRUE else ())
        st = State({}, pc)
        A, B = a.store, b.store
        out = {}
        for k, v in A.items():
            w = B.get(k)
            if w is None:
                w = self.lookup(b, k)
            out[k] = v if v is w else joined(sel, v, w, pre)
        for k, w in B.items():
            if k not in A:
                v = self.lookup(a, k)
                out[k] = v if v is w else joined(sel, v, w, pre)
        st.store = out
        return st

    # ------------------------------------------------------------ destruction
    def has_dtor(self, tu, t):
        """does destroying an object of type t run a destructor that matters (machine.destroying)?"""
        if not self.destroying or t is None or t["k"] != "rec" and t["k"] != "array":
            return False
        if t["k"] == "array":
            return False
        if t.get("triv"):
            return False
        k = bare_s(t["s"])
        if k in self._dmemo:
            return self._dmemo[k]
        self._dmemo[k] = False
        tm = t.get("tm", "")
        r = False
        if tm in self.inert:
            r = False
        elif tm in self.destroying:
            r = True
        elif tm in ("std::vector", "std::optional", "std::variant", "std::pair", "std::tuple"):
            r = any(isinstance(a, int) and self.has_dtor(tu, tu.types[a]) for a in t.get("ta", []))
        elif not tm.startswith("std::"):
            o = self.prog.records.get(k)
            if o:
                r = any(self.has_dtor(o[1], o[1].types[f["t"]]) for f in o[0].get("fields", []))
                r = r or any(self.has_dtor(o[1], o[1].types[b["t"] if isinstance(b, dict) else b]) for b in o[0].get("bases", []))
        self._dmemo[k] = r
        return r

    def destroy(self, st, loc, tu, t, line=0, base=False):
        if st.dead or not self.has_dtor(tu, t):
            return
        if loc.op == "ite":
            c = self.dec(st, loc.args[0])
            if c is TRUE or c is FALSE:
                return self.destroy(st, loc.args[1 if c is TRUE else 2], tu, t, line)
            s1, s2 = st.copy(c), st.copy(Not(c))
            self.destroy(s1, loc.args[1], tu, t, line)
            self.destroy(s2, loc.args[2], tu, t, line)
            st.set(self.merge([s1, s2]))
            return
        from . import stdmodel as S
        tm = t.get("tm", "")
        if tm == "std::vector":
            n, b = self.lookup(st, fld(loc, "$n")), self.lookup(st, fld(loc, "$b"))
            et = tu.types[t["ta"][0]]
            if n.op == "ite" and n.args[1].op == "int" and n.args[2].op == "int":
                c = n.args[0]
                s1, s2 = st.copy(c), st.copy(Not(c))
                for s_, m_ in ((s1, n.args[1]), (s2, n.args[2])):
                    for i in range(m_.args[0]):
                        self.destroy(s_, deref(add(b, I(i * et.get("sz", 8)))), tu, et, line)
                st.set(self.merge([s1, s2]))
                return
            if n.op != "int" or n.args[0] > 16:
                self.note("destroy vector")
                return
            for i in range(n.args[0]):
                self.destroy(st, deref(add(b, I(i * et.get("sz", 8)))), tu, et, line)
            return
        if tm == "std::optional":
            c = self.dec(st, tobool(self.lookup(st, fld(loc, "$has"))))
            if c is FALSE:
                return
            s1 = st.copy(c)
            self.destroy(s1, fld(loc, "$val"), tu, tu.types[t["ta"][0]], line)
            if c is TRUE:
                st.set(s1)
            else:
                st.set(self.merge([s1, st.copy(Not(c))]))
            return
        if tm == "std::variant":
            i = self.lookup(st, fld(loc, "$alt"))
            done, rest = [], st
            for j, a in enumerate(t["ta"]):
                if not isinstance(a, int) or not self.has_dtor(tu, tu.types[a]):
                    continue
                c = self.dec(rest, eq(i, I(j)))
                if c is FALSE:
                    continue
                s1 = rest.copy(c)
                self.destroy(s1, fld(loc, f"$v{j}"), tu, tu.types[a], line)
                done.append(s1)
                if c is TRUE:
                    rest = None
                    break
                rest = rest.copy(Not(c))
            if done:
                st.set(self.merge(done + ([rest] if rest is not None else [])))
            return
        if tm == "std::unique_ptr":
            et = tu.types[t["ta"][0]]
            arr = et["k"] == "array"
            if arr:
                et = tu.types[et["to"]]
            p = self.lookup(st, fld(loc, "$p"))
            self.delete_ptr(st, p, tu, et, arr, line)
            return
        if tm.startswith("std::"):
            self.note("destroy " + tm)
            return
        o = self.prog.records.get(bare_s(t["s"]))
        if not o:
            self.note("destroy? " + tm)
            return
        r, rtu = o
        for m in r.get("methods", []):
            if m.get("dtor") and not m.get("dflt") and not m.get("impl"):
                fn = self.prog.get(rtu, m["key"])
                if fn is not None and fn.body and not self.recursing(fn):
                    self.call_fn(st, fn, loc, [], line)
                else:
                    self.note("dtor body " + tm)
        for f in reversed(r.get("fields", [])):
            self.destroy(st, fld(loc, f["n"]), rtu, rtu.types[f["t"]], line)
        for b in reversed(r.get("bases", [])):
            self.destroy(st, loc, rtu, rtu.types[b["t"] if isinstance(b, dict) else b], line)

    def delete_ptr(self, st, p, tu, t, arr, line):
        """destroys and frees what p designates (nothing when null)"""
        if st.dead:
            return
        c = self.dec(st, tobool(p))
        if c is FALSE:
            return
        s1 = st.copy(c) if c is not TRUE else st
        if p.op == "ite" and self.destroying:
            a, b = s1.copy(p.args[0]), s1.copy(Not(p.args[0]))
            self.delete_ptr(a, p.args[1], tu, t, arr, line)
            self.delete_ptr(b, p.args[2], tu, t, arr, line)
            s1.set(self.merge([a, b]))
        else:
            l = deref(p)
            tt = t
            if l in self.dyn and not arr:
                d = self.dyn[l]
                for k, (r, rtu) in self.prog.records.items():
                    if k == d:
                        tt = {"k": "rec", "s": d, "tm": r.get("tm", d), "triv": False}
            if not arr:
                self.destroy(s1, l, tu, tt, line)
            self.ev("delete", s1, line, name=t["s"] if t else "?", obj=p, extra="arr" if arr else None)
            h = self.hooks.get("delete")
            if h and not s1.dead:
                h(self, s1, p)
        if c is not TRUE:
            st.set(self.merge([s1, st.copy(Not(c))]))

    def end_scope(self, st, sc):
        for loc, tu, t in reversed(sc):
            self.destroy(st, loc, tu, t)

    def end_tmps(self, st, mark):
        ts = self.live_tmps[mark:]
        del self.live_tmps[mark:]
        if st.dead:
            return
        for loc, tu, t in reversed(ts):
            if any(root(k) is loc for k in st.store):
                self.destroy(st, loc, tu, t)

    # ------------------------------------------------------------ calls of repository functions
    def run(self, fn, this=None, args=None, pc=(), store=None):
        """Entry point: evaluate fn on symbolic inputs. Returns (state, return value or location)."""
        st = State(dict(store or {}), tuple(pc))
        if this is None and fn.d.get("m") and not fn.d.get("static"):
            this = mk("obj", "this")
        argv = []
        for i, p in enumerate(fn.params):
            t = fn.tu.types[p["t"]]
            if args and i < len(args) and args[i] is not None:
                argv.append(args[i])
                continue
            nm = p["n"] or f"arg{i}"
            if t["k"] in ("ref", "rref"):
                argv.append(mk("obj", nm))
            elif t["k"] == "ptr":
                argv.append(init(mk("obj", "$" + nm)))
            else:
                v = init(mk("obj", "$" + nm))
                if t["k"] == "uint":
                    NONNEG.add(v)
                argv.append(v)
        r = self.call_fn(st, fn, this, argv, 0, entry=True)
        self.final = st
        self.ret = r
        return st, r

    def call_fn(self, st, fn, this, argv, line, entry=False, caps=None, capthis=None):
        """argv: locations for reference parameters, values otherwise"""
        if st.dead:
            return UNDEF
        if self.dyn_classes and not entry:
            for i, p in enumerate(fn.params):
                t = fn.tu.types[p["t"]]
                if t["k"] not in ("ref", "rref") or bare_s(fn.tu.types[t["to"]]["s"]) not in self.dyn_classes:
                    continue
                a = argv[i]
                if a.op == "ite":
                    c = self.dec(st, a.args[0])
                    if c is TRUE or c is FALSE:
                        return self.call_fn(st, fn, this, argv[:i] + [a.args[1 if c is TRUE else 2]] + argv[i + 1:], line, entry, caps, capthis)
                    s1, s2 = st.copy(c), st.copy(Not(c))
                    v1 = self.call_fn(s1, fn, this, argv[:i] + [a.args[1]] + argv[i + 1:], line, entry, caps, capthis)
                    v2 = self.call_fn(s2, fn, this, argv[:i] + [a.args[2]] + argv[i + 1:], line, entry, caps, capthis)
                    st.set(self.merge([s1, s2]))
                    if s1.dead or s2.dead:
                        return v2 if s1.dead else v1
                    return ite(c, v1, v2)
                if a not in self.dyn and fn.name.startswith("sparrow::visit"):
                    # an object whose class is unknown: nothing is known about the result
                    self.note("unknown class:" + fn.name[:40])
                    return self.fresh("unk")
        parent = self.frames[-1] if self.frames else None
        fr = Frame(fn, fn.tu, this, parent)
        self.called[fn] = self.called.get(fn, 0) + 1
        if fr.depth > self.max_depth:
            raise Limit("depth")
        self.inlined.add(fn.key if not fn.key.startswith("@") else (fn.tu.idx, fn.key))
        if caps:
            fr.env.update(caps)
        if capthis is not None:
            fr.this = capthis
        for p, a in zip(fn.params, argv):
            t = fn.tu.types[p["t"]]
            if t["k"] in ("ref", "rref"):
                fr.env[p["id"]] = a
            else:
                loc = mk("var", fr.id, p["id"], p["n"] or f"p{p['id']}")
                self.assign(st, loc, a, quiet=True)
                fr.env[p["id"]] = loc
                if self.destroying and self.has_dtor(fn.tu, t):
                    fr.scope.append((loc, fn.tu, t))
        self.frames.append(fr)
        mark = self.nfresh
        saved_loops = self.loops
        try:
            if fn.inits is not None:
                self.ctor_inits(st, fn, fr)
            end = self.exec(st, fn.body, fr) if fn.body else st
            if fr.scope and not st.dead:
                self.end_scope(st, fr.scope)
            rt = fn.tu.types[fn.d["ret"]]
            outs = [s for s, _ in fr.rets]
            RET = mk("retloc", fr.id)
            for s, v in fr.rets:
                s.store[RET] = v if v is not None else ZERO
            if not st.dead:
                st2 = State(st.store, st.pc)
                st2.store[RET] = UNDEF if outs else ZERO
                outs.append(st2)
            # returns inside loops: keep them as alternatives
            m = self.merge(outs)
            if m.dead:
                st.dead = True
                return UNDEF
            r = m.store.pop(RET, UNDEF)
            st.set(m)
        finally:
            self.frames.pop()
            self.loops = saved_loops
        if not entry:
            # prune locals and temporaries of the finished frame
            keep = set()
            if r is not None and isinstance(r, T):
                for x in subterms(r):
                    if x.op in ("tmp", "var"):
                        keep.add(x)
            for k in list(st.store):
                ro = root(k)
                if (ro.op == "var" and ro.args[0] == fr.id or ro.op == "tmp" and ro.args[0] > mark) and ro not in keep:
                    del st.store[k]
        return r

    def ctor_inits(self, st, fn, fr):
        this = fr.this
        if fn.d.get("triv") and fn.d.get("ctor") in ("copy", "move") and fn.params:
            src = fr.env.get(fn.params[0]["id"])
            if src is not None and not fn.inits:
                self.assign(st, this, self.load(st, src), quiet=True)
                return
        for i in fn.inits:
            if "f" in i:
                t = fr.tu.types[i["ft"]]
                loc = fld(this, i["f"])
                if t["k"] in ("ref", "rref"):
                    l = self.eval(st, i["e"], fr)
                    self.put(st, loc, addr(l))
                else:
                    self.init_into(st, loc, i["e"], fr)
                    self.ev("init", st, i.get("l", 0), obj=loc, val=self.load(st, loc))
            elif "base" in i or i.get("deleg"):
                self.init_into(st, this, i["e"], fr, base=True)

    # ------------------------------------------------------------ initialisation of an object from an expression
    def frame_for(self, fn):
        """a frame to evaluate the default arguments of fn in"""
        return Frame(fn, fn.tu, None, self.frames[-1] if self.frames else None)

    def init_into(self, st, loc, e, fr, base=False):
        if e is None or st.dead:
            return
        k = e["k"]
        if k == "ctor":
            return self.construct(st, loc, e, fr, base)
        if k == "ilist":
            t = self.ty(fr, e)
            if t["k"] in ("rec", "lambda"):
                names = e.get("fn") or []
                if not base:
                    self.assign(st, loc, ZERO, quiet=True)
                fns = []
                for n, x in zip(names, e["a"]):
                    if n.startswith("$base:"):
                        self.init_into(st, loc, x, fr, True)
                        if (v := self.lookup(st, loc)).op == "clos":
                            fns.append(v)
                    else:
                        self.init_field(st, fld(loc, "$e" if t.get("tm") == "std::array" else n), x, fr)
                if len(fns) > 1:   # a set of overloaded functors
                    uid = self.fresh("clos")
                    cs = [self.closures[v] for v in fns]
                    caps = {}
                    for c in cs:
                        caps.update(c[1])
                    self.closures[uid] = ([k for c in cs for k in c[0]], caps, next((c[2] for c in cs if c[2] is not None), None), cs[0][3])
                    self.assign(st, loc, uid, quiet=True)
                return
            if t["k"] == "array":
                self.assign(st, loc, ZERO, quiet=True)
                sz = fr.tu.types[t["to"]].get("sz", 1)
                for i, x in enumerate(e["a"]):
                    self.init_into(st, deref(add(addr(loc), I(i * sz))), x, fr)
                return
            if len(e["a"]) == 1:
                return self.init_into(st, loc, e["a"][0], fr)
            if not e["a"]:
                self.assign(st, loc, ZERO, quiet=True)
                return
        if k == "cast" and e["ck"] in ("NoOp", "ConstructorConversion", "UserDefinedConversion") and not e.get("g"):
            return self.init_into(st, loc, e["e"], fr, base)
        if k == "mat":
            return self.init_into(st, loc, e["e"], fr, base)
        if k == "cond" and self.ty(fr, e)["k"] == "rec" and not e.get("g"):
            c = self.dec(st, tobool(self.rv(st, e["c"], fr)))
            if c is TRUE:
                return self.init_into(st, loc, e["a"], fr, base)
            if c is FALSE:
                return self.init_into(st, loc, e["b"], fr, base)
            s1, s2 = st.copy(c), st.copy(Not(c))
            self.init_into(s1, loc, e["a"], fr, base)
            self.init_into(s2, loc, e["b"], fr, base)
            st.set(self.merge([s1, s2]))
            return
        if e.get("g"):
            v = self.load(st, self.eval(st, e, fr))
        else:
            v = self.eval(st, e, fr)
        if base and v is ZERO:
            return
        self.assign(st, loc, v, quiet=True)

    def init_field(self, st, loc, x, fr):
        if x is None:
            return
        if x.get("g") and x["k"] not in ("ctor",):
            # reference member
            self.put(st, loc, addr(self.eval(st, x, fr)))
        else:
            self.init_into(st, loc, x, fr)

    def construct(self, st, loc, e, fr, base=False):
        f = e["f"]
        cls = fr.tu.types[f["cls"]]
        args = e["a"]
        if e.get("inh"):
            # inherited constructor: forward the enclosing constructor's parameters
            fn = self.prog.get(fr.tu, f["key"])
            argv = [fr.env[p["id"]] if fr.tu.types[p["t"]]["k"] in ("ref", "rref") else self.load(st, fr.env[p["id"]]) for p in fr.fn.params]
            if fn is not None:
                self.call_ctor(st, fn, loc, argv, e.get("l", 0), fr, base)
            else:
                from . import stdmodel
                A = [("l" if isloc(v) else "v", v, {"k": "ref", "g": isloc(v), "t": p["t"], "l": 0}) for v, p in zip(argv, fr.fn.params)]
                if not stdmodel.ctor(self, st, loc, f, cls, A, e, fr):
                    self.assign(st, loc, mk("call", f["n"], *[self.load(st, a) if isloc(a) else a for a in argv]), quiet=True)
            return
        if e.get("el") and len(args) == 1:
            a = args[0]
            if not a.get("g") or a["k"] == "mat":
                return self.init_into(st, loc, a, fr, base)
        if f.get("ctor") in ("copy", "move") and (f.get("triv") or (f.get("dflt") and self.prog.get(fr.tu, f["key"]) is None)):
            src = self.eval(st, args[0], fr)
            if not f.get("triv") and args[0].get("g") and self.has_dtor(fr.tu, cls) and not cls.get("tm", "").startswith("std::") and self.prog.records.get(bare_s(cls["s"])):
                from . import stdmodel as S
                S.memberwise(self, st, fr, self.prog.records[bare_s(cls["s"])], "ctor", loc, src, f["ctor"] == "move", e.get("l", 0))
                return
            if args[0].get("g") and cls.get("tm") in ("std::variant", "std::optional", "std::vector") and self.has_dtor(fr.tu, cls):
                from . import stdmodel as S
                S.transfer(self, st, fr, loc, src, cls, f["ctor"] == "move", e.get("l", 0))
                return
            if base and args[0].get("g") and self.base_class(fr, f):
                from . import stdmodel as S
                S.memberwise(self, st, fr, self.base_class(fr, f), "ctor", loc, src, f["ctor"] == "move", e.get("l", 0))
                return
            v = self.load(st, src) if args[0].get("g") else src
            if f["ctor"] == "move" and not f.get("triv"):
                v = self.copy_std(st, cls, v, src, True)
            self.put_over(st, loc, v, base)
            if f["ctor"] == "move" and not f.get("triv") and args[0].get("g"):
                self.moved_from(st, src, cls, fr)
            return
        fn = self.prog.get(fr.tu, f["key"])
        if fn is not None and not self.is_opaque(fn):
            pv = self.bind(st, fn, args, fr)
            self.call_ctor(st, fn, loc, pv, e.get("l", 0), fr, base)
            return
        if f.get("ctor") == "default" and (f.get("triv") or f.get("dflt")) and not f["n"].startswith("std::"):
            if e.get("zero") or e.get("li"):
                self.assign(st, loc, ZERO, quiet=True)
            return
        self.std_ctor(st, loc, f, cls, args, e, fr)

    def base_class(self, fr, f):
        """the record of the class of a member function if other classes derive from it: copying it copies its own members only"""
        c = fr.tu.types[f["cls"]]["s"] if "cls" in f else None
        return self.prog.records.get(c) if c in self.prog.base_names else None

    def put_over(self, st, loc, v, base):
        if base:
            self.put(st, loc, v) if v.op == "rec" else self.assign(st, loc, v, quiet=True)
        else:
            self.assign(st, loc, v, quiet=True)

    def copy_std(self, st, cls, v, src, move):
        return v

    def moved_from(self, st, src, cls, fr):
        if src.op == "ite":
            return
        tm = cls.get("tm", "")
        if tm in ("std::unique_ptr", "std::shared_ptr"):
            self.assign(st, fld(src, "$p"), ZERO, quiet=True)
        elif tm == "std::vector":
            self.assign(st, fld(src, "$n"), ZERO, quiet=True)

    def call_ctor(self, st, fn, loc, pv, line, fr, base=False):
        if self.recursing(fn):
            self.ev("call", st, line, name=strip_targs(fn.name), obj=addr(loc), args=pv, extra=fn)
            return
        self.call_fn(st, fn, loc, pv, line)

    def recursing(self, fn):
        return sum(1 for f in self.frames if f.fn is fn) > self.max_rec

    def is_opaque(self, fn):
        n = strip_targs(fn.name)
        if n in self.opaque:
            return True
        return bool(self.opaque_pred and self.opaque_pred(fn, n))

    def bind(self, st, fn, args, fr):
        pv = []
        for i, p in enumerate(fn.params):
            t = fn.tu.types[p["t"]]
            if i >= len(args):
                break
            a = args[i]
            if t["k"] in ("ref", "rref"):
                pv.append(self.lv(st, a, fr))
            else:
                pv.append(self.rv(st, a, fr))
        return pv

    # ------------------------------------------------------------ expression evaluation
    def lv(self, st, e, fr):
        """location designated by e (a temporary is created for prvalues)"""
        if e.get("g"):
            return self.eval(st, e, fr)
        t = self.fresh("tmp")
        self.init_into(st, t, e, fr)
        return t

    def rv(self, st, e, fr):
        if e.get("g"):
            return self.load(st, self.eval(st, e, fr))
        return self.eval(st, e, fr)

    def eval(self, st, e, fr):
        if st.dead:
            return UNDEF
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("steps")
        if "cv" in e:
            ty = self.ty(fr, e)
            if ty["k"] == "bool":
                return TRUE if e["cv"] else FALSE
            return I(ucv(e["cv"], ty))
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.note("expr:" + e["k"])
            return mk("unk", e["k"], e.get("l", 0))
        return m(st, e, fr)

    def e_int(self, st, e, fr):
        if self.ty(fr, e)["k"] == "bool":
            return TRUE if e["v"] else FALSE
        return I(ucv(e["v"], self.ty(fr, e)))

    def e_flt(self, st, e, fr):
        x, y = float(e["v"]).as_integer_ratio() if abs(float(e["v"])) < 2.0 ** 53 else (1, 3)
        if (y & (y - 1)) == 0 and y < 1 << 30:
            return mk("fq", I(x), y.bit_length() - 1)
        return mk("flt", str(e["v"]))

    def e_enum(self, st, e, fr):
        return I(e["v"])

    def e_null(self, st, e, fr):
        return ZERO

    def e_zero(self, st, e, fr):
        return FALSE if self.ty(fr, e)["k"] == "bool" else ZERO

    def e_nop(self, st, e, fr):
        return UNDEF

    def e_str(self, st, e, fr):
        # glvalue char array
        return mk("strlit", e["v"])

    def e_sizeof(self, st, e, fr):
        return mk("sym", "sizeof")

    e_const = e_sizeof

    def e_typeid(self, st, e, fr):
        return mk("typeid", e.get("l", 0))

    def e_unk(self, st, e, fr):
        self.note("unk:" + str(e.get("why")))
        return mk("unk", str(e.get("why")), e.get("l", 0))

    def e_fn(self, st, e, fr):
        f = e["f"]
        return mk("fn", f["key"] if not f["key"].startswith("@") else f"{fr.tu.idx}{f['key']}", f["n"])

    def e_this(self, st, e, fr):
        if fr.this is None:
            return mk("sym", "this?")
        return addr(fr.this)

    def e_ref(self, st, e, fr):
        if e["dk"] == "g":
            g = fr.tu.globals.get(str(e["id"]))
            l = mk("glob", e["n"])
            if g and (g.get("constexpr") or g.get("const")) and g.get("init") and l not in st.store and l not in self.inits_seen:
                self.inits_seen.add(l)
                if g["repo"] and not g.get("local"):
                    fz, self.frozen = self.frozen, None
                    self.init_into(st, l, g["init"], fr)
                    self.frozen = fz
                self.inits_seen.discard(l)
            return l
        l = fr.env.get(e["id"])
        if l is None:
            l = mk("var", fr.id, e["id"], e["n"])
            fr.env[e["id"]] = l
        return l

    def e_mem(self, st, e, fr):
        b = e["b"]
        if e.get("ar"):
            base = deref(self.rv(st, b, fr))
        elif b.get("g"):
            base = self.eval(st, b, fr)
        else:
            v = self.eval(st, b, fr)
            if e.get("g"):
                base = self.fresh("tmp")
                self.assign(st, base, v, quiet=True)
            else:
                return fldof(v, e["f"])
        l = fld(base, e["f"])
        # reference members designate their referent
        r = self.prog.records.get(e["fr"])
        if r:
            for f in r[0]["fields"]:
                if f["n"] == e["f"]:
                    if r[1].types[f["t"]]["k"] in ("ref", "rref"):
                        return deref(self.lookup(st, l))
                    break
        return l

    def e_bound(self, st, e, fr):
        return mk("unk", "bound")

    def e_mat(self, st, e, fr):
        t = self.fresh("tmp")
        self.init_into(st, t, e["e"], fr)
        if self.destroying and self.has_dtor(fr.tu, self.ty(fr, e)):
            self.live_tmps.append((t, fr.tu, self.ty(fr, e)))
        return t

    def e_stdinit(self, st, e, fr):
        # initializer_list over an array glvalue
        sub = e["e"]
        a = self.lv(st, sub, fr)
        t = self.ty(fr, sub)
        n = t.get("n", 0) if t["k"] == "array" else 0
        return rec(mk("ilst"), {"$b": addr(a), "$n": I(n)})

    def e_ilist(self, st, e, fr):
        t = self.ty(fr, e)
        if t["k"] in ("rec", "array"):
            tmp = self.fresh("tmp")
            self.init_into(st, tmp, e, fr)
            return self.load(st, tmp)
        if e["a"]:
            return self.rv(st, e["a"][0], fr)
        return FALSE if t["k"] == "bool" else ZERO

    def e_ctor(self, st, e, fr):
        tmp = self.fresh("tmp")
        self.construct(st, tmp, e, fr)
        return self.load(st, tmp)

    def e_lambda(self, st, e, fr):
        uid = self.fresh("clos")
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
            elif "id" in c:
                if c["byref"]:
                    caps[c["id"]] = self.lv(st, c["e"], fr)
                else:
                    l = mk("cap", uid, c["id"], c.get("n", ""))
                    self.init_into(st, l, c["e"], fr)
                    caps[c["id"]] = l
        self.closures[uid] = (e["keys"], caps, this, fr.tu)
        return uid

    def e_throw(self, st, e, fr):
        v = None
        ty = None
        if e.get("e"):
            ty = self.ty(fr, e["e"])["s"]
        self.ev("throw", st, e.get("l", 0), name=ty)
        st.dead = True
        return UNDEF

    def e_cond(self, st, e, fr):
        c = self.dec(st, tobool(self.rv(st, e["c"], fr)))
        if c is TRUE:
            return self.eval(st, e["a"], fr)
        if c is FALSE:
            return self.eval(st, e["b"], fr)
        s1, s2 = st.copy(c), st.copy(Not(c))
        a = self.eval(s1, e["a"], fr)
        b = self.eval(s2, e["b"], fr)
        d1, d2 = s1.dead, s2.dead
        st.set(self.merge([s1, s2]))
        if d1:
            return b
        if d2:
            return a
        if e.get("g"):
            return a if a is b else mk("ite", c, a, b)
        return joined(c, a, b, st.pc)

    def e_bin(self, st, e, fr):
        op = e["op"]
        if op == "&&" or op == "||":
            a = self.dec(st, tobool(self.rv(st, e["a"], fr)))
            if op == "&&":
                if a is FALSE:
                    return FALSE
                s2 = st.copy(a)
                b = tobool(self.rv(s2, e["b"], fr))
                b = self.dec(s2, b)
                self.join_side(st, s2, a)
                return And(a, b)
            if a is TRUE:
                return TRUE
            s2 = st.copy(Not(a))
            b = tobool(self.rv(s2, e["b"], fr))
            b = self.dec(s2, b)
            self.join_side(st, s2, Not(a))
            return Or(a, b)
        if op == ",":
            self.eval(st, e["a"], fr)
            return self.eval(st, e["b"], fr)
        a = self.rv(st, e["a"], fr)
        b = self.rv(st, e["b"], fr)
        ta, tb = self.ty(fr, e["a"]), self.ty(fr, e["b"])
        return self.binop(op, a, b, ta, tb, fr, self.ty(fr, e))

    def compare_unsigned(self, op, a, b):
        return WRAPS[op](a, b)

    def join_side(self, st, s2, c):
        # right operand of && / || had side effects?
        base = State(st.store, st.pc + ((Not(c),) if c.op != "and" else (Not(c),)))
        if s2.dead:
            st.pc = st.pc + (Not(c),)
            return
        changed = any(st.store.get(k) is not v for k, v in s2.store.items())
        if changed:
            other = st.copy(Not(c))
            m = self.merge([s2, other])
            st.set(m)

    def binop(self, op, a, b, ta, tb, fr, te=None):
        if ta["k"] == "ptr" and tb["k"] in ("int", "uint", "bool", "enum"):
            sz = fr.tu.types[ta["to"]].get("sz", 1)
            if op in ("+", "+="):
                return add(a, scale(b, sz))
            if op in ("-", "-="):
                return sub(a, scale(b, sz))
        if tb["k"] == "ptr" and ta["k"] in ("int", "uint") and op == "+":
            return add(b, scale(a, fr.tu.types[tb["to"]].get("sz", 1)))
        if ta["k"] == "ptr" and tb["k"] == "ptr" and op == "-":
            return div(sub(a, b), I(fr.tu.types[ta["to"]].get("sz", 1)))
        op2 = op[:-1] if op.endswith("=") and op not in ("==", "!=", "<=", ">=") else op
        if ta["k"] == "float" or tb["k"] == "float":
            return dyadic(op2, a, b)
        if self.contract and op in WRAPS and ta["k"] == tb["k"] == "uint":
            return WRAPS[op](a, b)
        return arith(op2, a, b, ta)

    def e_asg(self, st, e, fr):
        op = e["op"]
        if op == "=":
            v = self.rv(st, e["b"], fr)
            l = self.eval(st, e["a"], fr)
            self.assign(st, l, v, e.get("l", 0))
            return l
        b = self.rv(st, e["b"], fr)
        l = self.eval(st, e["a"], fr)
        a = self.load(st, l)
        v = self.binop(op, a, b, self.ty(fr, e["a"]), self.ty(fr, e["b"]), fr)
        self.assign(st, l, v, e.get("l", 0))
        return l

    def e_un(self, st, e, fr):
        op = e["op"]
        x = e["e"]
        if op == "&":
            if x["k"] == "fn":
                return self.e_fn(st, x, fr)
            return addr(self.eval(st, x, fr))
        if op == "*":
            v = self.rv(st, x, fr)
            if v.op == "fn":
                return v
            return deref(v)
        if op in ("++", "--", "p++", "p--"):
            l = self.eval(st, x, fr)
            o = self.load(st, l)
            t = self.ty(fr, x)
            step = fr.tu.types[t["to"]].get("sz", 1) if t["k"] == "ptr" else 1
            n = add(o, I(step if "+" in op else -step))
            self.assign(st, l, n, e.get("l", 0))
            return o if op[0] == "p" else l
        v = self.rv(st, x, fr)
        if op == "!":
            return Not(tobool(v))
        if op == "-":
            if self.ty(fr, x)["k"] == "float":
                return mk("fop", "neg", v)
            return scale(v, -1)
        if op == "+":
            return v
        if op == "~":
            if is_int(v):
                t = self.ty(fr, e)
                if t["k"] == "uint":
                    return I((~v.args[0]) & ((1 << (8 * t["sz"])) - 1))
                return I(~v.args[0])
            if v.op == "bnot":
                return v.args[0]
            return mk("bnot", v)
        self.note("un:" + op)
        return mk("un", op, v)

    def e_sub(self, st, e, fr):
        a = self.rv(st, e["a"], fr)
        b = self.rv(st, e["b"], fr)
        ta = self.ty(fr, e["a"])
        tb = self.ty(fr, e["b"])
        if ta["k"] != "ptr" and tb["k"] == "ptr":
            a, b, ta = b, a, tb
        sz = fr.tu.types[ta["to"]].get("sz", 1)
        return deref(add(a, scale(b, sz)))

    def e_cast(self, st, e, fr):
        ck = e["ck"]
        x = e["e"]
        if ck == "LValueToRValue":
            if x.get("g"):
                v = self.load(st, self.eval(st, x, fr))
            else:
                v = self.eval(st, x, fr)
            if v.op == "init":
                k = self.ty(fr, e)["k"]
                if k == "uint":
                    NONNEG.add(v)
                elif k == "ptr":
                    PTRS.add(v)
                elif k == "bool":
                    return tobool(v)
            return v
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "UserDefinedConversion", "BitCast", "LValueBitCast", "FunctionToPointerDecay", "Dynamic",
                  "BuiltinFnToFnPtr", "IntegralToPointer", "PointerToIntegral", "AtomicToNonAtomic"):
            v = self.eval(st, x, fr)
            if e.get("g") and not x.get("g"):
                t = self.fresh("tmp")
                self.assign(st, t, v, quiet=True)
                return t
            if not e.get("g") and x.get("g") and ck != "FunctionToPointerDecay":
                return self.load(st, v)
            if ck == "Dynamic":
                return mk("dyncast", v)
            return v
        if ck == "ArrayToPointerDecay":
            l = self.eval(st, x, fr)
            if l.op == "strlit":
                return mk("str", l.args[0])
            return addr(l)
        if ck == "NullToPointer":
            self.rv(st, x, fr)
            return ZERO
        if ck == "ToVoid":
            self.eval(st, x, fr)
            return UNDEF
        v = self.rv(st, x, fr)
        tt = self.ty(fr, e)
        ts = self.ty(fr, x)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return tobool(v)
        if ck == "IntegralCast":
            r = intcast(v, ts, tt)
            return v if r.op == "trunc" and self.fits(st, v, r.args[0]) else r
        if ck == "BooleanToSignedIntegral":
            return v
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            if ck == "IntegralToFloating" and tt.get("sz") == 8 and (is_int(v) or ts["k"] == "uint"):
                return mk("fq", v, 0)
            if v.op == "fq" and ck == "FloatingCast" and tt.get("sz") == 8:
                return v
            if v.op == "fq" and ck == "FloatingToIntegral":
                return div(v.args[0], I(1 << v.args[1]))
            return mk("fcast", tt["s"], v)
        if ck in ("NullToMemberPointer", "MemberPointerToBoolean"):
            return v
        self.note("cast:" + ck)
        return v

    def e_new(self, st, e, fr):
        t = fr.tu.types[e["at"]]
        if e.get("pl"):
            pl = [self.rv(st, p, fr) for p in e["pl"]]
            loc = deref(pl[0])
            if e.get("init"):
                self.init_into(st, loc, e["init"], fr)
            self.ev("pnew", st, e.get("l", 0), name=t["s"], obj=addr(loc))
            return addr(loc)
        n = None
        if e.get("arr"):
            n = self.rv(st, e["n"], fr) if e.get("n") else UNDEF
        h = self.fresh("heap")
        if not e.get("arr"):
            self.dyn[h] = t["s"]
        self.ev("new", st, e.get("l", 0), name=t["s"], obj=addr(h), extra=("arr" if e.get("arr") else None), val=n)
        if e.get("init") and not e.get("arr"):
            self.init_into(st, h, e["init"], fr)
        elif e.get("arr") and e.get("init"):
            self.assign(st, h, ZERO, quiet=True)
            x = e["init"]
            while x["k"] in ("cast", "mat") and x.get("e"):
                x = x["e"]
            if x["k"] == "ilist":
                for i, y in enumerate(x["a"]):
                    self.init_into(st, deref(add(addr(h), I(i * t.get("sz", 8)))), y, fr)
        elif t["k"] not in ("rec",):
            self.assign(st, h, UNDEF, quiet=True)
        return addr(h)

    def e_delete(self, st, e, fr):
        p = self.rv(st, e["e"], fr)
        self.delete_ptr(st, p, fr.tu, fr.tu.types[e["dt"]] if "dt" in e else None, bool(e.get("arr")), e.get("l", 0))
        return UNDEF

    # ------------------------------------------------------------ calls
    def e_call(self, st, e, fr):
        f = e["f"]
        key = f["key"]
        fn = self.prog.get(fr.tu, key)
        obj = None
        line = e.get("l", 0)
        if f.get("lambda") and f["s"] == "operator()":
            clos = self.rv(st, e["o"], fr)
            return self.call_closure(st, clos, e["a"], fr, key, line)
        if "o" in e:
            o = e["o"]
            if e.get("ar"):
                obj = deref(self.rv(st, o, fr))
            elif o.get("g"):
                obj = self.eval(st, o, fr)
            else:
                ot = self.ty(fr, o)
                if ot["k"] == "ptr":
                    obj = deref(self.eval(st, o, fr))
                else:
                    obj = self.lv(st, o, fr)
        if st.dead:
            return UNDEF
        name = self.fname(fr, f)
        hk = self.hooks.get(name)
        if hk is not None:
            r = hk(self, st, e, fr, obj, f)
            if r is not None:
                return r
        if f.get("asg") and (f.get("triv") or (f.get("dflt") and fn is None)) and obj is not None:
            src = self.eval(st, e["a"][0], fr)
            if not f.get("triv") and e["a"][0].get("g") and self.destroying:
                from . import stdmodel as S
                ct = fr.tu.types[f["cls"]] if "cls" in f else None
                r = self.prog.records.get(bare_s(ct["s"])) if ct else None
                if r and self.has_dtor(fr.tu, ct) and not ct.get("tm", "").startswith("std::"):
                    S.memberwise(self, st, fr, r, "asg", obj, src, f["asg"] == "move", line)
                    return obj
            if e["a"][0].get("g") and "cls" in f and fr.tu.types[f["cls"]].get("tm") in ("std::variant", "std::optional", "std::vector", "std::unique_ptr") and self.has_dtor(fr.tu, fr.tu.types[f["cls"]]):
                from . import stdmodel as S
                S.assign_object(self, st, fr, obj, src, fr.tu.types[f["cls"]], f["asg"] == "move", line)
                return obj
            if e["a"][0].get("g") and self.base_class(fr, f):
                from . import stdmodel as S
                S.memberwise(self, st, fr, self.base_class(fr, f), "asg", obj, src, f["asg"] == "move", line)
                return obj
            v = self.load(st, src) if e["a"][0].get("g") else src
            self.assign(st, obj, v, line)
            return obj
        if f.get("virt") and not e.get("nonvirt") and obj is not None and obj.op == "ite":
            return self.split_virtual(st, e, fr, f, fn, obj, name, line)
        if f.get("virt") and not e.get("nonvirt") and obj is not None and obj in self.dyn:
            r = self.override(self.dyn[obj], f, fn)
            if r is not None and not self.is_opaque(r) and not self.recursing(r):
                pv = self.bind(st, r, e["a"], fr)
                return UNDEF if st.dead else self.call_fn(st, r, obj, pv, line)
        if fn is not None and not self.is_opaque(fn) and not (f.get("virt") and not e.get("nonvirt") and not self.devirt_ok(f)):
            if not self.recursing(fn):
                pv = self.bind(st, fn, e["a"], fr)
                if st.dead:
                    return UNDEF
                return self.call_fn(st, fn, obj, pv, line)
        return self.extern_call(st, e, fr, f, fn, obj, name, line)

    def split_virtual(self, st, e, fr, f, fn, obj, name, line):
        """a virtual call on one of several objects: one dispatch per object, states joined"""
        c = self.dec(st, obj.args[0])
        if c is TRUE or c is FALSE:
            return self.virtual(st, e, fr, f, fn, obj.args[1 if c is TRUE else 2], name, line)
        s1, s2 = st.copy(c), st.copy(Not(c))
        v1 = self.virtual(s1, e, fr, f, fn, obj.args[1], name, line)
        v2 = self.virtual(s2, e, fr, f, fn, obj.args[2], name, line)
        st.set(self.merge([s1, s2]))
        if s1.dead or s2.dead:
            return v2 if s1.dead else v1
        return ite(c, v1, v2)

    def virtual(self, st, e, fr, f, fn, obj, name, line):
        if obj.op == "ite":
            return self.split_virtual(st, e, fr, f, fn, obj, name, line)
        if obj in self.dyn:
            r = self.override(self.dyn[obj], f, fn)
            if r is not None and not self.is_opaque(r) and not self.recursing(r):
                pv = self.bind(st, r, e["a"], fr)
                return UNDEF if st.dead else self.call_fn(st, r, obj, pv, line)
        return self.extern_call(st, e, fr, f, fn, obj, name, line)

    def override(self, cls, f, fn):
        """the final overrider in dynamic class `cls` of the virtual function called through f"""
        todo, seen = [cls], set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            cand = [x for x in self.prog.by_cls.get((c, f["s"]), []) if len(x.params) == f.get("np", len(x.params))]
            k = bool(f.get("const"))
            cand = [x for x in cand if bool(x.d.get("const")) == k] or cand
            if len(cand) == 1:
                return cand[0]
            if cand:
                return None
            r = self.prog.records.get(c)
            for b in (r[0].get("bases", []) if r else []):
                todo.append(r[1].types[b["t"]]["s"] if isinstance(b, dict) else r[1].types[b]["s"])
        return None

    def devirt_ok(self, f):
        return False

    def deep_rec(self, fn):
        return sum(1 for f in self.frames if f.fn is fn) > 0

    def fname(self, fr, f):
        if "cls" in f:
            c = fr.tu.types[f["cls"]]
            return c.get("tm", c["s"]) + "::" + f["s"]
        return strip_targs(f["n"])

    def argvals(self, st, e, fr):
        out = []
        for a in e["a"]:
            if a is None:
                continue
            if a.get("g"):
                l = self.eval(st, a, fr)
                out.append(("l", l, a))
            else:
                out.append(("v", self.eval(st, a, fr), a))
        return out

    def val(self, st, a):
        return self.load(st, a[1]) if a[0] == "l" else a[1]

    def extern_call(self, st, e, fr, f, fn, obj, name, line):
        A = self.argvals(st, e, fr)
        if st.dead:
            return UNDEF
        from . import stdmodel
        r = stdmodel.model(self, st, e, fr, f, name, obj, A, line)
        if r is not stdmodel.NONE:
            return r
        return self.uninterpreted(st, e, fr, f, fn, obj, name, A, line)

    def uninterpreted(self, st, e, fr, f, fn, obj, name, A, line):
        vals = [self.val(st, a) for a in A]
        if obj is not None:
            oval = self.load(st, obj)
        ev = self.ev("call", st, line, name=name, obj=addr(obj) if obj is not None else None,
                     args=[addr(a[1]) if a[0] == "l" else a[1] for a in A], val=None, extra=(f, vals, fn))
        self.note("call:" + name)
        if f.get("noret"):
            st.dead = True
        allv = ([oval] if obj is not None else []) + vals
        res = mk("call", name, *allv)
        mutates = False
        # effects on non-const arguments / object
        pts = f.get("pt", [])
        n = len(self.events)
        for i, a in enumerate(A):
            if a[0] == "l" and i < len(pts):
                t = fr.tu.types[pts[i]]
                if t["k"] in ("ref",) and not fr.tu.types[t["to"]].get("const") and not self.pure_free(name):
                    self.havoc(st, a[1], name, n)
                    mutates = True
        if obj is not None and not f.get("const") and not f.get("static") and not self.pure_method(name):
            self.havoc(st, obj, name, n)
            mutates = True
        rt = fr.tu.types[f["ret"]]
        if ev is not None:
            ev.val = res
        if rt["k"] in ("ref", "rref"):
            return mk("rloc", res)
        return res

    def pure_free(self, name):
        return name in ("std::begin", "std::end", "std::data", "std::size", "std::get", "std::addressof")

    def pure_method(self, name):
        return name.split("::")[-1] in ("begin", "end", "data", "size", "cbegin", "cend", "rbegin", "rend", "operator*", "operator->", "operator[]", "at", "get")

    def havoc(self, st, loc, name, n):
        if loc.op == "ite":
            self.havoc(st, loc.args[1], name, n)
            self.havoc(st, loc.args[2], name, n)
            return
        old = self.load(st, loc)
        self.unsure += 1
        self.assign(st, loc, mk("after", name, n, old), quiet=True)
        self.unsure -= 1

    def e_icall(self, st, e, fr):
        fe = e["fe"]
        return self.call_pointer(st, self.rv(st, fe, fr) if fe else UNDEF, e, fr)

    def call_pointer(self, st, t, e, fr):
        if t.op == "ite" and any(x.op in ("fn", "clos", "ite") for x in t.args[1:]):
            c = self.dec(st, t.args[0])
            if c is TRUE or c is FALSE:
                return self.call_pointer(st, t.args[1] if c is TRUE else t.args[2], e, fr)
            s1, s2 = st.copy(c), st.copy(Not(c))
            a = self.call_pointer(s1, t.args[1], e, fr)
            b = self.call_pointer(s2, t.args[2], e, fr)
            st.set(self.merge([s1, s2]))
            return a if a is b or s2.dead else b if s1.dead else ite(c, a, b)
        if t.op == "fn":
            k = t.args[0]
            fn = self.prog.by_key.get(k)
            if fn is not None and not self.is_opaque(fn) and not self.recursing(fn):
                pv = self.bind(st, fn, e["a"], fr)
                return self.call_fn(st, fn, None, pv, e.get("l", 0))
        if t.op == "clos":
            return self.call_closure(st, t, e["a"], fr, None, e.get("l", 0))
        A = self.argvals(st, e, fr)
        ev = self.ev("icall", st, e.get("l", 0), obj=t, args=[addr(a[1]) if a[0] == "l" else a[1] for a in A])
        n = len(self.events)
        h = self.hooks.get("icall")
        if h:
            h(self, st, t, A, ev)
        r = mk("icall", n, t)
        return r

    def call_closure(self, st, clos, args, fr, key, line, argv=None):
        if clos.op == "ite":
            c = self.dec(st, clos.args[0])
            if c is TRUE:
                return self.call_closure(st, clos.args[1], args, fr, key, line, argv)
            if c is FALSE:
                return self.call_closure(st, clos.args[2], args, fr, key, line, argv)
        c = self.closures.get(clos)
        if c is None:
            A = [self.rv(st, a, fr) for a in args] if args is not None else list(argv)
            self.ev("call", st, line, name="closure", obj=clos, args=A)
            self.note("closure?")
            return mk("call", "closure", clos, *A)
        keys, caps, this, tu = c
        if key is None:
            key = keys[0] if keys else None
        fn = self.prog.get(tu, key) if key else None
        if fn is None:
            fn = next((self.prog.get(tu, k) for k in keys if self.prog.get(tu, k)), None)
        if fn is None:
            self.note("closure-nobody")
            return mk("call", "closure", clos)
        if self.recursing(fn):
            self.note("closure-rec")
            return mk("call", "closure-rec", clos)
        pv = argv if argv is not None else self.bind(st, fn, args, fr)
        return self.call_fn(st, fn, None, pv, line, caps=caps, capthis=this)

    def closure_fns(self, clos):
        c = self.closures.get(clos)
        if c is None:
            return []
        return [f for f in (self.prog.get(c[3], k) for k in c[0]) if f is not None]

    # ------------------------------------------------------------ std constructors
    def std_ctor(self, st, loc, f, cls, args, e, fr):
        from . import stdmodel
        A = self.argvals(st, {"a": args}, fr)
        if st.dead:
            return
        if stdmodel.ctor(self, st, loc, f, cls, A, e, fr):
            return
        vals = [self.val(st, a) for a in A]
        nm = cls.get("tm", cls["s"])
        if vals or nm not in ("std::allocator",):
            self.note("ctor:" + nm)
        if len(vals) == 1 and f.get("ctor") in ("copy", "move"):
            self.assign(st, loc, vals[0], quiet=True)
            return
        self.assign(st, loc, mk("call", nm + "::ctor", *vals), quiet=True)

    # ------------------------------------------------------------ statements
    def exec(self, st, s, fr):
        if s is None or st.dead:
            return st
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("steps")
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            if hasattr(self, "e_" + s["k"]):
                mark = len(self.live_tmps)
                self.eval(st, s, fr)
                if len(self.live_tmps) > mark:
                    self.end_tmps(st, mark)
                return st
            self.note("stmt:" + s["k"])
            return st
        if self.destroying and s["k"] in ("decl", "if"):
            mark = len(self.live_tmps)
            m(st, s, fr)
            self.end_tmps(st, mark)
            return st
        m(st, s, fr)
        return st

    def s_comp(self, st, s, fr):
        n = len(fr.scope)
        for x in s["b"]:
            if st.dead:
                break
            self.exec(st, x, fr)
        if len(fr.scope) > n:
            if not st.dead:
                self.end_scope(st, fr.scope[n:])
            del fr.scope[n:]

    s_decls = s_comp

    def s_nop(self, st, s, fr):
        pass

    def s_decl(self, st, s, fr):
        for v in s["v"]:
            self.vardecl(st, v, fr)

    def vardecl(self, st, v, fr):
        if st.dead:
            return
        if v.get("static"):
            g = fr.tu.globals.get(str(v["id"]))
            loc = mk("glob", g["n"] if g else v["n"])
            fr.env[v["id"]] = loc
            if g and g.get("init"):
                self.ev("staticinit", st, v["l"], name=g["n"], obj=loc)
                fz, self.frozen = self.frozen, None
                self.init_into(st, loc, g["init"], fr)
                self.frozen = fz
            return
        t = self.ty(fr, v)
        if t["k"] in ("ref", "rref"):
            if v.get("init"):
                mark = len(self.live_tmps)
                fr.env[v["id"]] = self.lv(st, v["init"], fr)
                if len(self.live_tmps) > mark:   # lifetime extended
                    fr.scope.extend(self.live_tmps[mark:])
                    del self.live_tmps[mark:]
            return
        loc = mk("var", fr.id, v["id"], v["n"])
        fr.env[v["id"]] = loc
        for k in [k for k in st.store if k is loc or (k.op == "fld" and self.under(k, loc))]:
            del st.store[k]
        if v.get("init"):
            self.init_into(st, loc, v["init"], fr)
        else:
            st.store[loc] = UNDEF
        if self.destroying and self.has_dtor(fr.tu, t):
            fr.scope.append((loc, fr.tu, t))
        for b in v.get("binds", []):
            self.vardecl(st, b, fr)

    def s_ret(self, st, s, fr):
        v = None
        mark = len(self.live_tmps)
        if s.get("e"):
            rt = fr.tu.types[fr.fn.d["ret"]]
            if rt["k"] in ("ref", "rref"):
                v = self.lv(st, s["e"], fr)
            else:
                v = self.rv(st, s["e"], fr)
        if self.destroying:
            self.end_tmps(st, mark)
            if fr.scope and not st.dead:
                self.end_scope(st, fr.scope)
        if not st.dead:
            if len(self.frames) == 1:
                self.ev("return", st, s["l"], val=v)
            fr.rets.append((st.copy(), v))
        st.dead = True

    def s_if(self, st, s, fr):
        if s.get("init"):
            self.exec(st, s["init"], fr)
        if s.get("var"):
            self.exec(st, s["var"], fr)
        n0 = len(self.events)
        outer, self.contract = self.contract, self.contract or is_trap(s.get("a")) and not s.get("b")
        c0 = tobool(self.rv(st, s["c"], fr))
        self.contract = outer
        if st.dead:
            return
        c = self.dec(st, c0)
        if is_trap(s.get("a")) and not s.get("b"):
            # contract assertion: the failing branch aborts
            self.ev("assert", st, s["l"], val=Not(c0), extra=n0)
            if c is TRUE:
                st.dead = True
            elif c is not FALSE:
                st.pc = st.pc + tuple(Not(c).args if Not(c).op == "and" else (Not(c),))
            return
        if c is TRUE:
            self.exec(st, s["a"], fr)
            return
        if c is FALSE:
            if s.get("b"):
                self.exec(st, s["b"], fr)
            return
        s1, s2 = st.copy(c), st.copy(Not(c))
        self.exec(s1, s["a"], fr)
        if s.get("b"):
            self.exec(s2, s["b"], fr)
        st.set(self.merge([s1, s2]))

    def s_break(self, st, s, fr):
        fr.brk.append(st.copy())
        st.dead = True

    def s_cont(self, st, s, fr):
        fr.cont.append(st.copy())
        st.dead = True

    def s_try(self, st, s, fr):
        pre = st.copy()
        self.trys.append(s)
        self.exec(st, s["b"], fr)
        self.trys.pop()
        # handlers are evaluated as alternatives from the state before the block (effects in it unknown)
        outs = [st.copy()]
        for i, h in enumerate(s["h"]):
            lit = mk("bcall", "caught", s["l"], i)
            hs = pre.copy(lit)
            self.exec(hs, h["b"], fr)
        # the non-exceptional continuation is kept as the value state

    def s_sw(self, st, s, fr):
        if s.get("init"):
            self.exec(st, s["init"], fr)
        if s.get("var"):
            self.exec(st, s["var"], fr)
        c = self.rv(st, s["c"], fr)
        if st.dead:
            return
        items = []
        body = s["b"]["b"] if s["b"]["k"] == "comp" else [s["b"]]

        def flat(x):
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(None if x["k"] == "default" else x.get("v"))
                x = x["b"]
            return labels, x

        for x in body:
            items.append(flat(x))
        allv = [v for ls, _ in items for v in ls if v is not None]
        hasdef = any(None in ls for ls, _ in items)
        outs = []
        saved = fr.brk
        fr.brk = []
        entries = [i for i, (ls, _) in enumerate(items) if ls]
        for i in entries:
            ls = items[i][0]
            conds = []
            for v in ls:
                if v is None:
                    others = [x for x in allv if x not in ls]
                    conds.append(And(*[Not(eq(c, I(x))) for x in others]))
                else:
                    conds.append(eq(c, I(v)))
            cond = self.dec(st, Or(*conds))
            if cond is FALSE:
                continue
            s1 = st.copy(cond)
            for _, x in items[i:]:
                if s1.dead:
                    break
                self.exec(s1, x, fr)
            outs.append(s1)
            if cond is TRUE:
                break
        else:
            if not hasdef:
                nc = self.dec(st, And(*[Not(eq(c, I(v))) for v in allv]))
                if nc is not FALSE:
                    outs.append(st.copy(nc))
        outs += fr.brk
        fr.brk = saved
        st.set(self.merge(outs))

    def s_for(self, st, s, fr):
        if s.get("init"):
            self.exec(st, s["init"], fr)
        old = self.unroll
        if old and table_fill(s):
            self.unroll = 260
        def body(x):
            keep, self.unroll = self.unroll, old
            self.exec(x, s["b"], fr)
            self.unroll = keep
        self.loop(st, fr, s.get("c"), s.get("inc"), body, s["l"], cvar=s.get("cvar"))
        self.unroll = old

    def s_do(self, st, s, fr):
        # do { b } while (c)  ==  b; while (c) b
        saved_b, saved_c = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        self.exec(st, s["b"], fr)
        brks = fr.brk
        st.set(self.merge([st] + fr.cont))
        fr.brk, fr.cont = saved_b, saved_c
        if not st.dead and s["c"].get("cv", 1) != 0 and not (s["c"]["k"] == "int" and s["c"]["v"] == 0):
            self.loop(st, fr, s["c"], None, lambda x: self.exec(x, s["b"], fr), s["l"])
        st.set(self.merge([st] + brks))

    def fits(self, st, v, n):
        """the facts keep v below the sign bit of a number of n bytes"""
        from . import decide as D
        if v.op not in ("lin", "param", "leaf", "ctr", "var") and not is_nonneg(v):
            return False
        F = D.Facts(list(st.pc))
        return D.entails(F, lt(v, I(1 << (8 * n - 1))), 0) and (is_nonneg(v) or D.entails(F, Not(lt0(v)), 0))

    def loop(self, st, fr, cond, inc, body, line, cvar=None, elem=None):
        if st.dead:
            return
        self.nloop += 1
        lp = Loop(self.nloop)
        lp.passed = set()
        lp.line = line
        lp.fn = fr.fn
        pre = st.copy()

        def iterate(s):
            """one iteration; returns (cond literal, end-of-iteration state, exits)"""
            outer, self.wrote = self.wrote, set()
            try:
                return iterate1(s)
            finally:
                lp.wrote = self.wrote
                self.wrote = outer | lp.wrote

        def iterate1(s):
            sb, sc = fr.brk, fr.cont
            fr.brk, fr.cont = [], []
            nr = len(fr.rets)
            if cvar:
                self.exec(s, cvar, fr)
            if callable(cond):
                c = self.dec(s, tobool(cond(s)))
            else:
                c = self.dec(s, tobool(self.rv(s, cond, fr))) if cond else TRUE
            after = s.copy(Not(c)) if c is not TRUE else None
            b = s.copy(c)
            if c.op == "not" and (n := trip_count(c, lp)) is not None and not is_int(n):
                # counting up to a limit that is not below the start: still below it
                from . import decide as D
                if is_nonneg(n) or D.entails(D.Facts(list(s.pc)), Not(lt0(n)), 0):
                    b.pc = b.pc + (lt(lp.ctr, n),)
            if c is FALSE:
                b.dead = True
            body(b)
            m = self.merge([b] + fr.cont)
            if inc and not m.dead:
                if callable(inc):
                    inc(m)
                else:
                    self.eval(m, inc, fr)
            br = fr.brk
            fr.brk, fr.cont = sb, sc
            newrets = fr.rets[nr:]
            del fr.rets[nr:]
            return c, m, br, newrets, after

        mark = len(self.events)
        nlp0 = self.nloop
        if cond is not None and self.unroll:
            r = self.unrolled(st, fr, pre, iterate, mark, nlp0)
            if r:
                return
        self.loops = self.loops + [lp]
        W = {}
        ind = {}
        roots_pre = None
        c0 = None
        settled = set()
        for rnd in range(6):
            h = pre.copy()
            for k in W:
                h.store[k] = ind[k] if k in ind else mk("phi", lp.id, k)
            del self.events[mark:]
            self.nloop = nlp0
            c, m, br, rets, after = iterate(h)
            if rnd == 0:
                c0 = c
                if c is FALSE:
                    break
            changed = False
            if not m.dead:
                for k, v in m.store.items():
                    ro = root(k)
                    if k in W or k.op == "all" or k in lp.passed:
                        continue
                    # variables born inside the iteration do not carry
                    if ro.op == "var" and not self.exists_before(pre, ro) and ro.args[0] >= fr.id:
                        if not any(x is ro for x in fr.env.values()) or ro not in [root(q) for q in pre.store]:
                            continue
                    if ro.op in ("tmp", "cap") and not any(root(q) is ro for q in pre.store):
                        continue
                    ov = pre.store.get(k)
                    if ov is None:
                        ov = self.lookup(pre, k)
                    if ov is not v:
                        if k.op == "deref" and contains(k, lambda t: t is lp.ctr or t.op == "phi"):
                            continue
                        if ro.op == "deref" and contains(ro, lambda t: t is lp.ctr or (t.op == "phi" and t.args[0] == lp.id)):
                            continue
                        W[k] = 1
                        changed = True
            if not m.dead:
                for k in list(W):
                    if k in ind:
                        # verify the induction still holds
                        nv = self.lookup(m, k)
                        step = lp.defs.get(k)
                        if sub(nv, ind[k]) is not step and (k not in settled or settle(sub(nv, ind[k]), m.pc) is not step):
                            del ind[k]
                            lp.defs.pop(k, None)
                            lp.noind = getattr(lp, "noind", set()) | {k}
                            changed = True
                        continue
                    if k in getattr(lp, "noind", ()):
                        continue
                    phi = mk("phi", lp.id, k)
                    nv = self.lookup(m, k)
                    d = sub(nv, phi)
                    if rnd > 0 and contains(d, lambda t: t.op == "call" and t.args[0] == "std::popcount" and contains(t, lambda u: u.op == "ite")):
                        x = settle(d, m.pc)
                        if x is not d:
                            d = x
                            settled.add(k)
                    if nv is not phi and not contains(d, lambda t: t is phi or t.op in ("undef", "ite") or (t.op == "phi" and t.args[0] == lp.id) or t is lp.ctr) and rnd > 0:
                        lp.defs[k] = d
                        base = self.lookup(pre, k)
                        ind[k] = add(base, scale_t(d, lp.ctr))
                        changed = True
                # a cell that only the first iteration writes, through a pointer that moves
                if ind:
                    for k in [k for k in W if k.op in ("deref", "heap") and k not in ind]:
                        if not any(w is k or self.under(w, k) or self.under(k, w) for w in lp.wrote):
                            del W[k]
                            lp.passed.add(k)
                            changed = True
            if not changed and rnd > 0:
                break
        if c0 is FALSE:
            self.loops = self.loops[:-1]
            st.set(pre.copy())
            return
        lp.cond = c
        for k in W:
            if k not in ind and not m.dead:
                lp.defs[k] = self.lookup(m, k)
        lp.early = bool(br) or bool(rets) or any(e.kind == "throw" for e in self.events[mark:])
        lp.trip = trip_count(c, lp) or mk("trip", lp.id)
        lp.exact = trip_count(c, lp) is not None
        self.loops = self.loops[:-1]
        same = None
        if not lp.early and not m.dead:
            same = self.same_loop(lp, pre, W, ind, c)
            if not lp.exact:
                lp.trip = mk("trip", same[0])
        # exit state
        out = pre.copy()
        for i, k in enumerate(W):
            if k in ind:
                out.store[k] = add(self.lookup(pre, k), scale_t(lp.defs[k], lp.trip))
            elif lp.defs.get(k) is mk("phi", lp.id, k):   # no iteration changes it
                out.store[k] = self.lookup(pre, k)
            else:
                out.store[k] = mk("lout", same[0], same[1][i]) if same else mk("lout", lp.id, k)
        # elements written through the loop counter
        if not m.dead:
            pend = {}
            for k, v in m.store.items():
                if k.op == "all":
                    if pre.store.get(k) is not v:
                        out.store[k] = mk("unk", "nested", lp.id)
                    continue
                r = root(k)
                if r.op == "deref" and contains(r, lambda t: t is lp.ctr):
                    pend.setdefault(r, []).append(k)
            for r, ks in pend.items():
                v = self.load(m, r)
                if v is init(r):
                    continue
                self.write_all(out, lp.id, r, lp.trip, v)
        exits = []
        if br or rets:
            out.pc = out.pc + (mk("bcall", "loopend", lp.id),)
        exits.append(out)
        for b in br:
            exits.append(b)
        fr.rets.extend(rets)
        if cond is None or c is TRUE:
            exits = list(br)
        st.set(self.merge(exits))

    def same_loop(self, lp, pre, W, ind, c):
        """two loops with the same recurrences from the same values have the same results: (id, variables) of the first such loop"""
        ren = {lp.ctr: mk("ctr", 0)}
        for i, k in enumerate(W):
            ren[mk("phi", lp.id, k)] = mk("phi", 0, I(i))
        key = (subst(c, ren),
               tuple((self.lookup(pre, k), k in ind, subst(lp.defs.get(k, UNDEF), ren)) for k in W))
        from . import decide as D
        D.LOOPS[lp.id] = (lp.ctr, c, tuple((k, self.lookup(pre, k), k in ind, lp.defs.get(k, UNDEF)) for k in W))
        return self.loop_keys.setdefault(key, (lp.id, tuple(W)))

    def unrolled(self, st, fr, pre, iterate, mark, nlp0):
        """runs the loop iteration by iteration while its condition is a constant; False (nothing changed) when the
        condition stops being one"""
        s = pre.copy()
        exits = []
        nrets = len(fr.rets)
        uid = getattr(self, "uid", None)
        for _ in range(self.unroll + 1):
            if s.dead:
                break
            probe = s.copy()
            c, m, br, rets, after = iterate(probe)
            if c is FALSE:
                exits.append(after if after is not None else s)
                break
            if c is not TRUE:
                del self.events[mark:]
                del fr.rets[nrets:]
                self.nloop = nlp0
                return False
            exits += br
            fr.rets.extend(rets)
            s = m
        else:
            del self.events[mark:]
            del fr.rets[nrets:]
            self.nloop = nlp0
            return False
        st.set(self.merge(exits) if exits else s)
        if not exits:
            st.dead = True
        return True

    def loop_py(self, st, fr, cond, inc, body, line):
        self.loop(st, fr, cond, inc, body, line)

    def exists_before(self, pre, ro):
        return any(root(q) is ro for q in pre.store)


PTRS = set()    # loads of pointer type


def based(x):
    """an address counted from a known pointer"""
    if x.op == "ite":
        return based(x.args[1]) or based(x.args[2])
    return any(made(t) or t.op == "copyof" or t in PTRS for t in lin_parts(x)[1])


def split_base(loc):
    """(condition, location, location) of a cell counted from one of two pointers"""
    if loc.op != "deref":
        return None
    c, p = lin_parts(loc.args[0])
    for t, k in p.items():
        if t.op == "ite" and k == 1 and (based(t.args[1]) or based(t.args[2])):
            q = dict(p)
            del q[t]
            r = lin(c, q)
            m = {t.args[0]: TRUE}
            n = {t.args[0]: FALSE}
            return t.args[0], deref(subst(add(t.args[1], r), m)), deref(subst(add(t.args[2], r), n))
    return None


def base_of(a):
    """the pointer an element address is counted from"""
    r = None
    for t, k in lin_parts(a)[1].items():
        if made(t) or t.op == "copyof" or t in PTRS:
            if k != 1 or r is not None:
                return None
            r = t
    return r


def near_cells(st, loc):
    """single cells of the storage of loc, with the distance from loc"""
    if loc.op == "deref":
        a = loc.args[0]
        b = base_of(a)
        if b is None:
            return []
    elif loc.op in FRESH:
        a = b = addr(loc)
    else:
        return []
    out = []
    first = b.args[0] if b.op == "addr" and b.args[0] is not loc and b.args[0] in st.store else None
    if first is not None:
        d = sub(a, b)
        if d.op != "int":
            out.append((first, d))
    for k in st.store:
        if k.op == "deref" and k is not loc and base_of(k.args[0]) is b:
            d = sub(a, k.args[0])
            if d.op != "int":
                out.append((k, d))
    return out


def chosen(hit, v):
    for g, x in reversed(hit):
        v = ite(g, x, v)
    return v


def match_index(pat, p, ctr):
    """idx with pat[ctr := idx] == p"""
    c, q = lin_parts(pat)
    k = q.pop(ctr, 0)
    if k == 0:
        return None
    if any(contains(t, lambda u: u is ctr) for t in q):
        return None
    d = sub(p, lin(c, q))
    dc, dp = lin_parts(d)
    if dc % k == 0 and all(x % k == 0 for x in dp.values()) and all(t.op not in ("addr", "copyof", "heap", "mapof") and t not in PTRS for t in dp):
        return div(d, I(k))
    return None


def scale_t(d, t):
    return mul(d, t)


def table_fill(s):
    """a short loop that fills a table of up to 256 elements"""
    c = s.get("c")
    if not c or c["k"] != "bin" or c.get("op") != "<":
        return False
    b = c["b"]
    while b["k"] in ("cast", "icast", "par") and "e" in b:
        b = b["e"]
    if b["k"] != "int" or not 16 < b["v"] <= 256:
        return False
    kinds = []

    def walk(n):
        if isinstance(n, dict):
            if "k" in n:
                kinds.append(n["k"])
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(s["b"])
    return len(kinds) < 40 and not {"for", "while", "do", "if", "rangefor"} & set(kinds)


def trip_count(c, lp):
    """number of iterations of a counting loop from its continuation condition"""
    if c.op == "not" and c.args[0].op == "eq0":
        x = c.args[0].args[0]
        k, p = lin_parts(x)
        s = p.pop(lp.ctr, 0)
        if s and not any(contains(t, lambda u: u is lp.ctr or u.op == "phi" and u.args[0] == lp.id) for t in p):
            return div(scale(lin(k, p), -1 if s > 0 else 1), I(abs(s)))
        return None
    if c.op == "lt0":
        x = c.args[0]
    elif c.op == "not" and c.args[0].op == "lt0":
        x = add(scale(c.args[0].args[0], -1), I(-1))
    else:
        return None
    k, p = lin_parts(x)
    s = p.pop(lp.ctr, 0)
    if s <= 0 or any(contains(t, lambda u: u is lp.ctr or u.op == "phi" and u.args[0] == lp.id) for t in p):
        return None
    # k + p + s*ctr < 0  ->  ctr < -(k+p)/s
    n = scale(lin(k, p), -1)
    if s == 1:
        return n
    return div(add(n, I(s - 1)), I(s))


def ucv(v, ty):
    """constants of unsigned type are exported as two's complement"""
    if v < 0 and ty["k"] == "uint":
        return v + (1 << (8 * ty.get("sz", 8)))
    return v


def is_trap(s):
    if s is None:
        return False
    while s["k"] == "comp":
        b = [x for x in s["b"] if x["k"] != "nop"]
        if len(b) != 1:
            return False
        s = b[0]
    return s["k"] == "call" and s["f"]["n"] == "__builtin_trap"


def isloc(t):
    return t.op in ("fld", "deref", "var", "tmp", "heap", "glob", "obj", "cap", "rloc")


def intcast(v, ts, tt):
    if tt["k"] == "bool":
        return tobool(v)
    if is_int(v) and tt["k"] in ("int", "uint"):
        b = 8 * tt.get("sz", 8)
        x = v.args[0]
        if tt["k"] == "uint":
            return I(x & ((1 << b) - 1)) if x < 0 and b < 64 else v
        return v
    ss, st_ = ts.get("sz", 8), tt.get("sz", 8)
    if ts["k"] in ("enum", "bool") or tt["k"] == "enum":
        return v
    if st_ < ss:
        if v.op in BOOLOPS:
            return v
        # narrowing of an int-promoted narrow value is the identity
        if v.op == "trunc" and v.args[0] == st_:
            return v
        if ss == 4 and st_ < 4:
            return v if v.op not in ("mul", "bnot", "shl") else narrowed(st_, v)
        return narrowed(st_, v)
    return v


def narrowed(n, v):
    """v modulo 256**n; what is narrowed less inside a bitwise operation does not matter"""
    def bare(x):
        while x.op == "trunc" and x.args[0] >= n:
            x = x.args[1]
        return mk("bnot", bare(x.args[0])) if x.op == "bnot" else x
    v = bare(v)
    if v.op in ("band", "bor", "bxor"):
        v = bitwise(v.op, bare(v.args[0]), bare(v.args[1]))
    return mk("trunc", n, v)


def unsigned(a):
    """a difference of unsigned values that is below zero is a huge value: it is not below a bound"""
    c, p = lin_parts(a)
    if c >= 0 and all(k > 0 or t.op == "div" for t, k in p.items()):
        return TRUE
    return Not(lt0(a))


WRAPS = {"<": lambda a, b: And(unsigned(a), lt(a, b)), ">": lambda a, b: And(unsigned(b), lt(b, a)),
         "<=": lambda a, b: And(unsigned(a), le(a, b)), ">=": lambda a, b: And(unsigned(b), le(b, a))}


def dyadic(op, a, b):
    """double arithmetic on counts: fq(x, k) is x / 2^k, exact while x stays below 2^53"""
    if a.op == b.op == "fq":
        (x, i), (y, j) = a.args, b.args
        if op == "*" and (is_int(x) or is_int(y)):
            return reduced(mul(x, y), i + j)
        if op == "/" and is_int(y) and y.args[0] > 0 and (y.args[0] & (y.args[0] - 1)) == 0:
            return reduced(scale(x, 1 << j), i + y.args[0].bit_length() - 1)
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-"):
            x, y = scale(x, 1 << max(j - i, 0)), scale(y, 1 << max(i - j, 0))
            if op in "+-":
                return reduced(add(x, y) if op == "+" else sub(x, y), max(i, j))
            return arith(op, x, y, {})
    return mk("fop", op, a, b)


def reduced(x, k):
    c, p = lin_parts(x)
    while k and c % 2 == 0 and all(f % 2 == 0 for f in p.values()):
        c, p, k = c // 2, {t: f // 2 for t, f in p.items()}, k - 1
    r = I(c)
    for t, f in p.items():
        r = add(r, scale(t, f))
    return mk("fq", r, k)


def arith(op, a, b, ta):
    if op == "+":
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        return mul(a, b)
    if op == "/":
        return div(a, b)
    if op == "%":
        return mod(a, b)
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == "<=":
        return le(a, b)
    if op == ">=":
        return le(b, a)
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return Not(eq(a, b))
    if op == "<<":
        if is_int(b):
            return scale(a, 1 << b.args[0])
        return mk("shl", a, b)
    if op == ">>":
        if is_int(b):
            return div(a, I(1 << b.args[0]))
        return mk("shr", a, b)
    if op in ("&", "|", "^"):
        if is_int(a) and is_int(b):
            x, y = a.args[0], b.args[0]
            return I(x & y if op == "&" else x | y if op == "|" else x ^ y)
        if a.op in BOOLOPS and b.op in BOOLOPS:
            if op == "&":
                return And(a, b)
            if op == "|":
                return Or(a, b)
            return Not(eq(a, b))
        for x, y in ((a, b), (b, a)):
            if op == "&" and is_int(y) and y.args[0] > 0 and (y.args[0] & (y.args[0] + 1)) == 0 and y.args[0] < 255 and ta.get("k") == "uint":
                return mod(x, I(y.args[0] + 1))
        return bitwise({"&": "band", "|": "bor", "^": "bxor"}[op], a, b)
    if op == "<=>":
        return mk("cmp3", a, b)
    return mk("bin", op, a, b)


def divs(t):
    return {x for x in subterms(t) if x.op == "div" and x.args[1].op == "int"}


def settle(t, pc):
    """the value with the choices that the path condition decides made"""
    from . import decide as D
    F = D.Facts(list(pc))
    for _ in range(12):
        for x in subterms(t):
            if x.op == "ite" and not contains(x.args[0], lambda y: y.op == "ite"):
                c = x.args[0]
                if all(D.entails(F, l, 1) for l in (c.args if c.op == "and" else (c,))):
                    t = subst(t, {x: x.args[1]})
                    break
                n = Not(c)
                if all(D.entails(F, l, 1) for l in (n.args if n.op == "and" else (n,))):
                    t = subst(t, {x: x.args[2]})
                    break
        else:
            return t
    return t


def joined(c, a, b, pc):
    """the gated join of two values; one value when a quotient in it is zero in the other branch anyway"""
    if c is TRUE or c is FALSE or a.op in BOOLOPS or b.op in BOOLOPS:
        return ite(c, a, b)
    for x, y, g in ((a, b, c), (b, a, Not(c))):
        if y.op not in ("lin", "ite", "div"):
            continue
        ds = divs(y) - divs(x)
        if 0 < len(ds) <= 2 and subst(y, {d: ZERO for d in ds}) is x:
            from . import decide as D
            F = D.Facts(list(pc) + [g])
            if all(D.entails(F, eq0(d), 0) for d in ds):
                return y
    r = ite(c, a, b)
    if r.op in ("min", "max", "lin"):
        for t in list(lin_parts(r)[1]):
            if t.op in ("min", "max"):
                x, y = t.args
                for u, v in ((x, y), (y, x)):
                    if decide(lt0(sub(u, v)), pc) is FALSE:   # v <= u
                        return subst(r, {t: v if t.op == "min" else u})
    return r


# ------------------------------------------------------------------ deciding literals from a path condition
def decide(c, pc):
    if c is TRUE or c is FALSE or not pc:
        return c
    if c.op in ("and", "or"):
        xs = [decide(x, pc) for x in c.args]
        return And(*xs) if c.op == "and" else Or(*xs)
    if c.op == "not":
        return Not(decide(c.args[0], pc))
    if c.op == "ite":
        return ite(decide(c.args[0], pc), c.args[1], c.args[2])
    n = Not(c)
    for p in pc:
        if p is c:
            return TRUE
        if p is n:
            return FALSE
        if p.op == "and":
            if c in p.args:
                return TRUE
            if n in p.args:
                return FALSE
    if c.op in ("eq0", "lt0"):
        k, parts = lin_parts(c.args[0])
        if len(parts) <= 2:
            key = tuple(sorted(((t.id, v) for t, v in parts.items())))
            neg = tuple(sorted(((t.id, -v) for t, v in parts.items())))
            lo, hi, ne = None, None, set()
            eqv = None
            for p in _lits(pc):
                q = p
                pos = True
                if q.op == "not":
                    q = q.args[0]
                    pos = False
                if q.op not in ("eq0", "lt0"):
                    continue
                kk, pp = lin_parts(q.args[0])
                kq = tuple(sorted(((t.id, v) for t, v in pp.items())))
                if kq == key:
                    s = 1
                elif kq == neg:
                    s = -1
                else:
                    continue
                # let X = sum(parts); literal on s*X + kk
                if q.op == "eq0":
                    v = -kk * s
                    if pos:
                        eqv = v
                    else:
                        ne.add(v)
                else:
                    # s*X + kk < 0  (pos) or >= 0
                    if s == 1:
                        if pos:
                            b = -kk - 1
                            hi = b if hi is None else min(hi, b)
                        else:
                            b = -kk
                            lo = b if lo is None else max(lo, b)
                    else:
                        if pos:
                            b = kk + 1
                            lo = b if lo is None else max(lo, b)
                        else:
                            b = kk
                            hi = b if hi is None else min(hi, b)
            if eqv is not None:
                lo = hi = eqv
            if c.op == "eq0":
                v = -k
                if lo is not None and lo == hi:
                    return TRUE if lo == v else FALSE
                if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ne:
                    return FALSE
            else:
                if hi is not None and hi + k < 0:
                    return TRUE
                if lo is not None and lo + k >= 0:
                    return FALSE
    return c


def _lits(pc):
    for p in pc:
        if p.op == "and":
            for q in p.args:
                yield q
        else:
            yield p
