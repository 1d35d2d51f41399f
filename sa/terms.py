"""Hash-consed value-graph terms with affine and boolean normal forms (value numbering)."""
from math import gcd


class T:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _n[0]
        _n[0] += 1
        _tab[k] = t
    return t


def I(v):
    return mk("int", int(v))


ZERO = I(0)
ONE = I(1)
TRUE = mk("true")
FALSE = mk("false")
UNDEF = mk("undef")

BOOLOPS = {"true", "false", "eq0", "lt0", "not", "and", "or", "bcall"}


def is_int(t):
    return t.op == "int"


def lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    if t.op == "true":
        return 1, {}
    if t.op == "false":
        return 0, {}
    return 0, {t: 1}


def lin(const, parts):
    ps = tuple(sorted(((t, c) for t, c in parts.items() if c != 0), key=lambda p: p[0].id))
    if not ps:
        return I(const)
    if const == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return mk("lin", const, ps)


def add(a, b, sign=1):
    if a.op == "ite" and b.op == "int":
        return ite(a.args[0], add(a.args[1], b, sign), add(a.args[2], b, sign))
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    r = dict(pa)
    for t, c in pb.items():
        r[t] = r.get(t, 0) + sign * c
    return lin(ca + sign * cb, r)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 1:
        return a
    c, p = lin_parts(a)
    return lin(c * k, {t: x * k for t, x in p.items()})


def mul(a, b):
    if a.op == "int":
        return scale(b, a.args[0])
    if b.op == "int":
        return scale(a, b.args[0])
    # distribute over sums when one side is a single atom: keep products in a canonical order
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("mul", x, y)


def _multiple(a, k):
    c, p = lin_parts(a)
    return c % k == 0 and all(v % k == 0 for v in p.values())


def div(a, b):
    if b.op == "int" and b.args[0] != 0:
        k = b.args[0]
        if a.op == "int":
            q = abs(a.args[0]) // abs(k)
            return I(q if (a.args[0] >= 0) == (k > 0) else -q)
        if k == 1:
            return a
        if _multiple(a, k):
            c, p = lin_parts(a)
            return lin(c // k, {t: x // k for t, x in p.items()})
        # pull whole multiples out:  (k*x + r)/k = x + r/k   (non-negative operands)
        c, p = lin_parts(a)
        whole = {t: v // k for t, v in p.items() if v % k == 0}
        rest = {t: v for t, v in p.items() if v % k != 0}
        cw, cr = divmod(c, k)
        if whole or cw:
            return add(lin(cw, whole), div(lin(cr, rest), b))
        if a.op == "div" and a.args[1].op == "int":
            return div(a.args[0], I(a.args[1].args[0] * k))
    return mk("div", a, b)


def mod(a, b):
    if b.op == "int" and b.args[0] != 0:
        k = b.args[0]
        if a.op == "int":
            return I(a.args[0] % k)
        if k == 1:
            return ZERO
        c, p = lin_parts(a)
        r = lin(c % k, {t: v for t, v in p.items() if v % k != 0})
        if r.op == "int":
            return r
        # r mod k  =  r - k * (r div k)
        return sub(r, scale(div(r, b), k))
    return mk("mod", a, b)


def content(t):
    """the greatest common divisor of the coefficients of a linear term"""
    c, p = lin_parts(t)
    g = abs(c)
    for k in p.values():
        g = gcd(g, k)
    return g


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if a is TRUE:
        return Or(c, tobool(b))
    if b is FALSE:
        return And(c, tobool(a))
    if a is FALSE:
        return And(Not(c), tobool(b))
    if b is TRUE:
        return Or(Not(c), tobool(a))
    if c.op == "lt0" and a.op not in BOOLOPS and b.op not in BOOLOPS:
        x = c.args[0]
        d = sub(a, b)
        g = content(d)
        if g > 1:
            d = div(d, I(g))
        if x is d or x is add(d, I(-1)):
            return minmax("min", a, b)
        nd = scale(d, -1)
        if x is nd or x is add(nd, I(-1)):
            return minmax("max", a, b)
    if c.op == "eq0":
        cc, p = lin_parts(c.args[0])
        # ite(x==k, k, x) == x
        for (u, v) in ((a, b),):
            if sub(u, v).op != "int" and (sub(u, v) is c.args[0] or sub(v, u) is c.args[0]):
                return v
    return mk("ite", c, a, b)


def minmax(op, a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "int":
        if op == "min":
            return a if d.args[0] < 0 else b
        return b if d.args[0] < 0 else a
    (ca, pa), (cb, pb) = lin_parts(a), lin_parts(b)
    com = {t: k for t, k in pa.items() if pb.get(t) == k}
    if com:
        c = lin(0, com)
        return add(c, minmax(op, sub(a, c), sub(b, c)))
    g = gcd(content(a), content(b))
    if g > 1:
        return scale(minmax(op, div(a, I(g)), div(b, I(g))), g)
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk(op, x, y)


def made(x):
    """the address of something made during the evaluation (never null)"""
    return x.op == "addr" and root(x.args[0]).op in FRESH or x.op == "copyof" and len(x.args) > 2


def made_any(x):
    """an address, possibly with an offset or a choice, of something made during the evaluation"""
    if x.op == "ite":
        return made_any(x.args[1]) or made_any(x.args[2])
    return any(made(t) or t.op == "copyof" for t in lin_parts(x)[1])


def eq0(x):
    if x.op == "int":
        return TRUE if x.args[0] == 0 else FALSE
    if x.op in ("addr", "fn", "str"):
        return FALSE
    if x.op == "ite":
        return ite(x.args[0], eq0(x.args[1]), eq0(x.args[2]))
    if x.op in BOOLOPS:
        return Not(x)
    b = bittest(x)
    if b is not None:
        return Not(b)
    c, p = lin_parts(x)
    items = sorted(p.items(), key=lambda q: q[0].id)
    if len(items) == 1 and c == 0 and (items[0][0].op == "addr" or items[0][0].op == "copyof" and len(items[0][0].args) > 2):
        return FALSE
    if len(items) == 2 and c != 0:
        # cells of two distinct objects made during the evaluation
        (t1, k1), (t2, k2) = items
        if k1 == -k2 and t1.op == "addr" and t2.op == "addr" and root(t1.args[0]).op in FRESH and root(t2.args[0]).op in FRESH \
                and root(t1.args[0]) is not root(t2.args[0]):
            return FALSE
    if len(items) == 2 and c == 0:
        # difference of two distinct own objects
        (t1, k1), (t2, k2) = items
        if k1 == -k2 and t1.op == "addr" and t2.op == "addr" and distinct(t1.args[0], t2.args[0]):
            return FALSE
        if k1 == -k2 and t1.op == "fn" and t2.op == "fn":
            return FALSE
        for x_, y_ in ((t1, t2), (t2, t1)):
            # what existed beforehand does not designate an object made since
            if k1 == -k2 and made(x_) and (y_.op == "str" or y_.op == "init" and not any(s.op in FRESH for s in subterms(y_))):
                return FALSE
        if k1 == -k2 and t1.op == t2.op == "copyof" and made(t1) and made(t2):
            return FALSE
    if len(items) == 1 and items[0][0].op in BOOLOPS and items[0][1] in (1, -1):
        v = -c * items[0][1]
        if v == 1:
            return items[0][0]
        if v == 0:
            return Not(items[0][0])
        return FALSE
    if c > 0 and all(v > 0 and is_nonneg(t) for t, v in items) or c < 0 and all(v < 0 and is_nonneg(t) for t, v in items):
        return FALSE
    g = 0
    for _, v in items:
        g = gcd(g, abs(v))
    if g > 1:
        if c % g:
            return FALSE
        return eq0(lin(c // g, {t: v // g for t, v in items}))
    if items and items[0][1] < 0:
        x = scale(x, -1)
    return mk("eq0", x)


def bitwise(op, a, b):
    if op == "bxor":
        x, y = (a, b) if a.id < b.id else (b, a)
        return mk(op, x, y)
    xs = {}
    for t in (a, b):
        work = [t]
        while work:
            u = work.pop()
            if u.op == op:
                work += list(u.args)
            else:
                xs[u] = 1
    ks = sorted(xs, key=lambda u: u.id)
    if op == "band" and ZERO in xs:
        return ZERO
    if op == "bor":
        ks = [u for u in ks if u is not ZERO] or [ZERO]
    r = ks[0]
    for u in ks[1:]:
        r = mk(op, r, u)
    return r


def bittest(x):
    """(x != 0) as a bit test, or None"""
    while x.op == "trunc":
        x = x.args[1]
    if x.op == "ite":
        return None
    if x.op == "band":
        xs, work = [], [x]
        while work:
            u = work.pop()
            if u.op == "band":
                work += list(u.args)
            else:
                xs.append(u)
        for a in xs:
            b = None
            for u in xs:
                if u is not a:
                    b = u if b is None else bitwise("band", b, u)
            if b is None:
                continue
            m, w = a, None
            while m.op == "trunc":
                m, w = m.args[1], m.args[0]
            if m.op == "shl" and m.args[0] is ONE:
                return within(m.args[1], w, bit(b, m.args[1]))
            if m.op == "int" and m.args[0] > 0 and m.args[0] & (m.args[0] - 1) == 0:
                return bit(b, I(m.args[0].bit_length() - 1))
    if x.op == "shl" and x.args[0] is ONE:
        return TRUE
    c, p = lin_parts(x)
    if c == 0 and len(p) == 2:
        for t, k in p.items():
            if t.op == "div" and k == -2 and t.args[1] is not None and t.args[1].op == "int" and t.args[1].args[0] == 2 and p.get(t.args[0]) == 1:
                return bit(t.args[0], ZERO)
    return None


def within(k, size, b):
    """bit k of a value that was narrowed to size bytes"""
    if size is None or is_int(k) and k.args[0] < 8 * size:
        return b
    c, p = lin_parts(k)
    for t, n in p.items():
        if t.op == "div" and t.args[1].op == "int" and n == -t.args[1].args[0] and -n <= 8 * size and sub(k, scale(t, n)) is t.args[0]:
            return b
    return And(lt(k, I(8 * size)), b)


def bit(x, k):
    if x.op == "trunc":
        return within(k, x.args[0], bit(x.args[1], k))
    if x.op == "shr":
        return bit(x.args[0], add(x.args[1], k))
    if x.op == "div" and x.args[1].op == "int" and x.args[1].args[0] > 0 and x.args[1].args[0] & (x.args[1].args[0] - 1) == 0:
        return bit(x.args[0], add(k, I(x.args[1].args[0].bit_length() - 1)))
    if x.op == "int" and k.op == "int":
        return TRUE if (x.args[0] >> k.args[0]) & 1 else FALSE
    if x.op == "bnot":
        return Not(bit(x.args[0], k))
    if x.op == "int" and x.args[0] in (0, -1):
        return FALSE if x.args[0] == 0 else TRUE
    if x.op == "int" and x.args[0] > 0 and x.args[0] & (x.args[0] + 1) == 0:
        return lt(k, I(x.args[0].bit_length()))
    if x.op == "band":
        return And(bit(x.args[0], k), bit(x.args[1], k))
    if x.op == "bor":
        return Or(bit(x.args[0], k), bit(x.args[1], k))
    if x.op == "bxor":
        return Not(eq(bit(x.args[0], k), bit(x.args[1], k)))
    if x.op == "shl":
        return eq(x.args[1], k) if x.args[0] is ONE else And(le(x.args[1], k), bit(x.args[0], sub(k, x.args[1])))
    if x.op == "ite":
        return ite(x.args[0], bit(x.args[1], k), bit(x.args[2], k))
    return mk("bcall", "bit", x, k)


NONNEG = set()


def nonneg(t):
    """mark an atom as a value of unsigned type"""
    if t.op in ("init", "fldof", "call", "div", "min", "max"):
        NONNEG.add(t)
    return t


def distinct(l1, l2):
    if l1 is l2:
        return False
    own = ("var", "tmp", "heap", "glob", "obj")
    return root(l1).op in own and root(l2).op in own and root(l1) is not root(l2)


FRESH = ("heap", "var", "tmp")


def root(l):
    while l.op == "fld":
        l = l.args[0]
    return l


def lt0(x):
    if x.op == "int":
        return TRUE if x.args[0] < 0 else FALSE
    if x.op == "ite":
        return ite(x.args[0], lt0(x.args[1]), lt0(x.args[2]))
    c, p = lin_parts(x)
    items = sorted(p.items(), key=lambda q: q[0].id)
    if all(is_nonneg(t) for t in p):
        if c >= 0 and all(v > 0 for v in p.values()):
            return FALSE
        if c < 0 and all(v < 0 for v in p.values()):
            return TRUE
    g = 0
    for _, v in items:
        g = gcd(g, abs(v))
    if g > 1:
        c //= g
        p = {t: v // g for t, v in p.items()}
        x = lin(c, p)
        if len(p) == 1 and x.op == "ite":
            return lt0(x)
        items = sorted(p.items(), key=lambda q: q[0].id)
    if items[0][1] < 0:
        return Not(mk("lt0", lin(-c - 1, {t: -v for t, v in p.items()})))
    return mk("lt0", x)


def is_nonneg(t):
    if t in NONNEG:
        return True
    if t.op == "div" and t.args[1].op == "int":
        c, p = lin_parts(t.args[0])
        return c >= 0 and all(v > 0 and is_nonneg(u) for u, v in p.items())
    if t.op == "min" or t.op == "max":
        return all(x.op == "int" and x.args[0] >= 0 or is_nonneg(x) for x in t.args)
    if t.op == "ctr":
        return True
    return False


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return lt0(add(sub(a, b), I(-1)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op in BOOLOPS and b.op in BOOLOPS:
        if b is TRUE:
            return a
        if a is TRUE:
            return b
        if b is FALSE:
            return Not(a)
        if a is FALSE:
            return Not(b)
        x, y = (a, b) if a.id < b.id else (b, a)
        if x is Not(y):
            return FALSE
        return mk("bcall", "beq", x, y)
    if a.op == "ite" and (b.op in ("int",)):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (a.op in ("int",)):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and truth(x) and truth(y):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    return eq0(sub(a, b))


def truth(t):
    return t.op in BOOLOPS or t.op == "ite" and truth(t.args[1]) and truth(t.args[2])


def Not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return Or(*[Not(x) for x in c.args])
    if c.op == "or":
        return And(*[Not(x) for x in c.args])
    if c.op == "ite":
        return ite(c.args[0], Not(c.args[1]), Not(c.args[2]))
    return mk("not", c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def And(*cs):
    s = {}
    for c in _flat("and", cs):
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        s[c] = 1
    for c in s:
        if Not(c) in s:
            return FALSE
    l = sorted(s, key=lambda t: t.id)
    # absorption: a & (not a | b) -> a & b
    l2 = []
    for c in l:
        if c.op == "or":
            if any(x in s for x in c.args):
                continue
            r = [x for x in c.args if Not(x) not in s]
            if len(r) != len(c.args):
                return And(*([y for y in l if y is not c] + [Or(*r)]))
        l2.append(c)
    l = l2
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return mk("and", *l)


def Or(*cs):
    s = {}
    for c in _flat("or", cs):
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        s[c] = 1
    for c in s:
        if Not(c) in s:
            return TRUE
    l = sorted(s, key=lambda t: t.id)
    l2 = []
    for c in l:
        if c.op == "and":
            if any(x in s for x in c.args):
                continue
            r = [x for x in c.args if Not(x) not in s]
            if len(r) != len(c.args):
                return Or(*([y for y in l if y is not c] + [And(*r)]))
        l2.append(c)
    l = l2
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return mk("or", *l)


def tobool(t):
    if t.op in BOOLOPS:
        return t
    if t.op == "int":
        return FALSE if t.args[0] == 0 else TRUE
    if t.op == "ite":
        return ite(t.args[0], tobool(t.args[1]), tobool(t.args[2]))
    return Not(eq0(t))


# ------------------------------------------------------------------ locations / records
def addr(loc):
    if loc.op == "deref":
        return loc.args[0]
    if loc.op == "ite":
        return ite(loc.args[0], addr(loc.args[1]), addr(loc.args[2]))
    if loc.op == "fld" and loc.args[1].startswith("#"):
        return add(mk("addr", loc.args[0]), I(int(loc.args[1][1:])))
    return mk("addr", loc)


def inline_elems(p):
    """(storage location, const offset, rest) when p points into the storage of an inline array"""
    c, d = lin_parts(p)
    for t, k in d.items():
        if k == 1 and t.op == "addr" and t.args[0].op == "fld" and t.args[0].args[1] == "$e":
            q = dict(d)
            del q[t]
            return t.args[0], c, q
    return None


def deref(p):
    if p.op == "addr" or p.op == "lin":
        ie = inline_elems(p)
        if ie is not None and not ie[2]:
            return fld(ie[0], f"#{ie[1]}")
    if p.op == "addr":
        return p.args[0]
    if p.op == "ite":
        return ite(p.args[0], deref(p.args[1]), deref(p.args[2]))
    if p.op == "lin":
        # an index that is one of a few constants selects one of a few objects
        c, d = lin_parts(p)
        for t, k in d.items():
            if t.op == "ite" and (t.args[1].op == "int" or t.args[2].op == "int"):
                q = dict(d)
                del q[t]
                b = lin(c, q)
                return ite(t.args[0], deref(add(b, scale(t.args[1], k))), deref(add(b, scale(t.args[2], k))))
    return mk("deref", p)


def fld(loc, f):
    if loc.op == "ite":
        return ite(loc.args[0], fld(loc.args[1], f), fld(loc.args[2], f))
    return mk("fld", loc, f)


def init(loc):
    if loc.op == "ite":
        return ite(loc.args[0], init(loc.args[1]), init(loc.args[2]))
    return mk("init", loc)


def fldof(v, f):
    if v.op == "rec":
        for k, x in v.args[1]:
            if k == f:
                return x
        return fldof(v.args[0], f)
    if v.op == "init":
        return init(fld(v.args[0], f))
    if v.op == "ite":
        return ite(v.args[0], fldof(v.args[1], f), fldof(v.args[2], f))
    if v.op == "int" and v.args[0] == 0:
        return ZERO
    if v.op == "undef":
        return UNDEF
    return mk("fldof", v, f)


def rec(base, fields):
    if not fields:
        return base
    if base.op == "rec":
        d = dict(base.args[1])
        d.update(fields)
        fields = d
        base = base.args[0]
    return mk("rec", base, tuple(sorted(fields.items())))


def subterms(t, seen=None):
    """all sub-terms (ids unique)"""
    st = [t]
    seen = set() if seen is None else seen
    out = []
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.args)
    return out


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, memo=None):
    """rebuild t replacing terms in m through the normalising constructors"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ("int", "str"):
        return t
    a = [subst(x, m, memo) if isinstance(x, (T, tuple)) else x for x in t.args]
    r = rebuild(t.op, a)
    memo[t] = r
    return r


def popcount(x, w=64):
    """the number of set bits of a number of w bits; the low n bits of a byte, ~(~0 << n), are n"""
    if is_int(x) and x.args[0] >= 0:
        return I(bin(x.args[0]).count("1"))
    y = x
    while y.op == "band" and any(is_int(u) and u.args[0] & 255 == 255 for u in y.args) or y.op == "trunc":
        y = y.args[1] if y.op == "trunc" else [u for u in y.args if not (is_int(u) and u.args[0] & 255 == 255)][0]
    if y.op == "bnot" and y.args[0].op == "shl" and is_int(y.args[0].args[0]) and y.args[0].args[0].args[0] == -1:
        n = y.args[0].args[1]
        for t in lin_parts(n)[1]:
            if t.op == "div" and is_int(t.args[1]) and (c := t.args[1].args[0]) > 0:
                if any(c % b == 0 and mod(div(t.args[0], I(c // b)), I(b)) is n for b in (2, 4, 8)):
                    return n
    return mk("call", "std::popcount", x, I(w))


def rebuild(op, a):
    if op in ("min", "max"):
        return minmax(op, *a)
    if op == "lin":
        r = I(a[0])
        for x, c in a[1]:
            r = add(r, scale(x, c))
        return r
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "mod":
        return mod(*a)
    if op == "ite":
        return ite(*a)
    if op == "eq0":
        return eq0(a[0])
    if op == "lt0":
        return lt0(a[0])
    if op == "not":
        return Not(a[0])
    if op == "and":
        return And(*a)
    if op == "or":
        return Or(*a)
    if op == "addr":
        return addr(a[0])
    if op == "deref":
        return deref(a[0])
    if op == "fld":
        return fld(*a)
    if op == "init":
        return init(a[0])
    if op == "fldof":
        return fldof(*a)
    if op == "rec":
        return rec(a[0], dict(a[1]))
    if op == "bcall" and a[0] == "bit":
        return bit(a[1], a[2])
    if op in ("band", "bor"):
        return bitwise(op, *a)
    if op == "shl" and is_int(a[1]):
        return scale(a[0], 1 << a[1].args[0]) if 0 <= a[1].args[0] < 64 else mk(op, *a)
    if op == "bnot" and is_int(a[0]):
        return I(~a[0].args[0])
    if op == "trunc" and is_int(a[1]):
        return I(a[1].args[0] & ((1 << 8 * a[0]) - 1))
    if op == "call" and a[0] == "std::popcount":
        return popcount(a[1], a[2].args[0])
    if op == "bcall" and a[0] == "beq":
        return eq(a[1], a[2])
    return mk(op, *a)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 24:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o in ("true", "false", "undef"):
        return o
    if o == "lin":
        out = []
        for x, c in a[1]:
            out.append(s(x) if c == 1 else f"{c}*{s(x)}")
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if o == "ite":
        return f"({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if o == "fld":
        return f"{s(a[0])}.{a[1]}"
    if o == "deref":
        return f"*{s(a[0])}"
    if o == "addr":
        return f"&{s(a[0])}"
    if o == "init":
        return s(a[0])
    if o == "var":
        return f"{a[2]}"
    if o == "obj":
        return f"{a[0]}"
    if o == "sym":
        return f"{a[0]}"
    if o == "heap":
        return f"new#{a[0]}"
    if o == "tmp":
        return f"tmp#{a[0]}"
    if o == "glob":
        return f"::{a[0]}"
    if o == "fldof":
        return f"{s(a[0])}.{a[1]}"
    if o == "rec":
        return s(a[0]) + "{" + ", ".join(f"{k}={s(v)}" for k, v in a[1]) + "}"
    if o == "eq0":
        c, p = lin_parts(a[0])
        it = sorted(p.items(), key=lambda q: q[0].id)
        if len(it) == 1 and it[0][1] == 1:
            return f"({s(it[0][0])} == {-c})"
        if len(it) == 2 and it[0][1] == 1 and it[1][1] == -1 and c == 0:
            return f"({s(it[0][0])} == {s(it[1][0])})"
        return f"({s(a[0])} == 0)"
    if o == "lt0":
        return f"({s(a[0])} < 0)"
    if o == "not":
        return f"!{s(a[0])}"
    if o in ("and", "or"):
        return "(" + (" && " if o == "and" else " || ").join(s(x) for x in a) + ")"
    return f"{o}(" + ", ".join(s(x) for x in a) + ")"
