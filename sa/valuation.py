"""Diagnosis of an undischarged obligation: an assignment of integers to the leaves of the value graph (sizes, offsets,
pointers, stored bytes) under which every recorded fact holds and the obligation does not.

A report without such an assignment is not given (the obligation is then undecided): normal forms and linear entailment
are incomplete, and an obligation they cannot close is not for that reason false. The assignment is found by interval
propagation over the facts' linear constraints, choosing one alternative of each disjunction, and is then checked by
evaluating the facts and the obligation as they were recorded, exactly. Nothing of the library is executed.
"""
import random
import re
from .terms import *
from . import decide as D


COMPARISON = re.compile(r"operator(==|!=|<|>|<=|>=)$|equal$")


class No(Exception):
    pass


def indeterminate(x):
    """a symbolic position of a block made during the evaluation that no store was found to reach: it may hold anything"""
    c, p = lin_parts(x)
    return len(p) > 1 and sum(t.op == "addr" and t.args[0].op == "heap" for t in p) == 1 and not any(t.op in ("ite", "copyof") for t in p)


def cdiv(a, b):
    if b == 0:
        raise No("division by zero")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


class Env:
    def __init__(self, rng):
        self.v = {}      # key -> value
        self.rng = rng
        self.np = 0
        self.memo = {}
        self.over = {}   # inside a loop: its counter and what it carries
        self.pointers = ()
        self.unknown = set()   # results of comparisons that are not interpreted

    def key(self, l):
        o, a = l.op, l.args
        if o == "deref":
            return ("mem", self.ev(a[0]))
        if o == "fld":
            return ("f", self.key(a[0]), a[1])
        if o == "ite":
            return self.key(a[1] if self.ev(a[0]) else a[2])
        if o in ("var", "obj", "sym", "glob", "heap"):
            return l
        raise No("location " + o)

    def fresh_pointer(self):
        self.np += 1
        return (1 << 32) * self.np

    def leaf(self, k, t, pointer):
        if k not in self.v:
            if pointer:
                self.v[k] = self.fresh_pointer()
            else:
                self.v[k] = self.rng.choice((0, 1, 2, 3, 5, 8, 13, 170, 255))
        return self.v[k]

    def bits(self, t):
        """the value in a context where only its low bits count"""
        o, a = t.op, t.args
        if o == "trunc":
            return self.bits(a[1]) & ((1 << (8 * a[0])) - 1)
        if o == "bnot":
            return ~self.bits(a[0])
        if o in ("band", "bor", "bxor"):
            x, y = self.bits(a[0]), self.bits(a[1])
            return x & y if o == "band" else x | y if o == "bor" else x ^ y
        if o == "ite":
            return self.bits(a[1] if self.ev(a[0]) else a[2])
        if o in ("shl", "shr"):
            n = self.ev(a[1])
            if not 0 <= n < 64:
                raise No("shift")
            return self.bits(a[0]) << n if o == "shl" else self.bits(a[0]) >> n
        return self.ev(t)

    def loop(self, t):
        """what the iterations of a loop leave, by its recurrence"""
        i = t.args[0]
        ctr, cond, vs = D.LOOPS[i]
        cur = {v: self.ev(before) for v, before, linear, _ in vs if not linear}
        over, memo = self.over, self.memo
        try:
            for j in range(300):
                self.over = dict(over)
                self.over[ctr] = j
                for v, x in cur.items():
                    self.over[mk("phi", i, v)] = x
                self.memo = {}
                if not self.ev(cond):
                    break
                cur = {v: self.ev(nxt) for v, _, linear, nxt in vs if not linear}
            else:
                raise No("iterations")
        finally:
            self.over, self.memo = over, memo
        if t.op == "trip":
            return j
        if t.args[1] not in cur:
            raise No("value lout")
        return cur[t.args[1]]

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ev(t)
        return r

    def _ev(self, t):
        o, a = t.op, t.args
        ev = self.ev
        if o == "int":
            return a[0]
        if o == "true":
            return 1
        if o == "false":
            return 0
        if o == "lin":
            return a[0] + sum(c * ev(x) for x, c in a[1])
        if o == "mul":
            return ev(a[0]) * ev(a[1])
        if o == "div":
            return cdiv(ev(a[0]), ev(a[1]))
        if o == "mod":
            x, y = ev(a[0]), ev(a[1])
            return x - y * cdiv(x, y)
        if o == "ite":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if o == "min":
            return min(ev(a[0]), ev(a[1]))
        if o == "max":
            return max(ev(a[0]), ev(a[1]))
        if o == "eq0":
            return int(ev(a[0]) == 0)
        if o == "lt0":
            return int(ev(a[0]) < 0)
        if o == "not":
            return int(not ev(a[0]))
        if o == "and":
            return int(all(ev(x) for x in a))
        if o == "or":
            return int(any(ev(x) for x in a))
        if o == "bcall" and a[0] == "beq":
            return int(bool(ev(a[1])) == bool(ev(a[2])))
        if o == "bcall" and a[0] == "bit" and 0 <= ev(a[2]) < 64:
            return (self.bits(a[1]) >> ev(a[2])) & 1
        if o in ("band", "bor", "bxor", "shl", "shr"):
            return self.bits(t)
        if o == "call" and a[0] == "std::popcount":
            return bin(self.bits(a[1]) & ((1 << a[2].args[0]) - 1)).count("1")
        if t in self.over:
            return self.over[t]
        if o in ("lout", "trip") and a[0] in D.LOOPS:
            return self.loop(t)
        if o == "trunc":
            x = ev(a[1])
            if 0 <= x < 1 << (8 * a[0] - 1):
                return x
            r = x & ((1 << (8 * a[0])) - 1)
            if a[0] >= 4 or r >= 1 << (8 * a[0] - 1):
                raise No("narrowing")  # sizes fit their types; the signedness of the result is not recorded
            return r
        if o == "init":
            l = a[0]
            while l.op == "fld":
                l = l.args[0]
            if l.op == "deref" and made_any(l.args[0]) and not indeterminate(l.args[0]):
                raise No("a cell of something made during the evaluation")
            return self.leaf(("init", self.key(a[0])), t, t in self.pointers)
        if o in ("sym", "var"):
            return self.leaf(t, t, t in self.pointers)
        if o == "addr":
            k = ("addr", self.key(a[0]))
            if k not in self.v:
                self.v[k] = self.fresh_pointer()
            return self.v[k]
        if o in ("str", "fn"):
            if t not in self.v:
                self.v[t] = self.fresh_pointer()
            return self.v[t]
        if o == "call" and D.pure_call(t):
            return self.leaf(("call", a[0]) + tuple(self.ev(x) if isinstance(x, T) else x for x in a[1:]), t, False)
        if o == "call" and COMPARISON.search(str(a[0])):
            k = ("call", a[0]) + tuple(x.id if isinstance(x, T) else x for x in a[1:])
            if k not in self.v:
                self.v[k] = self.rng.randrange(2)
            self.unknown.add(k)
            return self.v[k]
        if o == "fldof":
            return self.leaf(("fldof", self.ev(a[0]), a[1]), t, t in self.pointers)
        raise No("value " + o)


LEAF = {"init", "sym", "var", "call", "addr", "fldof", "str", "fn"}


class Search:
    def __init__(self, rng):
        self.rng = rng
        self.cons = []
        self.bits = {}
        self.seen = set()
        self.lits = {}
        self.pins = {}

    def known(self, t):
        """what the choices so far say about a condition: True, False or None"""
        if t is TRUE or t is FALSE:
            return t is TRUE
        o, a = t.op, t.args
        r = self.lits.get(t)
        if r is not None:
            return r
        if o == "not":
            r = self.known(a[0])
            return None if r is None else not r
        if o in ("and", "or"):
            rs = [self.known(x) for x in a]
            if (o == "or") in rs:
                return o == "or"
            return None if None in rs else o == "and"
        if o == "ite":
            c = self.known(a[0])
            return None if c is None else self.known(a[1] if c else a[2])
        if o in ("eq0", "lt0"):
            c, p = lin_parts(a[0])
            for x, k in p.items():
                if x not in self.pins:
                    return None
                c += k * self.pins[x]
            return c == 0 if o == "eq0" else c < 0
        return None

    def assert_(self, t, val=True):
        """pick alternatives until only linear constraints and bit literals are left"""
        r = self.known(t)
        if r is not None:
            if r != val:
                raise No("choice")
            return
        if t.op in ("eq0", "lt0", "bcall"):
            self.lits[t] = val
            if t.op == "eq0" and val:
                c, p = lin_parts(t.args[0])
                if len(p) == 1:
                    (x, k), = p.items()
                    if c % k == 0:
                        self.pins[x] = -c // k
        if t is TRUE or t is FALSE:
            if (t is TRUE) != val:
                raise No("constant")
            return
        o, a = t.op, t.args
        if o == "not":
            return self.assert_(a[0], not val)
        if (o == "and") == val and o in ("and", "or"):
            for x in a:
                self.assert_(x, val)
            return
        if o in ("and", "or"):
            ks = [x for x in a if self.known(x) is None]
            if not ks:
                raise No("choice")
            return self.assert_(self.rng.choice(ks), val)
        if o == "ite":
            c = self.choose(a[0])
            self.assert_(a[0], c)
            return self.assert_(a[1] if c else a[2], val)
        if o == "lt0":
            c, p = lin_parts(a[0])
            if val:
                self.con(c + 1, p)
            else:
                self.con(-c, {k: -v for k, v in p.items()})
            return
        if o == "eq0":
            c, p = lin_parts(a[0])
            if val:
                self.con(c, p)
                self.con(-c, {k: -v for k, v in p.items()})
            elif self.rng.random() < 0.5:
                self.con(c + 1, p)
            else:
                self.con(-c + 1, {k: -v for k, v in p.items()})
            return
        if o == "bcall" and a[0] == "beq":
            c = self.rng.random() < 0.5
            self.assert_(a[1], c)
            return self.assert_(a[2], c == val)
        if o == "bcall" and a[0] == "bit":
            k = (a[1], a[2])
            if self.bits.setdefault(k, val) != val:
                raise No("bit")
            self.atoms(a[1])
            self.atoms(a[2])
            return
        # a boolean value read from memory
        if o == "call" and COMPARISON.search(str(a[0])):
            return
        self.assert_(eq0(t), not val) if o in LEAF else self.fail(o)

    def choose(self, c):
        r = self.known(c)
        return self.rng.random() < 0.5 if r is None else r

    def fail(self, o):
        raise No("literal " + o)

    def con(self, c, p):
        if abs(c) >= D.BIG:
            return
        self.cons.append((c, p))
        for t in p:
            self.atom(t)

    def atoms(self, t):
        for u in lin_parts(t)[1]:
            self.atom(u)

    def atom(self, t):
        if t in self.seen:
            return
        self.seen.add(t)
        o, a = t.op, t.args
        if o == "ite":
            c = self.choose(a[0])
            self.assert_(a[0], c)
            self.assert_(eq0(sub(t, a[1] if c else a[2])) if a[1].op not in BOOLOPS else TRUE)
        elif o in ("min", "max"):
            i = self.rng.randrange(2)
            x, y = a[i], a[1 - i]
            self.con(*self.diff(t, x))
            self.con(*self.diff(x, t))
            self.con(*(self.diff(x, y) if o == "min" else self.diff(y, x)))
        elif o == "div":
            for c, p in D.atom_facts(t):
                self.con(c, p)
            self.atoms(a[0])
        elif o == "trunc":
            k = self.rng.choice((0, 0, 1, 2)) if a[0] < 4 else 0
            self.con(-1 * ((1 << (8 * a[0] - 1)) - 1), {t: 1})
            self.con(0, {t: -1})
            self.assert_(eq0(sub(sub(a[1], t), I(k << (8 * a[0])))))
        elif t.op in BOOLOPS:
            c = self.rng.random() < 0.5
            self.assert_(t, c)
            self.con(-int(c), {t: 1})
            self.con(int(c), {t: -1})
        elif o == "init":
            self.loc(a[0])

    def loc(self, l):
        while l.op == "fld":
            l = l.args[0]
        if l.op == "deref":
            self.atoms(l.args[0])

    def diff(self, x, y):
        """x - y <= 0"""
        return lin_parts(sub(x, y))

    def solve(self, pointers):
        """values for the atoms by interval propagation and labelling; None when a chosen labelling fails"""
        dom = {t: [(0 if is_nonneg(t) else -(1 << 45)), 1 << 45] for t in self.seen}
        byvar = {}
        for i, (c, p) in enumerate(self.cons):
            for t in p:
                byvar.setdefault(t, []).append(i)
        val = {}
        budget = [4000]

        def prop(work):
            while work:
                budget[0] -= 1
                if budget[0] < 0:
                    raise No("budget")
                i = work.pop()
                c, p = self.cons[i]
                lo = c + sum((v * dom[t][0] if v > 0 else v * dom[t][1]) for t, v in p.items())
                if lo > 0:
                    raise No("infeasible")
                for t, v in p.items():
                    d = dom[t]
                    rest = lo - (v * d[0] if v > 0 else v * d[1])
                    ch = False
                    if v > 0:
                        hi = (-rest) // v
                        if hi < d[1]:
                            d[1] = hi
                            ch = True
                    else:
                        l2 = -((-rest) // (-v))
                        if l2 > d[0]:
                            d[0] = l2
                            ch = True
                    if d[0] > d[1]:
                        raise No("empty")
                    if ch:
                        work.update(byvar[t])
                        lo = c + sum((w * dom[u][0] if w > 0 else w * dom[u][1]) for u, w in p.items())
        prop(set(range(len(self.cons))))
        np = 0
        order = [t for t in self.seen]
        self.rng.shuffle(order)
        # leaves first: derived atoms follow from them
        order.sort(key=lambda t: (t.op not in LEAF, dom[t][1] - dom[t][0]))
        for t in order:
            lo, hi = dom[t]
            if lo == hi:
                continue
            r = self.rng
            if t in pointers:
                np += 1
                c = (1 << 32) * (np + 100)
                if not lo <= c <= hi:
                    c = lo
            else:
                base = lo if lo > -(1 << 40) else (0 if lo <= 0 <= hi else hi)
                c = r.choice((base, base + 1, base + 2, base + r.randrange(12), base + r.randrange(40), hi if hi < (1 << 30) else base + 9, base - 1, base + 8 * r.randrange(5)))
                c = max(lo, min(hi, c))
            dom[t] = [c, c]
            prop(set(byvar.get(t, ())))
        return {t: dom[t][0] for t in dom}


def depth_of(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = memo[t] = 1 + max([depth_of(x) for x in t.args if isinstance(x, T)] + [depth_of(x) for y in t.args if isinstance(y, tuple) for z in y for x in (z if isinstance(z, tuple) else (z,)) if isinstance(x, T)] + [0])
    return r


def pointers_of(ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "deref":
                c, p = lin_parts(x.args[0])
                for u, k in p.items():
                    if k == 1 and u.op in LEAF:
                        out.add(u)
    # an index into memory is not a pointer: keep the leaf of the sum that is itself only used so
    idx = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "deref":
                c, p = lin_parts(x.args[0])
                cand = [u for u, k in p.items() if k == 1 and u.op in LEAF]
                if len(cand) > 1:
                    idx.update(u for u in cand if is_nonneg(u))
    return out - idx


def falsifies(e, goal, pc, leaf=FALSE, leaf_pc=()):
    for x in list(pc) + list(leaf_pc):
        if not e.ev(x):
            raise No("fact " + str(x)[:90])
    if e.ev(goal) or e.ev(leaf):
        raise No("goal holds")


def find(goal, pc, leaf, leaf_pc, tries=400, seed=1):
    """-> {leaf term: value} falsifying the goal under the facts, or None"""
    rng = random.Random(seed)
    ps = pointers_of(list(pc) + [goal, leaf] + list(leaf_pc))
    budget = tries
    base = None
    while budget > 0:
        budget -= 1
        s = Search(rng)
        try:
            if budget % 3:
                for x in leaf_pc:
                    s.assert_(x)
                s.assert_(leaf, False)
            if budget % 3 != 1:
                for x in pc:
                    s.assert_(x)
            if budget % 3 == 0:
                s.assert_(goal, False)
            vals = s.solve(ps)
            e = Env(rng)
            e.pointers = ps
            for t in sorted((t for t in vals if t.op in LEAF), key=depth_of):
                k = ("init", e.key(t.args[0])) if t.op == "init" else (("addr", e.key(t.args[0])) if t.op == "addr" else (("call", t.args[0]) + tuple(e.ev(x) if isinstance(x, T) else x for x in t.args[1:]) if t.op == "call" else (("fldof", e.ev(t.args[0]), t.args[1]) if t.op == "fldof" else t)))
                if e.v.setdefault(k, vals[t]) != vals[t]:
                    raise No("congruence")
                e.memo.clear()
            for (x, k), b in sorted(s.bits.items(), key=lambda q: q[0][0].id):
                if x.op != "init":
                    continue   # left to the check
                kk = ("init", e.key(x.args[0]))
                n = e.ev(k)
                m = e.leaf(kk, x, False)
                e.v[kk] = (m | (1 << n)) if b else (m & ~(1 << n))
                e.memo.clear()
            falsifies(e, goal, pc, leaf, leaf_pc)
            ks = sorted(e.unknown, key=str)
            if ks:   # whatever these comparisons give
                if len(ks) > 4:
                    raise No("comparisons")
                for n in range(1 << len(ks)):
                    e.memo.clear()
                    for i, k in enumerate(ks):
                        e.v[k] = n >> i & 1
                    falsifies(e, goal, pc)
            return {t: e.ev(t) for t in subterms(goal) if t.op in ("init", "sym", "var") and t in e.memo and t not in ps}
        except No as x:
            find.last = x
            continue
        except (OverflowError, ValueError, RecursionError):
            continue
    return None
