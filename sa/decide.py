"""Entailment between linear facts over value-graph atoms (Fourier-Motzkin elimination with integer tightening) plus
case analysis over gated joins. Used to discharge the obligations that normal forms alone do not close."""
from math import gcd
from .terms import *

BIG = 1 << 50
UNKNOWN_OPS = {"unk", "after", "rloc", "lout", "phi", "trip", "clos", "undef", "icall", "tmp", "retloc", "un", "bin", "typeid"}
MAXC = 400


def literals(fs):
    """flatten conjunctions"""
    out = []
    st = list(fs)
    while st:
        f = st.pop()
        if f.op == "and":
            st.extend(f.args)
        elif f is TRUE:
            continue
        else:
            out.append(f)
    return out


def norm_con(c, p):
    g = 0
    for v in p.values():
        g = gcd(g, v)
    if g > 1:
        # sum p + c <= 0  ->  sum p/g <= floor(-c/g)
        p = {k: v // g for k, v in p.items()}
        c = -((-c) // g)
    return c, p


_CON = {}


def con(c, p):
    """normalised constraint sum p + c <= 0, one object per constraint"""
    c, p = norm_con(c, p)
    k = (c, frozenset(p.items()))
    r = _CON.get(k)
    if r is None:
        r = _CON[k] = (c, p)
    return r


def lin_lit(l):
    """literal -> list of (const, parts) meaning parts + const <= 0, or None; ('ne', ...) for disequalities"""
    neg = l.op == "not"
    a = l.args[0] if neg else l
    if a.op == "lt0":
        c, p = lin_parts(a.args[0])
        if not neg:
            return [(c + 1, p)]
        return [(-c, {k: -v for k, v in p.items()})]
    if a.op == "eq0":
        c, p = lin_parts(a.args[0])
        if not neg:
            return [(c, p), (-c, {k: -v for k, v in p.items()})]
        return ("ne", c, p)
    return None


class Facts:
    def __init__(self, fs):
        self.cons = []
        self.ne = []
        self.atoms = set()
        self.clauses = []
        self.bad = False
        self.memo = {}
        for l in literals(fs):
            self.add(l)

    def add(self, l):
        if l is FALSE:
            self.bad = True
            return
        if l is TRUE:
            return
        r = lin_lit(l)
        if r is None:
            if l.op == "or":
                self.clauses.append(l)
            elif l.op == "ite":
                self.clauses.append(l)
            else:
                if Not(l) in self.atoms:
                    self.bad = True
                self.atoms.add(l)
                # equal truth values
                if l.op == "bcall" and l.args[0] == "beq":
                    self.clauses.append(l)
            return
        if isinstance(r, tuple):
            self.ne.append((r[1], r[2]))
            return
        for c, p in r:
            if abs(c) >= BIG:
                continue
            self.cons.append(con(c, p))


_AF = {}


def atom_facts(t):
    r = _AF.get(t)
    if r is None:
        r = _AF[t] = [con(c, p) for c, p in _atom_facts(t) if abs(c) < BIG]
    return r


def _atom_facts(t):
    """definitional inequalities of an atom"""
    if t.op == "div" and t.args[1].op == "int" and t.args[1].args[0] > 0:
        k = t.args[1].args[0]
        x = t.args[0]
        c, p = lin_parts(x)
        a = dict(p)
        a[t] = a.get(t, 0) - k  # x - k*d >= 0  ;  x - k*d <= k-1
        return [(-c, {u: -v for u, v in a.items()}), (c - (k - 1), a)]
    if t.op in ("min", "max"):
        out = []
        for y in t.args:
            c, p = lin_parts(y)
            a = dict(p)
            a[t] = a.get(t, 0) - 1
            if t.op == "min":  # t <= y : t - y <= 0
                out.append((-c, {u: -v for u, v in a.items()}))
            else:
                out.append((c, a))
        return out
    return []


_INF = {}


def infeasible(cons):
    k = frozenset(map(id, cons))
    r = _INF.get(k)
    if r is None:
        if len(_INF) > 400000:
            _INF.clear()
        r = _INF[k] = (_infeasible(cons), tuple(cons))   # the constraints are kept, so that their identities stay theirs
    return r[0]


def _infeasible(cons):
    """is the conjunction of linear constraints unsatisfiable?"""
    cons = list(cons)
    seen_atoms = set()
    work = [t for c, p in cons for t in p]
    while work:
        t = work.pop()
        if t in seen_atoms:
            continue
        seen_atoms.add(t)
        for q in atom_facts(t):
            cons.append(q)
            work.extend(q[1])
        if is_nonneg(t):
            cons.append((0, {t: -1}))
        if t.op in BOOLOPS:
            cons.append((-1, {t: 1}))
            cons.append((0, {t: -1}))
    return fm(cons)


_FM = {}
STAT = [0, 0]


def fm(cons):
    S = set()
    for c, p in cons:
        if not p:
            if c > 0:
                return True
            continue
        S.add((c, tuple(sorted(((k.id, v) for k, v in p.items() if v)))))
    S = tighten(S)
    key = frozenset(S)
    r = _FM.get(key)
    STAT[0] += 1
    if r is None:
        STAT[1] += 1
        if len(_FM) > 400000:
            _FM.clear()
        r = _FM[key] = _fm(S)
    return r


def _fm(S):
    for c, p in S:
        if not p and c > 0:
            return True
    while True:
        S = {x for x in S if x[1]}
        if not S:
            return False
        cnt = {}
        for c, p in S:
            for k, v in p:
                a = cnt.setdefault(k, [0, 0, 0])
                a[0 if v > 0 else 1] += 1
                if v not in (1, -1):
                    a[2] = 1
        # cheapest variable
        # (a variable whose coefficients are units is eliminated exactly)
        k = min(cnt, key=lambda q: (cnt[q][0] * cnt[q][1] - cnt[q][0] - cnt[q][1] + 12 * cnt[q][2], q))
        pos = [(c, dict(p)) for c, p in S if dict(p).get(k, 0) > 0]
        negs = [(c, dict(p)) for c, p in S if dict(p).get(k, 0) < 0]
        rest = {x for x in S if not any(q == k for q, _ in x[1])}
        if len(pos) * len(negs) > MAXC * 4:
            return False
        for c1, p1 in pos:
            a = p1[k]
            for c2, p2 in negs:
                b = -p2[k]
                c = c1 * b + c2 * a
                p = {}
                for q, v in p1.items():
                    p[q] = p.get(q, 0) + v * b
                for q, v in p2.items():
                    p[q] = p.get(q, 0) + v * a
                p = {q: v for q, v in p.items() if v}
                c, p = norm_con(c, p)
                if not p:
                    if c > 0:
                        return True
                    continue
                rest.add((c, tuple(sorted(p.items()))))
        S = tighten(rest)
        if len(S) > MAXC:
            return False


def tighten(S):
    best = {}
    for c, p in S:
        if p not in best or best[p] < c:
            best[p] = c
    return {(c, p) for p, c in best.items()}


def relevant(cons, goal_atoms):
    """connected component of the constraints around the goal's atoms"""
    atoms = set(goal_atoms)
    left = list(cons)
    out = []
    ch = True

    def close(ts):
        w = list(ts)
        while w:
            t = w.pop()
            for c, p in atom_facts(t):
                for u in p:
                    if u not in atoms:
                        atoms.add(u)
                        w.append(u)
    close(list(atoms))
    while ch:
        ch = False
        nl = []
        for c, p in left:
            if any(t in atoms for t in p):
                out.append((c, p))
                for t in p:
                    if t not in atoms:
                        atoms.add(t)
                        close([t])
                        ch = True
            else:
                nl.append((c, p))
        left = nl
    return out


def lits_of(t):
    return literals([t])


def entails(fs, lit, depth=2):
    """do the facts imply the literal? (incomplete: False means not shown)"""
    if lit is TRUE:
        return True
    F = fs if isinstance(fs, Facts) else Facts(fs)
    if F.bad:
        return True
    if lit in F.atoms:
        return True
    if lit.op == "and":
        return all(entails(F, x, depth) for x in lit.args)
    k = (lit, depth)
    r = F.memo.get(k)
    if r is None:
        r = F.memo[k] = contradictory_with(F, [Not(x) for x in lit.args] if lit.op == "or" else [Not(lit)], depth)
    return r


_FACTS = {}


def facts_of(pc):
    k = frozenset(pc)
    F = _FACTS.get(k)
    if F is None:
        if len(_FACTS) > 20000:
            _FACTS.clear()
        F = _FACTS[k] = Facts(pc)
    return F


def contradictory_with(F, extra, depth=2):
    G = Facts([])
    G.cons = list(F.cons)
    G.ne = list(F.ne)
    G.atoms = set(F.atoms)
    G.clauses = list(F.clauses)
    G.bad = F.bad
    goal_atoms = set()
    for x in literals(extra):
        n0, m0 = len(G.cons), len(G.ne)
        G.add(x)
        for c, p in G.cons[n0:]:
            goal_atoms |= set(p)
        for c, p in G.ne[m0:]:
            goal_atoms |= set(p)
    if G.bad:
        return True
    return contradictory(G, goal_atoms, depth)


def contradictory(G, goal_atoms, depth):
    if G.bad:
        return True
    for a in G.atoms:
        if Not(a) in G.atoms:
            return True
    cons = relevant(G.cons, goal_atoms) if goal_atoms else G.cons
    if infeasible(cons):
        return True
    # a disequality whose negation is forced
    near = set(goal_atoms)
    for c, p in cons:
        near.update(p)
    for c, p in G.ne:
        for t in p:
            if t.op == "div" and any(u in near for u in subterms(t)):
                near.add(t)
        if goal_atoms and not any(t in near for t in p):
            continue
        a = cons + [con(c + 1, p)]
        if infeasible(a):
            b = cons + [con(-c + 1, {k: -v for k, v in p.items()})]
            if infeasible(b):
                return True
    if depth <= 0:
        return False
    # clauses
    for i, cl in enumerate(G.clauses):
        if cl.op == "or":
            alts = [lits_of(x) for x in cl.args]
        elif cl.op == "ite":
            alts = [lits_of(And(cl.args[0], cl.args[1])), lits_of(And(Not(cl.args[0]), cl.args[2]))]
        elif cl.op == "bcall":
            a, b = cl.args[1], cl.args[2]
            alts = [lits_of(And(a, b)), lits_of(And(Not(a), Not(b)))]
        else:
            continue
        if goal_atoms:
            at = set()
            for x in alts:
                for l in x:
                    r = lin_lit(l)
                    if isinstance(r, tuple):
                        at |= set(r[2])
                    elif r:
                        for c, p in r:
                            at |= set(p)
                    else:
                        at.add(l)
            if not (at & goal_atoms) and not any(l in G.atoms or Not(l) in G.atoms for l in at):
                continue
        ok = True
        for x in alts:
            H = Facts([])
            H.cons = list(G.cons)
            H.ne = list(G.ne)
            H.atoms = set(G.atoms)
            H.clauses = G.clauses[:i] + G.clauses[i + 1:]
            ga = set(goal_atoms)
            for l in x:
                n0 = len(H.cons)
                H.add(l)
                for c, p in H.cons[n0:]:
                    ga |= set(p)
            if not contradictory(H, ga, depth - 1):
                ok = False
                break
        if ok:
            return True
    return False


def has_div(t):
    return contains(t, lambda u: u.op == "div")


def split_point(t):
    """an undecided condition the value of t is gated on"""
    best = None
    hard = None
    for x in subterms(t):
        if x.op == "ite":
            c = x.args[0]
            if contains(c, lambda u: u.op == "ite" and u is not x):
                continue
            if contains(c, lambda u: u.op == "div"):
                hard = hard or c
                continue
            return c
        if x.op in ("min", "max"):
            best = best or lt(x.args[0], x.args[1])
    return best or hard


def bool_atom(t):
    """a literal inside a compound side of an equivalence"""
    for x in subterms(t):
        if x.op == "bcall" and x.args[0] == "beq":
            for s in x.args[1:]:
                if s.op in ("lt0", "eq0"):
                    return s
                if s.op == "not" and s.args[0].op in ("lt0", "eq0"):
                    return s.args[0]
                if s.op in ("or", "and"):
                    for y in subterms(s):
                        if y.op in ("lt0", "eq0", "bcall", "init") and y is not s and (y.op != "bcall" or y.args[0] != "beq") and not (y.op == "init"):
                            return y
    return None


def refine(t, c, val, pc):
    """t under the assumption c == val"""
    m = {c: TRUE if val else FALSE}
    n = Not(c)
    if n.op != "not" or True:
        m[n] = FALSE if val else TRUE
    t = subst(t, m)
    # min/max decided by c
    for x in subterms(t):
        if x.op in ("min", "max"):
            d = lt(x.args[0], x.args[1])
            if d is c or d is n:
                a_less = (d is c) == val
                pick = x.args[0] if (a_less == (x.op == "min")) else x.args[1]
                t = subst(t, {x: pick})
                break
    return t


def simplify(t, fs, pool=()):
    """resolve integer divisions whose quotient the facts determine"""
    F = facts_of(fs)
    for _ in range(4):
        ch = False
        for x in subterms(t):
            if x.op == "div" and x.args[1].op == "int" and x.args[1].args[0] > 1:
                k = x.args[1].args[0]
                for q in (0, 1):
                    if entails(F, And(Not(lt0(sub(x.args[0], I(q * k)))), lt0(sub(x.args[0], I((q + 1) * k)))), 1):
                        t = subst(t, {x: I(q)})
                        ch = True
                        break
                if ch:
                    break
        if ch:
            continue
        mine = {x for x in subterms(t) if x.op == "div" and x.args[1].op == "int"}
        ds = sorted(mine | set(pool), key=lambda x: x.id)
        for i, x in enumerate(ds):
            if x not in mine:
                continue
            for y in ds[:i]:
                if x.args[1] is y.args[1] and sub(x.args[0], y.args[0]).op != "int":
                    for d in (0, 1, -1):
                        if entails(F, eq0(sub(x, add(y, I(d)))), 0):
                            t = subst(t, {x: add(y, I(d))})
                            ch = True
                            break
                if ch:
                    break
            if ch:
                break
        if not ch:
            break
    return t


def congruent(goal, pc, F):
    """reads of the same memory: two loads (or bit tests) whose addresses the facts equate become one term"""
    seen = {}
    for t in [goal] + [q for q in pc if q.op in ("bcall", "not", "or", "and")]:
        for x in subterms(t):
            if x.op == "init" and x.args[0].op == "deref" or x.op == "bcall" and x.args[0] == "bit":
                seen[x] = 1
    mine = {x for x in subterms(goal)}
    ls = sorted(seen, key=lambda x: x.id)
    if len(ls) > 24:
        return None, pc

    def same(a, b):
        if a is b:
            return True
        d = sub(a, b)
        return d.op != "int" and entails(F, eq0(d), 0)

    for i, x in enumerate(ls):
        for y in ls[:i]:
            if x.op != y.op or not (x in mine or y in mine):
                continue
            if x.op == "init":
                ok = same(x.args[0].args[0], y.args[0].args[0])
            else:
                u, v = x.args[1], y.args[1]
                ok = same(x.args[2], y.args[2]) and (u is v or u.op == v.op == "init" and u.args[0].op == v.args[0].op == "deref" and
                                                     same(u.args[0].args[0], v.args[0].args[0]))
            if ok:
                m = {x: y}
                return subst(goal, m), [subst(q, m) for q in pc]
    return None, pc


class Result:
    def __init__(self, status, leaf=None, facts=None):
        self.status, self.leaf, self.facts = status, leaf, facts
        self.model = ""

    def __repr__(self):
        return self.status + (f": {self.leaf}" if self.leaf is not None else "")


def prove(goal, pc):
    """proved / refuted (with the values of the leaves that falsify it) / unknown"""
    from . import valuation
    goal, pc = counted(popcounts(goal)), [counted(popcounts(p)) for p in pc]
    r = _prove(goal, pc)
    if r.status != "proved" and r.leaf is not None:
        m = valuation.find(goal, pc, r.leaf, r.facts, 400 if r.status == "refuted" else 150)
        if m is None:
            return Result("unknown", r.leaf, r.facts)
        r = Result("refuted", r.leaf, r.facts)
        r.model = ", ".join(f"{k}={v}" for k, v in sorted(m.items(), key=lambda q: q[0].id)[:14])
    return r


def counted(t):
    """truth values in arithmetic are 0 or 1"""
    r = _COUNTED.get(t)
    if r is None:
        u, r = None, t
        for _ in range(4):
            u, r = r, counted_once(r)
            if r is u:
                break
        if len(_COUNTED) > 200000:
            _COUNTED.clear()
        _COUNTED[t] = r
    return r


_COUNTED = {}


def popcounts(t):
    """the number of set bits of a byte outside of a loop is the sum of its bits"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0] == "std::popcount" and x.args[2].args[0] <= 16 and not contains(x.args[1], lambda u: u.op in ("ctr", "phi", "call", "shl", "ite")):
            s = ZERO
            for j in range(x.args[2].args[0]):
                b = bit(x.args[1], I(j))
                s = add(s, ONE if b is TRUE else ZERO if b is FALSE else b)
            m[x] = s
    return subst(t, m) if m else t


def counted_once(t):
    m = {}
    for x in subterms(t):
        if x.op in ("lt0", "eq0"):
            c, p = lin_parts(x.args[0])
            if len(p) > 4 and any(y.op == "not" and y.args[0].op in BOOLOPS for y in p):
                r = I(c)
                for y, n in p.items():
                    r = add(r, scale(sub(ONE, y.args[0]) if y.op == "not" and y.args[0].op in BOOLOPS else y, n))
                m[x] = lt0(r) if x.op == "lt0" else eq0(r)
                continue
            p = lin_parts(x.args[0])[1]
            bs = [y for y in p if y.op in BOOLOPS]
            if 0 < len(bs) <= 4:
                m[x] = per_truth(x.op, x.args[0], bs)
    return subst(t, m) if m else t


def per_truth(op, v, bs):
    if not bs:
        return lt0(v) if op == "lt0" else eq0(v)
    y, n = bs[0], lin_parts(v)[1].get(bs[0], 0)
    r = sub(v, scale(y, n))
    a, b = per_truth(op, add(r, I(n)), bs[1:]), per_truth(op, r, bs[1:])
    return Or(And(y, a), And(Not(y), b))


def solved(pc):
    """a parameter that a fact equates with a linear term over other atoms"""
    for p in literals(pc):
        if p.op != "eq0":
            continue
        c, q = lin_parts(p.args[0])
        for x, k in q.items():
            if k in (1, -1) and (x.op == "var" or x.op == "init" and x.args[0].op == "obj"):
                v = lin(-k * c, {y: -k * n for y, n in q.items() if y is not x})
                if not contains(v, lambda u: u is x):
                    return {x: v}
    return None


LOOPS = {}     # the loops of the law at hand: id -> (counter, condition, ((variable, before, linear, next), ...))


def same_results(goal, pc, budget):
    """two loops whose iterations compute the same from the same: their results become one term"""
    ls = {}
    for x in subterms(goal):
        if x.op == "lout" and x.args[0] in LOOPS:
            ls.setdefault(x.args[0], []).append(x)
    ids = sorted(ls)
    for n, b in enumerate(ids):
        for a in ids[:n]:
            m = related(a, b, pc, budget)
            if m:
                g2 = subst(goal, {x: mk("lout", a, m[x.args[1]]) for x in ls[b] if x.args[1] in m})
                if g2 is not goal:
                    return g2
    return None


def related(a, b, pc, budget):
    (ca, wa, va), (cb, wb, vb) = LOOPS[a], LOOPS[b]
    if len(va) != len(vb) or len(va) > 4 or any(x[2] != y[2] for x, y in zip(va, vb)):
        return None
    ren = {cb: ca}
    for (k, *_), (l, *_) in zip(va, vb):
        ren[mk("phi", b, l)] = mk("phi", a, k)
    if subst(wb, ren) is not wa or any(sub(x[1], y[1]) is not ZERO for x, y in zip(va, vb)):
        return None
    inside = list(pc) + [wa, le(ZERO, ca)]
    for x, y in zip(va, vb):
        u, v = x[3], subst(y[3], ren)
        if u is not v and _prove(eq(u, v), inside, 9, [200]).status != "proved":
            return None
    return {y[0]: x[0] for x, y in zip(va, vb)}


def alternative(pc, F, goal):
    """(a condition the facts leave open, and on which a disjunction among them depends; the settled ones and their values)"""
    about = {x for x in subterms(goal) if x.op in ("init", "div", "call", "var")}
    seen = {}
    for p in pc:
        if p.op in ("or", "and"):
            for x in subterms(p):
                if arithmetic(x):
                    seen.setdefault(x, 1)
    known, free = {}, []
    for x in list(seen)[:24]:
        if x.op == "not":
            continue
        if entails(F, x, 0):
            known[x] = TRUE
        elif entails(F, Not(x), 0):
            known[x] = FALSE
        else:
            free.append(x)
    inside = set(subterms(goal))
    free.sort(key=lambda x: (abs(lin_parts(x.args[0])[0]) >= 1 << 40, x not in inside, not any(t in about for t in subterms(x)), x.op != "eq0"))
    return (free[0] if free else None), known


def arithmetic(g):
    g = g.args[0] if g.op == "not" else g
    return g.op in ("lt0", "eq0") and not contains(g, lambda x: x.op == "ite")


def _prove(goal, pc, depth=9, budget=None):
    """proved / refuted (a case is consistent with the facts and contradicts the goal) / unknown"""
    budget = budget if budget is not None else [300]
    budget[0] -= 1
    if goal is TRUE:
        return Result("proved")
    pc = [counted(p) for p in pc]
    if budget[0] <= 0:
        return Result("unknown", goal, pc)
    if goal.op == "and":
        r = Result("proved")
        for g in goal.args:
            x = _prove(g, pc, depth, budget)
            if x.status == "refuted":
                return x
            if x.status == "unknown":
                r = x
        return r
    F = facts_of(pc)
    if F.bad or entails(F, goal):
        return Result("proved")
    if goal.op == "or":
        # one of several: the others may be supposed false
        ar = [g for g in goal.args if arithmetic(g)]
        if ar and len(ar) < len(goal.args):
            return _prove(Or(*[g for g in goal.args if not arithmetic(g)]), list(pc) + [Not(g) for g in ar], depth, budget)
    m = solved(pc)
    if m:
        return _prove(subst(goal, m), [q for q in (subst(p, m) for p in pc) if q is not TRUE], depth, budget)
    known = {}
    for p in literals(pc):
        if p.op in ("or", "bcall"):
            known[p] = TRUE
        elif p.op == "not" and p.args[0].op in ("or", "bcall"):
            known[p.args[0]] = FALSE
    if known:
        inside = set(subterms(goal))
        known = {k: v for k, v in known.items() if k in inside and k is not goal}
        if known:
            g2 = subst(goal, known)
            if g2 is not goal:
                return _prove(g2, pc, depth, budget)
    if depth > 0:
        c = split_point(goal)
        if c is not None and contains(c, lambda u: u.op == "div"):
            g2 = simplify(goal, pc)
            if g2 is not goal:
                return _prove(g2, pc, depth, budget)
        if c is not None:
            out = Result("proved")
            for v in (True, False):
                lit = c if v else Not(c)
                if entails(F, Not(lit), 1):
                    continue
                pc2 = [refine(p, c, v, pc) for p in pc] + [lit]
                x = _prove(refine(goal, c, v, pc), pc2, depth - 1, budget)
                if x.status == "refuted":
                    return x
                if x.status != "proved":
                    out = x
            return out
    g2 = counted(goal)
    if g2 is not goal:
        return _prove(g2, pc, depth, budget)
    g2 = simplify(goal, pc)
    if g2 is not goal:
        return _prove(g2, pc, depth - 1, budget)
    # facts gated on conditions
    if depth > 0:
        rel = [p for p in pc if any(x in set(subterms(goal)) for x in subterms(p) if x.op in ("init", "div"))]
        for p in rel:
            c = split_point(p)
            if c is not None:
                out = Result("proved")
                for v in (True, False):
                    lit = c if v else Not(c)
                    if entails(F, Not(lit), 1):
                        continue
                    pc2 = [refine(q, c, v, pc) for q in pc] + [lit]
                    x = _prove(refine(goal, c, v, pc), pc2, depth - 3, budget)
                    if x.status == "refuted":
                        return x
                    if x.status != "proved":
                        out = x
                return out
    lits = [x for x in subterms(goal) if x.op in ("lt0", "eq0") and x is not goal]
    if 0 < len(lits) <= 30:
        m = {}
        for x in lits:
            if entails(F, x, 0):
                m[x] = TRUE
            elif entails(F, Not(x), 0):
                m[x] = FALSE
        if m:
            return _prove(subst(goal, m), pc, depth, budget)
    if depth > -4:
        lins = [q for q in pc if q.op in ("lt0", "eq0") or (q.op == "not" and q.args[0].op in ("lt0", "eq0"))]
        ls = set(lins)
        pool = {x for q in list(pc) + [goal] for x in subterms(q) if x.op == "div" and x.args[1].op == "int"}
        pc2 = [simplify(q, lins, pool) if q not in ls and has_div(q) else q for q in pc]
        g2 = simplify(goal, lins, pool)
        if g2 is not goal or any(a is not b for a, b in zip(pc, pc2)):
            return _prove(g2, pc2, min(depth, 3) - 2, budget)
    if depth > -6:
        c = bool_atom(goal)
        if c is not None:
            out = Result("proved")
            for v in (True, False):
                lit = c if v else Not(c)
                if entails(F, Not(lit), 1):
                    continue
                pc2 = [refine(q, c, v, pc) for q in pc] + [lit]
                x = _prove(refine(goal, c, v, pc), pc2, min(depth, 0) - 1, budget)
                if x.status == "refuted":
                    return x
                if x.status != "proved":
                    out = x
            return out
    g2, pc2 = congruent(goal, pc, F)
    if g2 is not None:
        return _prove(g2, pc2, min(depth, 0) - 1, budget)
    if contradictory(F, set(), 1):
        return Result("proved")
    m = {x: x.args[0] for x in subterms(goal) if x.op == "shl" and x.args[1].op != "int" and entails(F, eq0(x.args[1]), 0)}
    if m:
        return _prove(subst(goal, m), pc, depth, budget)
    g2 = same_results(goal, pc, budget) if depth > -10 else None
    if g2 is not None:
        return _prove(g2, pc, min(depth, 0) - 4, budget)
    if depth > -12:
        c, m = alternative(pc, F, goal)
        if m:
            pc2 = [subst(q, m) if q.op in ("or", "and") else q for q in pc]
            if any(a is not b for a, b in zip(pc, pc2)):
                return _prove(goal, [q for q in pc2 if q is not TRUE], min(depth, -4) - 1, budget)
        if c is not None:
            out = Result("proved")
            for v in (True, False):
                lit = c if v else Not(c)
                pc2 = [q for q in (refine(q, c, v, pc) for q in pc) if q is not TRUE] + [lit]
                x = _prove(refine(goal, c, v, pc), pc2, min(depth, -4) - 1, budget)
                if x.status == "refuted":
                    return x
                if x.status != "proved":
                    out = x
            return out
    if any(x.op == "lt0" and abs(lin_parts(x.args[0])[0]) >= BIG for x in subterms(goal)):
        return Result("unknown", goal, pc)
    if any(x.op in UNKNOWN_OPS or (x.op == "call" and not pure_call(x)) or x.op == "mul" for x in subterms(goal)):
        return Result("unknown", goal, pc)
    return Result("refuted", goal, pc)


PURE = {"strlen", "std::upper_bound", "std::lower_bound"}


def pure_call(x):
    return x.args and x.args[0] in PURE
