"""Rules over the type-checked program: one pass over every function the library's sources and the witness units
instantiate, no evaluation.  Each rule names what it enumerates and reports the construct that breaks it."""
from .engine import relpath

TRAP = "__builtin_trap"


def nodes(x):
    """every node of a body, in source order"""
    if isinstance(x, dict):
        if "k" in x:
            yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def own(fn):
    """every node evaluated by the function itself: bodies and initialisers (those of lambdas are functions of their own)"""
    yield from nodes(fn.body)
    yield from nodes(fn.inits)


def library(P):
    return [f for f in P.all() if f.d.get("repo")]


def what(n):
    f = n.get("f")
    return f.get("n", "?") if isinstance(f, dict) else n.get("k")


# ------------------------------------------------------------------------------------------------- static state

def depends_on_instance(n):
    """a node of the initialiser that names the object, a parameter or a local variable of the call"""
    for x in nodes(n):
        if x["k"] == "this":
            return "the object (this)"
        if x["k"] == "ref" and x.get("dk") in ("p", "v") and not x.get("enumc"):
            return f"'{x.get('n')}'"
    return None


def static_state(ctx):
    """no state outlives the objects: every variable of static or thread storage is constant, and a local one is not
    initialised from the call that happens to come first"""
    ctx.rules["static state"] = ("every variable of static or thread storage duration of the library is const, and the "
                                 "initialiser of a function-local one names neither this nor a parameter nor a local variable")
    seen = set()
    n = 0
    for tu in ctx.P.tus:
        for g in tu.globals.values():
            if not g.get("repo") or "/verif/" in g["file"] or "/witness/" in g["file"]:
                continue
            key = (g["n"], g["file"], g["line"])
            if key in seen:
                continue
            seen.add(key)
            n += 1
            where = f"{relpath(g['file'])}:{g['line']}"
            name = f"{g['n']} at {relpath(g['file'])}"
            if not (g.get("const") or g.get("constexpr")):
                ctx.violation("static state", name, where, f"'{g['n']}' is mutable and outlives every object: what is read or returned can depend on earlier calls")
                continue
            d = depends_on_instance(g["init"]) if g.get("local") and g.get("init") and not g.get("constexpr") else None
            if d:
                ctx.violation("static state", name, where, f"'{g['n']}' is initialised once, from {d} of the call that comes first, and used by all later ones")
            else:
                ctx.ok("static state", name)
    ctx.rules["mutable members"] = "no data member of the library is declared mutable"
    for name, (r, tu) in sorted(ctx.P.records.items()):
        if not name.startswith("sparrow::"):
            continue
        for f in r.get("fields", []):
            if f.get("mut"):
                ctx.violation("mutable members", f"{name}::{f['n']}", relpath(r.get("file", "?")), "a const operation may write it")
            else:
                ctx.ok("mutable members", f"{name}::{f['n']}")
                n += 1
    if n < 100:
        ctx.broken.append(f"only {n} variables and members enumerated")


# ------------------------------------------------------------------------------------------------- assertions

WRITES = {"push_back", "emplace_back", "pop_back", "insert", "emplace", "erase", "clear", "resize", "reserve", "assign", "swap", "reset", "release",
          "shrink_to_fit", "append", "push", "pop", "merge", "extract", "splice", "operator=", "operator++", "operator--", "operator+=", "operator-=",
          "operator|=", "operator&=", "operator^=", "operator<<=", "operator>>=", "exchange", "move", "fill", "copy", "iter_swap", "rotate", "sort",
          "exchange", "try_emplace", "insert_or_assign", "operator<<", "destroy", "deallocate", "construct", "advance", "getline", "read"}
ASG = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def local_root(n, own_vars):
    """the written lvalue is a variable declared inside the function itself"""
    while isinstance(n, dict):
        k = n.get("k")
        if k == "ref":
            return n.get("id") in own_vars
        if k == "mem" and not n.get("ar"):
            n = n.get("b")
        elif k == "cast":
            if n.get("ck") == "LValueToRValue":   # through a pointer
                return False
            n = n.get("e")
        elif k == "mat":
            return True
        elif k == "call" and n.get("o") is not None and n.get("opc") and not n.get("ar"):
            n = n.get("o")
        elif k == "sub":
            n = n.get("b") or n.get("a")
            if isinstance(n, list):
                return False
        else:
            return k in ("ctor", "call", "ilist", "zero")
    return False


class Effects:
    """may a function write memory that existed before its call?  None, or the construct that does (a path of them)"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def of_call(self, tu, n):
        f = n.get("f")
        if not isinstance(f, dict):
            return None
        if f.get("triv") and f.get("ctor"):
            return None
        g = self.P.get(tu, f["key"])
        if g is not None and g.d.get("repo"):
            e = self.of(g)
            if e and n["k"] == "ctor":
                return e if not e[1] else None
            return [f"{f['n']} ({g.where})"] + e[0] if e else None
        if f["s"] in WRITES and not f.get("const") and f.get("m") and not f.get("ctor"):
            return [f["n"]]
        return None

    def of(self, fn):
        k = (fn.tu.idx, fn.key)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        ctor = fn.d.get("ctor") or fn.d.get("dtor")
        mine = {v["id"] for n in own(fn) if n["k"] == "decl" for v in n.get("v", []) if fn.tu.types[v["t"]]["k"] not in ("ref", "rref")}
        mine |= {p.get("id") for p in fn.params if isinstance(p, dict) and fn.tu.types[p["t"]]["k"] not in ("ref", "rref")}
        r = self.scan(fn.tu, list(own(fn)), mine, ctor)
        self.memo[k] = (r, bool(ctor)) if r else None
        return self.memo[k]

    def scan(self, tu, ns, mine, ctor=False):
        for n in ns:
            k = n["k"]
            if k == "asg" or (k == "bin" and n.get("op") in ASG):
                if not local_root(n.get("a"), mine) and not (ctor and this_root(n.get("a"))):
                    return [f"assignment at line {n['l']}"]
            elif k == "un" and n.get("op") in ("++", "--", "++p", "--p", "p++", "p--"):
                if not local_root(n.get("e"), mine) and not (ctor and this_root(n.get("e"))):
                    return [f"increment at line {n['l']}"]
            elif k == "delete":
                return [f"delete at line {n['l']}"]
            elif k in ("call", "ctor") and isinstance(n.get("f"), dict):
                f = n["f"]
                o = n.get("o")
                if f.get("m") and not f.get("const") and o is not None and local_root(o, mine):
                    continue
                if f.get("m") and not f.get("const") and ctor and this_root(o):
                    continue
                e = self.of_call(tu, n)
                if e:
                    return e
        return None


def this_root(n):
    while isinstance(n, dict):
        k = n.get("k")
        if k == "this":
            return True
        n = n.get("b") if k in ("mem", "sub") else n.get("e") if k in ("cast", "un") else n.get("o") if k == "call" else None
    return False


def assertions(fn):
    for n in own(fn):
        if n["k"] == "if" and isinstance(n.get("a"), dict) and n["a"].get("k") == "comp":
            b = n["a"].get("b", [])
            if len(b) == 1 and b[0].get("k") == "call" and b[0]["f"].get("n") == TRAP:
                yield n


def assert_pure(ctx):
    """checking a contract changes nothing, so that the checks can be compiled out"""
    ctx.rules["assertion"] = "no condition of a contract assertion assigns, increments, deletes, or calls (transitively) something that writes memory which existed before"
    E = Effects(ctx.P)
    seen = {}
    for fn in library(ctx.P):
        for n in assertions(fn):
            seen.setdefault((relpath(fn.file), n["l"]), []).append((fn, n))
    for (f, l), uses in sorted(seen.items()):
        bad = None
        for fn, n in uses:
            bad = E.scan(fn.tu, list(nodes(n["c"])), set())
            if bad:
                break
        key = f"{f}: {fn.name.split('<')[0]}: assertion"
        if bad:
            ctx.violation("assertion", key, f"{f}:{l}", f"in {fn.name} the asserted condition has an effect: " + " -> ".join(bad))
        else:
            ctx.ok("assertion", f"{f}:{l}")
    if len(seen) < 60:
        ctx.broken.append(f"only {len(seen)} assertions found")


# ------------------------------------------------------------------------------------------------- exceptions

THROWING = {"at", "value", "stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "rethrow_exception"}


def catches_all(t):
    return any(h.get("all") or h.get("t") is None for h in t.get("h", []) if isinstance(h, dict))


CHECKED = {"value", "get", "at"}     # accessors that refuse: a caller may have excluded what they refuse


def operands(n):
    return {(x["k"], x.get("id", x.get("f"))) for x in nodes(n) if x["k"] == "ref" and x.get("dk") in ("p", "v") or x["k"] == "mem"}


class Throws:
    """can an explicit throw leave the function?  None, or the path to it"""

    def __init__(self, P, lax=False):
        self.P = P
        self.lax = lax      # follow calls whose operands the caller tests, too
        self.memo = {}
        self.tests = {}

    def of(self, fn):
        k = (fn.tu.idx, fn.key)
        if k not in self.memo:
            self.memo[k] = None
            self.memo[k] = self.scan(fn, [fn.body, fn.inits])
        return self.memo[k]

    def guarded(self, fn, n):
        """a checked accessor, an operand of which the function tests somewhere: what the callee refuses may be excluded there"""
        if self.lax or n["f"]["s"] not in CHECKED:
            return False
        k = (fn.tu.idx, fn.key)
        if k not in self.tests:
            t = set()
            for x in own(fn):
                if x["k"] == "if" and x not in assertions(fn) or x["k"] in ("cond", "sw", "for", "do", "while"):
                    t |= operands(x.get("c"))
                elif x["k"] == "bin" and x.get("op") in ("&&", "||"):
                    t |= operands(x.get("a"))
            self.tests[k] = t
        return bool(self.tests[k] & (operands(n.get("o")) | operands(n.get("a"))))

    def scan(self, fn, x, tried=False):
        """first throw under x that leaves it"""
        if isinstance(x, list):
            for v in x:
                r = self.scan(fn, v)
                if r:
                    return r
            return None
        if not isinstance(x, dict):
            return None
        k = x.get("k")
        if k == "try":
            r = None if self.swallows(fn, x) else self.scan(fn, x.get("b"))
            return r or self.scan(fn, x.get("h"))
        if k == "throw":
            return [f"throw at {fn.where.rsplit(':', 1)[0]}:{x['l']}"]
        if k == "lambda":
            for key in x.get("keys", []):
                g = self.P.get(fn.tu, key)
                r = self.of(g) if g is not None and not g.d.get("noex") else None
                if r:
                    return [f"lambda ({g.where})"] + r
            return None
        if k in ("sizeof", "typeid"):
            return None
        if k == "comp" and not self.lax:    # the default of a switch refuses what no case names: it may be unreachable
            b = x.get("b", [])
            i = next((i for i, y in enumerate(b) if y.get("k") == "default"), len(b))
            return self.scan(fn, b[:i])
        if k in ("call", "ctor") and isinstance(x.get("f"), dict):
            f = x["f"]
            if not f.get("noex") and not self.guarded(fn, x):
                g = self.P.get(fn.tu, f["key"])
                if g is not None and g.d.get("repo"):
                    r = self.of(g)
                    if r:
                        return [f"{f['n']} ({g.where})"] + r
                elif f["s"] in THROWING and not f.get("repo"):
                    return [f"{f['n']} at {fn.where.rsplit(':', 1)[0]}:{x['l']}"]
        for v in x.values():
            r = self.scan(fn, v) if isinstance(v, (dict, list)) else None
            if r:
                return r
        return None

    def swallows(self, fn, t):
        """a handler for everything that does not throw again"""
        hs = t.get("h", [])
        return any(catches_all(t) for _ in hs[:1]) and not any(self.scan(fn, h) for h in hs)


def no_escape(ctx):
    ctx.rules["noexcept"] = "no explicit throw (nor throwing accessor of the standard library) is reachable from a function that promises not to throw, a destructor or a release callback"
    T, U = Throws(ctx.P), Throws(ctx.P, True)
    n = 0
    for fn in library(ctx.P):
        d = fn.d
        callback = "release" in fn.short and len(fn.params) == 1 and fn.tu.types[fn.params[0]["t"]]["s"].replace("struct ", "") in ("ArrowArray *", "ArrowSchema *")
        if not (d.get("noex") or d.get("dtor") or callback):
            continue
        n += 1
        r = T.of(fn)
        key = f"{relpath(fn.file)}: {fn.name}"
        if r:
            ctx.violation("noexcept", key, fn.where, ("the release callback " if callback else "the destructor " if d.get("dtor") else "noexcept ") + fn.name + " reaches " + " -> ".join(r))
        elif U.of(fn):
            ctx.undecided("noexcept", key, "only past a test of an operand or the default of a switch: " + " -> ".join(U.of(fn)))
        else:
            ctx.ok("noexcept", key)
    if n < 200:
        ctx.broken.append(f"only {n} functions found")


# ------------------------------------------------------------------------------------------------- counts

LOOPS = {"for", "while", "do"}


def narrow(fn, t):
    t = fn.tu.types[t]
    return t.get("k") in ("int", "uint", "sint", "enum") and t.get("sz", 8) < 8


def constant_bound(n):
    """a loop whose condition compares with a constant"""
    c = n.get("c")
    return isinstance(c, dict) and c.get("k") == "bin" and any(isinstance(c.get(s), dict) and "cv" in c[s] or isinstance(c.get(s), dict) and c[s].get("k") == "int"
                                                              for s in ("a", "b"))


def accumulated(fn, x, declared, out):
    """variables of the enclosing scopes that the body of an unbounded loop adds to"""
    for n in nodes(x):
        if n["k"] not in LOOPS or constant_bound(n):
            continue
        inner = {v.get("id") for d in nodes(n) if d["k"] == "decl" for v in d.get("v", [])}
        ctl = {r.get("id") for s in ("c", "inc", "init") for r in nodes(n.get(s)) if r["k"] == "ref"}
        for m in nodes(n.get("b")):
            t = m.get("a") if m["k"] in ("asg", "bin") and m.get("op") == "+=" else m.get("e") if m["k"] in ("un", "inc") and "++" in str(m.get("op", m.get("s"))) else None
            while isinstance(t, dict) and t.get("k") == "cast":
                t = t.get("e")
            if isinstance(t, dict) and t.get("k") == "ref" and t.get("dk") == "v" and t.get("id") not in inner | ctl:
                out.setdefault(t["id"], (t, m["l"]))
    return out


def counts_wide(ctx):
    """a number of elements that is the result of a loop over a container is not accumulated in a type narrower than the one it is returned in"""
    ctx.rules["counts"] = ("a variable the body of a loop adds to, whose loop is not bounded by a constant, is not converted afterwards from "
                           "a type of fewer than 64 bits to one of 64 bits; the same for the standard reductions")
    for fn in library(ctx.P):
        acc = accumulated(fn, fn.body, set(), {})
        wide = {}
        for c in own(fn):
            if c["k"] != "cast" or c.get("ck") != "IntegralCast" or fn.tu.types[c["t"]].get("sz") != 8:
                continue
            e = c.get("e")
            while isinstance(e, dict) and e.get("k") == "cast":
                e = e.get("e")
            if not isinstance(e, dict) or "t" not in e or not narrow(fn, e["t"]):
                continue
            if e.get("k") == "ref" and e.get("id") in acc:
                wide[e["id"]] = c
            if e.get("k") == "call" and e["f"].get("s") in ("accumulate", "reduce", "transform_reduce", "inner_product") and not e["f"].get("repo"):
                ctx.violation("counts", f"{relpath(fn.file)}: {fn.name}: {e['f']['s']}", f"{fn.where.rsplit(':', 1)[0]}:{c['l']}",
                              f"{fn.name} reduces in {fn.tu.types[e['t']]['s']} what it returns in 64 bits: the result wraps for long inputs")
        for i, (t, line) in acc.items():
            key = f"{relpath(fn.file)}: {fn.name}: {t.get('n')}"
            if i in wide:
                ctx.violation("counts", key, f"{fn.where.rsplit(':', 1)[0]}:{line}",
                              f"{fn.name} accumulates {t.get('n')} in {fn.tu.types[t['t']]['s']} and converts it to 64 bits afterwards: it wraps for long inputs")
            else:
                ctx.ok("counts", key)
