"""Laws: witness functions over the public API whose obligations are decided by value-flow analysis.

A law is a C++ function `law_<PID>_<name>` in /verif/witness.  It is type-checked together with the library's current
sources and never executed: `law::require` adds a fact to the abstract state, `law::prove` is an obligation on the
value term that reaches it.  The obligation is discharged by rewriting to normal form and by linear-integer
reasoning over the terms (sa/decide.py), never by running anything and never by enumerating inputs.
"""
import multiprocessing as mp
import os
import re
import time

from . import decide as D
from .engine import *  # noqa: F401,F403
from .engine import FALSE, TRUE, UNDEF, Limit, Machine, tobool


# laws about who frees what: destructors at the end of scopes are evaluated too
OWNING = re.compile(r"law_C0[1-5]_|law_C1[34]_|law_C20_|law_C22_own_|law_C23_")
STORAGE = re.compile(r"law_C20_|law_C23_")   # ... and those of buffers


def h_require(M, st, e, fr, obj, f):
    c = tobool(M.rv(st, e["a"][0], fr))
    c = M.dec(st, c)
    if c is FALSE:
        st.dead = True
    elif c is not TRUE:
        st.pc = st.pc + (tuple(c.args) if c.op == "and" else (c,))
    return UNDEF


def h_prove(M, st, e, fr, obj, f):
    w = M.rv(st, e["a"][0], fr)
    c = M.dec(st, tobool(M.rv(st, e["a"][1], fr)))
    M.ev("prove", st, e.get("l", 0), name=w.args[0], val=c)
    return UNDEF


def h_unreachable(M, st, e, fr, obj, f):
    """no input satisfying the preconditions gets here"""
    w = M.rv(st, e["a"][0], fr)
    M.ev("unreachable", st, e.get("l", 0), name=w.args[0], val=FALSE)
    return UNDEF


def h_total(M, st, e, fr, obj, f):
    """no throw, contract failure or null call is possible before this point"""
    w = M.rv(st, e["a"][0], fr)
    M.ev("total", st, e.get("l", 0), name=w.args[0])
    return UNDEF


def ghost(p, what):
    return fld(mk("obj", "$g", p), what)


def ghost_add(M, st, p, what, n=1):
    if p.op == "ite":
        c = M.dec(st, p.args[0])
        if c is TRUE:
            return ghost_add(M, st, p.args[1], what, n)
        if c is FALSE:
            return ghost_add(M, st, p.args[2], what, n)
        ghost_add(M, st, p.args[1], what, ite(c, tn(n), I(0)))
        ghost_add(M, st, p.args[2], what, ite(c, I(0), tn(n)))
        return
    l = ghost(p, what)
    if l in st.store:
        st.store[l] = add(st.store[l], tn(n))


def tn(n):
    return n if isinstance(n, T) else I(n)


def h_track(M, st, e, fr, obj, f):
    p = M.rv(st, e["a"][0], fr)
    for w in ("$rel", "$del"):
        st.store[ghost(p, w)] = I(0)
    return UNDEF


def h_count(what):
    def h(M, st, e, fr, obj, f):
        return M.lookup(st, ghost(M.rv(st, e["a"][0], fr), what))
    return h


def h_freeze(M, st, e, fr, obj, f):
    """from here to law::thaw, objects that exist now are not to be written"""
    M.frozen = ({root(k) for k in st.store} | {l for f2 in M.frames for l in f2.env.values() if isinstance(l, T)}, M.nfresh)
    M.ev("freeze", st, e.get("l", 0))
    return UNDEF


def h_thaw(M, st, e, fr, obj, f):
    w = M.rv(st, e["a"][0], fr)
    M.frozen = None
    M.ev("thaw", st, e.get("l", 0), name=w.args[0])
    return UNDEF


def h_icall(M, st, t, A, ev):
    """the release callback of another library: releases what private_data designates and marks the structure released"""
    if t.op == "fn" and "foreign_release" in str(t.args[0]):
        p = M.val(st, A[0])
        l = deref(p)
        ghost_add(M, st, M.lookup(st, fld(l, "private_data")), "$rel")
        M.assign(st, fld(l, "release"), ZERO, 0, True)


def h_delete(M, st, p):
    ghost_add(M, st, p, "$del")


BROKEN = re.compile("Recovery|Unresolved|Dependent|TypoExpr")
LIVE = mk("obj", "$g", I(0))


def h_storage(M, st, e, fr, obj, f):
    """from here on, count the storage that is allocated and not returned; p, if any, is n elements made elsewhere"""
    p, n = M.rv(st, e["a"][0], fr), M.rv(st, e["a"][1], fr)
    st.store[fld(LIVE, "$live")] = ZERO if p is ZERO else ONE
    if p is not ZERO:
        h_track(M, st, e, fr, obj, f)
        st.store[ghost(p, "$size")] = n
    return UNDEF


def h_live(M, st, e, fr, obj, f):
    return M.lookup(st, fld(LIVE, "$live"))


def h_allocate(M, st, b, n):
    l = fld(LIVE, "$live")
    if l in st.store:
        st.store[l] = add(st.store[l], ONE)
        st.store[ghost(b, "$size")] = n


def h_deallocate(M, st, p, n, es):
    l = fld(LIVE, "$live")
    if l not in st.store:
        return
    p = M.dec_ite(st, p)
    st.store[l] = sub(st.store[l], ite(eq0(p), ZERO, ONE))
    ghost_add(M, st, p, "$del")

    def sizes(p):
        if p.op == "ite":
            return ite(p.args[0], sizes(p.args[1]), sizes(p.args[2]))
        if p is ZERO:
            return n
        return M.lookup(st, ghost(p, "$size"))
    M.ev("prove", st, 0, name="storage returned with the size it was allocated with", val=M.dec(st, Or(eq0(p), eq0(sub(sizes(p), n)))))
    if p.op != "ite" and p is not ZERO:
        M.nloop += 1
        M.write_all(st, M.nloop, deref(add(p, scale(mk("ctr", M.nloop), es))), n, mk("sym", "freed", M.nloop))


HOOKS = {"law::storage": h_storage, "law::live": h_live, "allocate": h_allocate, "deallocate": h_deallocate,
         "delete": h_delete, "law::freeze": h_freeze, "law::thaw": h_thaw, "law::require": h_require, "law::prove": h_prove, "law::unreachable": h_unreachable, "law::total": h_total,
         "law::track": h_track, "law::releases": h_count("$rel"), "law::deletes": h_count("$del"), "icall": h_icall}


def machine(P, owning=False, storage=False):
    m = Machine(P)
    m.hooks.update(HOOKS)
    m.unroll = 20
    m.max_rec = 3
    m.dyn_classes = {"sparrow::array_wrapper"}
    if owning:
        m.destroying = {"sparrow::arrow_proxy", "std::unique_ptr", "sparrow::cloning_ptr"}
        m.inert = {"sparrow::any_allocator"}
        if storage:
            m.destroying |= {"sparrow::buffer", "sparrow::buffer_base"}
    return m


def names_of(P, f, fn):
    """the names of the obligations of kind fn written in the body of a law (so that unreached ones are noticed)"""
    out = []

    def walk(n):
        if isinstance(n, dict):
            if n.get("k") == "call" and n.get("f", {}).get("n") == fn:
                for a in n["a"]:
                    s = a
                    while isinstance(s, dict) and s.get("k") not in ("str",):
                        s = s.get("e")
                    if s:
                        out.append(s["v"])
                        break
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(f.d.get("body"))
    return out


def sizes_fit(t):
    """comparisons of a size with a bound near the limits of 64-bit integers hold (assumption: sizes are below 2^62)"""
    m = {}
    for x in subterms(t):
        if x.op == "lt0" and lin_parts(x.args[0])[0] <= -D.BIG:
            m[x] = TRUE
    return subst(t, m) if m else t


def frozen_goals(m, name, end, res):
    """one obligation per write, between freeze and thaw, to an object that existed at the freeze"""
    start = max([x.idx for x in m.events[:end] if x.kind == "freeze"], default=0)
    for x in m.events[start:end]:
        if x.kind != "fwrite":
            continue
        try:
            r = D.prove(FALSE, list(x.pc))
        except (Limit, RecursionError):
            r = D.Result("unknown", FALSE, ())
        status = "unknown" if r.status == "refuted" and x.extra else r.status
        where = f"{x.fn.name if x.fn else '?'}:{x.line} writes {x.obj}"
        res["goals"].append(dict(name=name, status=status, goal=where[:400], leaf=where[:400], facts=[str(y)[:300] for y in x.pc][:40]))
    res["goals"].append(dict(name=name, status="proved", goal="", leaf="", facts=[]))


def run_law(P, f, verbose=False):
    """-> dict(name, file, line, goals=[dict(name,status,goal,leaf,facts)], unknown, steps, error)"""
    m = machine(P, bool(OWNING.match(f.name)), bool(STORAGE.match(f.name)))
    res = dict(name=f.name, line=f.line, goals=[], unknown=[], error=None, reach=[], dead=False)
    t = time.time()
    try:
        st, _ = m.run(f)
        res["dead"] = st.dead
    except Limit as x:
        res["error"] = "limit: " + str(x)
    except RecursionError:
        res["error"] = "recursion"
    for e in m.events:
        if e.kind == "prove":
            try:
                r = D.prove(e.val, list(e.pc))
            except Limit as x:
                res["goals"].append(dict(name=e.name, status="unknown", goal=str(x), leaf="", facts=[]))
                continue
            except RecursionError:
                res["goals"].append(dict(name=e.name, status="unknown", goal="recursion", leaf="", facts=[]))
                continue
            g = dict(name=e.name, status=r.status, goal="", leaf="", facts=[])
            if r.status != "proved":
                g["goal"] = str(e.val)[:3000]
                g["leaf"] = (("when " + r.model[:700] + ": ") if r.model else "") + str(r.leaf)[:1500]
                g["facts"] = [str(x)[:300] for x in r.facts][:60]
            res["goals"].append(g)
    complete = res["error"] is None
    for e in m.events:
        if e.kind == "unreachable":
            try:
                r = D.prove(FALSE, list(e.pc))
                res["goals"].append(dict(name=e.name, status=r.status, goal="reachable", leaf="reached", facts=[str(x)[:300] for x in e.pc][:40]))
            except (Limit, RecursionError):
                res["goals"].append(dict(name=e.name, status="unknown", goal="", leaf="", facts=[]))
        elif e.kind == "thaw":
            frozen_goals(m, e.name, e.idx, res)
        elif e.kind == "total":
            for x in m.events[:e.idx]:
                if x.trys or x.kind not in ("throw", "assert", "abort"):
                    continue
                if x.kind == "throw" and x.name is None and not any(y.kind == "throw" and y.trys for y in m.events[:x.idx]):
                    continue   # passes on what the allocation or an element threw
                try:
                    r = D.prove(sizes_fit(x.val) if x.kind == "assert" else FALSE, [sizes_fit(y) for y in x.pc])
                except (Limit, RecursionError):
                    r = D.Result("unknown", FALSE, ())
                where = f"{x.fn.name if x.fn else '?'}:{x.line} {x.kind}"
                res["goals"].append(dict(name=e.name, status=r.status, goal=where, leaf=where + " " + str(x.val)[:600], facts=[str(y)[:300] for y in x.pc][:40]))
            res["goals"].append(dict(name=e.name, status="proved", goal="", leaf="", facts=[]))
    # leaving by a failed contract is not leaving by the documented exception
    un = names_of(P, f, "law::unreachable")
    if un and complete:
        for x in m.events:
            if x.kind in ("assert", "abort") and not x.trys:
                try:
                    r = D.prove(sizes_fit(x.val) if x.kind == "assert" else FALSE, list(x.pc))
                except (Limit, RecursionError):
                    r = D.Result("unknown", FALSE, ())
                if r.status != "proved":
                    where = f"{x.fn.name if x.fn else '?'}:{x.line} {x.kind}"
                    res["goals"].append(dict(name=un[-1], status=r.status, goal=where, leaf=where + " " + str(x.val)[:600], facts=[str(y)[:300] for y in x.pc][:40]))
    for n in un:
        if complete and not any(g["name"] == n for g in res["goals"]):
            if any(x.kind == "throw" for x in m.events):
                res["goals"].append(dict(name=n, status="proved", goal="", leaf="", facts=[]))
    for n in names_of(P, f, "law::thaw"):
        if complete and not any(e.kind == "thaw" and e.name == n for e in m.events):
            frozen_goals(m, n, len(m.events), res)   # left by an exception on every path
    # no input gets as far as the first obligation: whatever stops one of them is the violation
    if complete and res["dead"] and not un and not res["goals"] and not any(e.kind in ("prove", "total", "thaw") for e in m.events):
        for x in m.events:
            if x.trys or x.kind not in ("throw", "assert", "abort"):
                continue
            try:
                r = D.prove(sizes_fit(x.val) if x.kind == "assert" else FALSE, [sizes_fit(y) for y in x.pc])
            except (Limit, RecursionError):
                continue
            if r.status == "refuted":
                where = f"{x.fn.name if x.fn else '?'}:{x.line} {x.kind}"
                res["goals"].append(dict(name="evaluated", status="refuted", goal=where, leaf=(("when " + r.model[:500] + ": ") if r.model else "") + where + " " + str(x.val)[:600],
                                         facts=[str(y)[:300] for y in x.pc][:40]))
                break
    if not res["goals"]:
        res["reach"] = [str(e)[:300] for e in m.events if e.kind in ("assert", "throw", "abort")][-8:]
    res["unknown"] = [str(k) for k in list(m.unknown)[:12]] if m.unknown else []
    if f.tu.errors and any(BROKEN.search(str(k)) for k in m.unknown):   # the law does not compile against this tree
        res["error"] = "does not compile: " + str(f.tu.errors[0])[:200]
        for g in res["goals"]:
            g["status"] = "unknown"
    res["steps"] = m.steps
    res["where"] = f.where
    res["through"] = [f"{c.name} ({c.where})"[:160] for c in m.called if "/witness/" not in c.file]
    res["wall"] = round(time.time() - t, 2)
    return res


_P = None
TIMEOUT = int(os.environ.get('LAW_TIMEOUT', '120'))


def _job(key):
    f = _BY[key]
    import resource
    import signal

    def on_alarm(*_):
        raise Limit("time")
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(TIMEOUT)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        try:
            return run_law(_P, f)
        finally:
            signal.alarm(0)
    except Exception as x:  # engine failure: never a verdict
        import traceback
        return dict(name=f.name, line=f.line, goals=[], unknown=[], error="engine: " + repr(x)[:200] +
                    traceback.format_exc()[-600:], steps=0, reach=[], dead=False, wall=0)


def run_laws(P, fs, jobs=8, stream=None):
    global _P, _BY
    _P = P
    _BY = {i: f for i, f in enumerate(fs)}
    with mp.get_context("fork").Pool(min(jobs, max(1, len(fs))), maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(_job, list(_BY), chunksize=1)) if not stream else [stream(r) for r in pool.imap_unordered(_job, list(_BY), chunksize=1)]


def laws(P, prefix):
    return sorted((f for f in P.all() if f.name.startswith(prefix) and ")::" not in f.name), key=lambda f: (f.name, f.line))
