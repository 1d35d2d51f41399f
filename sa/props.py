"""The registry: which laws and which rules decide which property."""
from . import laws as L
from . import project
from . import rules as R


class Ctx:
    def __init__(self, pid, tier, P):
        self.pid, self.tier, self.P = pid, tier, P
        self.violations = []
        self.instances = []   # (rule, what, status)
        self.broken = []
        self.assumptions = []
        self.rules = {}
        self.functions = set()

    def ok(self, rule, what):
        self.instances.append((rule, what, "discharged"))

    def undecided(self, rule, what, why=""):
        self.instances.append((rule, what, "undecided" + (": " + why if why else "")))

    def violation(self, rule, what, where, msg, **detail):
        self.instances.append((rule, what, "violated"))
        self.violations.append(dict(rule=rule, key=what, where=where, msg=msg, **detail))

    def coverage(self):
        n = len(self.instances)
        d = sum(1 for x in self.instances if x[2] == "discharged")
        u = [x for x in self.instances if x[2].startswith("undecided")]
        per = {}
        for r, w, s in self.instances:
            a = per.setdefault(r, dict(rule=self.rules.get(r, ""), instances=0, discharged=0))
            a["instances"] += 1
            a["discharged"] += s == "discharged"
        return dict(explanation=PROPS[self.pid]["explain"], obligations=n, discharged=d, undecided=len(u),
                    undecided_list=[f"{x[0]} | {x[1]} | {x[2]}"[:300] for x in u][:60],
                    rules=per, units_analysed=len(self.P.tus), functions_resolved=len(self.P.by_key) + len(self.P.local),
                    functions_evaluated=len(self.functions), functions_sample=sorted(self.functions)[:120],
                    instances_sample=[f"{x[0]} | {x[1]} | {x[2]}"[:240] for x in self.instances][:80])


def law_rule(ctx, prefix, minimum):
    fs = [f for p in prefix for f in L.laws(ctx.P, p)]
    if not fs:
        ctx.broken.append(f"no law {prefix} in the exported program")
        return
    ctx.rules["law"] = "value terms reaching the obligations of witness laws over the public API, normalised and decided"
    got = 0
    for r in sorted(L.run_laws(ctx.P, fs), key=lambda r: r["name"]):
        by = {}
        ctx.functions.update(r.get("through", []))
        for g in r["goals"]:
            o = by.get(g["name"])
            rank = {"proved": 0, "unknown": 1, "refuted": 2}
            if o is None or rank[g["status"]] > rank[o["status"]]:
                by[g["name"]] = g
        for name, g in sorted(by.items()):
            key = f"{r['name']}:{name}"
            if g["status"] == "proved":
                ctx.ok("law", key)
                got += 1
            elif g["status"] == "refuted":
                got += 1
                ctx.violation("law", key, r.get("where", "?"), "what reaches the obligation contradicts it " + g["leaf"][:400] +
                              " | evaluated through: " + "; ".join(r.get("through", [])[-6:]),
                              goal=g["goal"], leaf=g["leaf"], facts=g["facts"], through=r.get("through", []))
            else:
                ctx.undecided("law", key, (r["error"] or "") + " " + g["leaf"][:160])
        if r["error"] or not by:
            ctx.undecided("law", r["name"], (r["error"] or "no obligation reached")[:200])
    if got < minimum:
        ctx.broken.append(f"only {got} obligations of {prefix} decided, at least {minimum} expected")


# units that between them instantiate the whole library
ALL = ["inst", "laws_access", "laws_buffer", "laws_const", "laws_iter", "laws_mutate", "laws_proxy", "laws_types"]

PROPS = {
    "C01": dict(witness=["laws_own"], laws=["law_C01_"], minimum=20,
                explain="Releases and deletions of every structure and block counted along every path of the release callbacks."),
    "C02": dict(witness=["laws_proxy"], laws=["law_C02_"], minimum=40,
                explain="Releases and deletions counted along every path of constructions, moves, copies, extraction and destruction of proxies and arrays."),
    "C03": dict(witness=["laws_mutate"], laws=["law_C03_"], minimum=20,
                explain="Releases and deletions of children and dictionaries along every path of the child mutators and of the destructor."),
    "C04": dict(witness=["laws_mutate"], laws=["law_C04_"], minimum=40,
                explain="Per mutator and foreign structure: no normal return, and no store to memory that existed before the call."),
    "C05": dict(witness=["laws_derived"], laws=["law_C05_"], minimum=50,
                explain="Every member derived from a structure compared with the structure after each mutator, from symbolic buffers, length and offset."),
    "C06": dict(witness=["laws_access", "laws_reads"], laws=["law_C06_"], minimum=100,
                explain="Laws over the public API: the address or bit a read resolves to is compared with the Arrow format's."),
    "C07": dict(witness=["laws_slice"], laws=["law_C07_"], minimum=8,
                explain="Laws relating the offset, length, null count, buffers and elements of slices to those of the sliced structure."),
    "C10": dict(witness=["laws_const"], laws=["law_C10_"], minimum=60,
                explain="Every store performed by const operations, on every path, resolved to an object: none existed before the operation."),
    "C11": dict(witness=["laws_types"], laws=["law_C11_"], minimum=60,
                explain="Decision tables from formats to types and back, and the extents of derived buffers as terms in offset and length."),
    "C12": dict(witness=["laws_erased"], laws=["law_C12_"], minimum=60,
                explain="For each format, the type-erased array, its data type, the class visiting hands over and its elements against the typed layout."),
    "C13": dict(witness=["laws_copy"], laws=["law_C13_"], minimum=40,
                explain="Every member, buffer byte, child and text of a copy compared with the source's, and every store and release of copying and of freeing the copy."),
    "C14": dict(witness=["laws_live"], laws=["law_C14_"], minimum=50,
                explain="Per layout and special member: the address each element of the result resolves to against the result's own structure."),
    "C15": dict(witness=["laws_checked"], laws=["law_C15_"], minimum=15,
                explain="For each checked accessor: in range designates the unchecked element and cannot throw, out of range cannot return."),
    "C16": dict(witness=["laws_nullable"], laws=["law_C16_"], minimum=40,
                explain="The laws of a value with a flag, for symbolic values and flags."),
    "C17": dict(witness=ALL, rules=[R.assert_pure],
                explain="Every asserted condition of the instantiated program, with the transitive effects of what it calls."),
    "C18": dict(witness=ALL, rules=[R.no_escape],
                explain="Every noexcept function, destructor and release callback, with the explicit throws its call graph reaches."),
    "C19": dict(witness=ALL, laws=["law_C19_"], minimum=2, rules=[R.static_state],
                explain="Every variable of static storage and every data member of the library; nulls of dictionary arrays."),
    "C09": dict(witness=["laws_bitset"], laws=["law_C09_"], minimum=110, rules=[R.counts_wide],
                explain="Per operation, a symbolic bit of the storage, the size and the null count, against those of a sequence of bits."),
    "C20": dict(witness=["laws_buffer"], laws=["law_C20_"], minimum=200,
                explain="Per operation, the value of a symbolic element, the size, and every deallocation, against those of a vector."),
    "C23": dict(witness=["laws_adaptor"], laws=["law_C23_"], minimum=300,
                explain="Per operation and element type, a symbolic element, the sizes and the storage, against those of a sequence."),
    "C22": dict(witness=["laws_build"], laws=["law_C22_"], minimum=90,
                explain="Per constructor, the structures of the array it builds and a symbolic element read back, against the parts given."),
    "C21": dict(witness=["laws_iter", "laws_reads"], laws=["law_C21_", "law_C06_reads_"], minimum=100,
                explain="The laws of random access iterators for symbolic positions and displacements, and the element each position designates."),
}


def run(pid, tier):
    p = PROPS[pid]
    P = project.program(p["witness"])
    ctx = Ctx(pid, tier, P)
    ctx.assumptions = p.get("assumptions", [])
    if p.get("laws"):
        law_rule(ctx, p["laws"], p["minimum"])
    for r in p.get("rules", []):
        r(ctx)
    return ctx
