"""P05: consistency checking (spec/Lifetimes.tla)."""
import json
import os
import re

import dsl
from core import *
import c_phase
from c_phase import Names, random_structure, small_structures


def occ_table(defs):
    """preorder occurrences as (def index, end), only used to pick names for bounds"""
    out = []

    def go(i):
        k = len(out)
        out.append([i, 0])
        for a in defs[i]["a"]:
            go(a)
        out[k][1] = len(out)
    go(0)
    return out


def random_path(rng, st):
    """a name, or a chain of names each first found inside the previous one"""
    defs, occ = st["defs"], occ_table(st["defs"])

    def alias(i):
        d = defs[i]
        return d["uid"] if d.get("uid") and rng.random() < .4 else d["n"]
    if len(occ) < 2:
        return None
    k = rng.randrange(1, len(occ))
    # enclosing occurrences, outermost first
    enc = [j for j in range(1, k) if occ[j][1] > k]
    if enc and rng.random() < .4:
        # only a chain that resolves from first occurrence to first occurrence is meaningful
        j = rng.choice(enc)
        first = next(m for m in range(1, len(occ)) if occ[m][0] == occ[j][0])
        inner = [m for m in range(first + 1, occ[first][1])]
        m = rng.choice(inner)
        p = [alias(occ[j][0]), alias(occ[m][0])]
        f2 = next(x for x in inner if occ[x][0] == occ[m][0])
        if occ[f2][1] > f2 + 1 and rng.random() < .3:
            p.append(alias(occ[rng.randrange(f2 + 1, occ[f2][1])][0]))
        return p
    return [alias(occ[k][0])]


def random_lt(rng, st, kinds, qualified_only=False):
    k = rng.choice(kinds)
    lo = hi = None
    if rng.random() < .75:
        p = random_path(rng, st)
        lo = [rng.random() < .5, p] if p else None
    if rng.random() < .75:
        p = random_path(rng, st)
        hi = [rng.random() < .5, p] if p else None
    rngd = True
    if not lo and not hi:
        # without bounds: always; `allowed'/`optional' need a range
        if k in ("allowed", "optional"):
            return None
        rngd = rng.random() < .3
    return {"kind": k, "range": rngd, "lo": lo, "hi": hi,
            "lo_open": "(", "hi_open": ")"}


def lts(rng, st, kinds, p):
    n = 0 if rng.random() > p else rng.choice([1, 1, 1, 2, 3])
    return [x for x in (random_lt(rng, st, kinds) for _ in range(n)) if x]


def random_decl(rng, st):
    nm = Names(rng)
    for d in st["defs"]:
        for x in (d["n"], d.get("uid"), d.get("func"), d.get("gf")):
            if x:
                nm.used.add(x.lower())
    nt = rng.randint(2, 6)
    types = [{"name": nm.new("N"), "c": [], "a": [], "lt": []} for _ in range(nt)]
    types[0]["name"] = st["root"]
    sets = []
    for _ in range(rng.randint(0, 2)):
        m = rng.sample(range(nt), rng.randint(1, nt))
        sets.append({"name": nm.new("S"), "m": sorted(m), "a": []})
    few = [nm.new("f") for _ in range(5)] + [t["name"].lower() for t in types[1:]]

    def local(t, p):
        """a name, maybe one that another type uses as well"""
        n = rng.choice(few)
        return n if rng.random() < .5 and n not in [x["name"] for x in t["c"] + t["a"]] else nm.new(p)
    all4 = ["allowed", "disallowed", "mandatory", "optional"]
    dens = rng.choice([.06, .15, .3, .6])
    for i, t in enumerate(types):
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if i else rng.choice([1, 2, 3, 4])):
            if sets and rng.random() < .4:
                s = rng.choice(sets)
                ty, tyn = s["m"], s["name"]
            else:
                k = rng.randrange(nt)
                ty, tyn = [k], types[k]["name"]
            t["c"].append({"name": local(t, "c"), "ty": ty, "type": tyn, "lt": lts(rng, st, all4, dens)})
        for _ in range(rng.choice([0, 0, 1, 2])):
            t["a"].append({"name": local(t, "a"), "type": rng.choice(["string", types[rng.randrange(nt)]["name"]]),
                           "lt": lts(rng, st, all4, dens)})
        # (the grammar has no node with lifetimes only)
        if i and (t["c"] or t["a"]) and rng.random() < .35:
            t["lt"] = lts(rng, st, ["allowed", "disallowed"], dens)
    for s in sets:
        if rng.random() < .4:
            a = {"name": nm.new("z"), "type": "string", "lt": lts(rng, st, all4, .6)}
            s["a"].append(a)
    return {"types": types, "sets": sets}


def dlts(ls):
    out = []
    for l in ls:
        out.append({"kind": l["kind"], "range": l["range"], "lo": [l["lo"][0], ".".join(l["lo"][1])] if l["lo"] else None,
                    "hi": [l["hi"][0], ".".join(l["hi"][1])] if l["hi"] else None,
                    "lo_open": l["lo_open"], "hi_open": l["hi_open"]})
    return out


def to_dsl(rng, st, de):
    text = c_phase.to_dsl(st)
    text = text[:text.rindex("root node ")]
    items = []
    for i, t in enumerate(de["types"]):
        items.append(["node", {"name": t["name"], "root": i == 0,
                               "children": [{"type": c["type"], "name": c["name"], "lifetimes": dlts(c["lt"])} for c in t["c"]],
                               "attrs": [{"type": a["type"], "name": a["name"], "lifetimes": dlts(a["lt"])} for a in t["a"]],
                               "lifetimes": dlts(t["lt"])}])
    for s in de["sets"]:
        items.append(["nodeset", {"name": s["name"], "expr": ["lit", [de["types"][m]["name"] for m in s["m"]]],
                                  "attrs": [{"type": a["type"], "name": a["name"], "lifetimes": dlts(a["lt"])} for a in s["a"]]}])
    rng.shuffle(items)
    return text + dsl.render(items)


def attrs_of(de, i):
    out = list(de["types"][i]["a"])
    for s in de["sets"]:
        if i in s["m"]:
            out += s["a"]
    return out


def harness(st, de):
    s = '#include "life.h"\n'
    ty = de["types"]
    s += "struct typedecl decls[] = {\n"
    for i, t in enumerate(ty):
        at = attrs_of(de, i)
        s += "  {NT_%s, %d, %d, {%s}, {%s}},\n" % (
            t["name"].upper(), len(t["c"]), len(at),
            ", ".join("{%d, {%s}}" % (len(c["ty"]), ", ".join(map(str, c["ty"]))) for c in t["c"]) or "{0}",
            ", ".join("0" if a["type"] == "string" else "1" for a in at) or "0")
    s += "};\nint ndecls = %d;\n" % len(ty)
    s += "node_st *mk(int t) { switch (t) {\n"
    for i, t in enumerate(ty):
        s += "  case %d: return AST%s();\n" % (i, t["name"].lower())
    s += "  } return 0; }\nnode_st **childp(node_st *n, int i) { switch (NODE_TYPE(n)) {\n"
    for t in ty:
        s += "  case NT_%s: switch (i) {" % t["name"].upper()
        for j, c in enumerate(t["c"]):
            s += " case %d: return &%s_%s(n);" % (j, t["name"].upper(), c["name"].upper())
        s += " default: _exit(74); }\n"
    s += "  default: _exit(74); } }\nvoid **attrp(node_st *n, int i) { switch (NODE_TYPE(n)) {\n"
    for k, t in enumerate(ty):
        s += "  case NT_%s: switch (i) {" % t["name"].upper()
        for j, a in enumerate(attrs_of(de, k)):
            s += " case %d: return (void **)&%s_%s(n);" % (j, t["name"].upper(), a["name"].upper())
        s += " default: _exit(74); }\n"
    s += "  default: _exit(74); } }\n"
    for d in st["defs"]:
        nm = d["n"].lower()
        if d["k"] == "leaf":
            f = d["func"] if d.get("func") else (d["uid"].upper() if d.get("uid") else "") + d["n"]
            s += 'node_st *%s(node_st *n) { return leaf("%s", n); }\n' % (f, nm)
        elif d.get("gf"):
            s += 'bool %s(void) { return gate("%s"); }\n' % (d["gf"], nm)
    return s


def m_lt(l):
    b = lambda x: {"incl": x[0], "path": [y.lower() for y in x[1]]} if x else {"incl": False, "path": []}
    return {"k": l["kind"], "lo": b(l["lo"]), "hi": b(l["hi"])}


def model(st, de):
    m = c_phase.model(st)
    m["uids"] = [[d["n"].lower(), d["uid"].lower()] for d in st["defs"] if d.get("uid")]
    ty = de["types"]
    m["decl"] = [{"n": t["name"].lower(), "lt": [m_lt(l) for l in t["lt"]],
                  "c": [{"ty": [ty[k]["name"].lower() for k in c["ty"]], "lt": [m_lt(l) for l in c["lt"]]} for c in t["c"]],
                  "a": [[m_lt(l) for l in a["lt"]] for a in attrs_of(de, i)]} for i, t in enumerate(ty)]
    return m


def scenario(rng):
    return [rng.randrange(1 << 30), 1 if rng.random() < .93 else 0, rng.choice([0, 0, 0, 0, 5, 30]),
            rng.choice([0, 0, 15, 40]), rng.choice([100, 100, 50]), rng.choice([0, 0, 30]), rng.choice([0, 0, 1, 2])]


def run_instance(tools, d, text, c_src, scs):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "i.ccn"), "w").write(text)
    rc, o, e = cocogen(tools, os.path.join(d, "i.ccn"), os.path.join(d, "g"))
    if rc != 0:
        return "rejected", "cocogen: rc=%s %s" % (rc, (o + e)[-1500:]), []
    open(os.path.join(d, "h.c"), "w").write(c_src)
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"))
    if not ok:
        return "nobuild", msg[-1500:], []
    rc, o, e = run([os.path.join(d, "h")], inp="".join(" ".join(map(str, s)) + "\n" for s in scs).encode(), timeout=300)
    if rc != 0:
        return "harness", "rc=%s %s" % (rc, e[-500:]), []
    evs = []
    for ln in o.split("\n"):
        if ln == "#":
            evs.append([])
        elif ln:
            evs[-1].append(json.loads(ln))
    return "ok", "", evs


def trace(m, sc, ev):
    k = next((i for i, e in enumerate(ev) if e["e"] == "cut"), None)
    if k is not None:
        ev = ev[:k + 1]
    t = dict(m)
    t["check"] = sc[1] == 1
    t["ev"] = ev
    return t


CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def model_check(ck, d):
    gen = dist = ns = 0
    for n, two in ([(4, "FALSE")] if ck.quick() else [(3, "TRUE"), (5, "FALSE")]):
        structs = small_structures(n)
        if n == 5:
            structs = [s for i, s in enumerate(structs) if i % 3 == 0]
        elif n == 4:
            structs = [s for i, s in enumerate(structs) if len(s["defs"]) < 4 or i % 4 == ck.seed % 4]
        k = 4
        parts = [structs[i::k] for i in range(k)]
        parts = [p for p in parts if p]
        cfg = "SPECIFICATION Spec\nCONSTANT Two = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Enforced NoFalseAbort Off\n" % two

        def one(i):
            p = os.path.join(d, "s%d.json" % i)
            json.dump(parts[i], open(p, "w"))
            return tlc("LifetimesMC", cfg, d, workers=2, env={"INPUT": p}, timeout=800, heap="5g")
        for r in pmap(one, range(len(parts)), k):
            if not r["ok"]:
                raise Infra("model check of Lifetimes failed:\n" + r["out"][-5000:] + r["err"][-500:])
            gen += r["generated"]
            dist += r["distinct"]
        ns += len(structs)
    return dist, gen, ns


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    ninst, nsc = (96, 40) if ck.quick() else (600, 80)
    rng = ck.rng
    insts = []
    for _ in range(ninst):
        st = random_structure(rng, cycles=True, gates=True, maxocc=rng.choice([6, 12, 18]))
        for x in st["defs"]:
            x["trav"] = False
        de = random_decl(rng, st)
        insts.append((st, de, to_dsl(rng, st, de), harness(st, de), model(st, de), [scenario(rng) for _ in range(nsc)]))
    with Scratch() as d:
        mc_states, mc_gen, mc_n = model_check(ck, d)
        res = pmap(lambda i: run_instance(tools, os.path.join(d, "i%d" % i), insts[i][2], insts[i][3], insts[i][5]), range(ninst))
        traces, meta = [], []
        for i, (status, det, evs) in enumerate(res):
            if status in ("rejected", "nobuild"):
                ck.violation("a well-formed specification yields no compiler (%s): %s" % (status, det),
                             {"ccn": insts[i][2], "status": status, "detail": det})
                continue
            if status == "harness" or len(evs) != nsc:
                raise Infra("harness: " + det)
            for sc, ev in zip(insts[i][5], evs):
                traces.append(trace(insts[i][4], sc, ev))
                meta.append((i, sc))
        acc, st, gen, info = tlc_judge("LifetimesTrace", CFG, traces, d)
        aborted = sum(1 for t in traces if t["ev"] and t["ev"][-1] == {"e": "exit", "ok": False})
        for j in range(len(traces)):
            if j not in acc:
                i, sc = meta[j]
                status, det, evs = run_instance(tools, os.path.join(d, "again"), insts[i][2], insts[i][3], [sc])
                if evs:
                    a2, _, _, _ = tlc_judge("LifetimesTrace", CFG, [trace(insts[i][4], sc, evs[0])], d)
                    if a2:
                        continue
                ck.violation("run is no behaviour of Lifetimes: " + explain(d, traces[j], "LifetimesTrace"),
                             {"ccn": insts[i][2], "scenario": sc, "trace": traces[j]})
                if len(ck.viol) >= 3:
                    break
    ck.cov = {"states": mc_states + st, "transitions": mc_gen + gen, "model_states": mc_states, "model_structures": mc_n,
              "traces_validated_against_impl": len(acc), "runs_aborted_by_the_check": aborted, "compilers_built": ninst,
              "trace_events": sum(len(t["ev"]) for t in traces),
              "samples": [{"ccn": insts[0][2], "scenario": insts[0][5][0], "events": traces[0]["ev"][:5] if traces else []}]}
    ck.assumptions = ["TLC, gcc and the harness under /verif/harness are trusted",
                      "trees of more than ~30 nodes and runs of more than 120 events are not explored"]
    return ck.finish()


def explain(d, tr, module, init="Init"):
    p = os.path.join(d, "one.json")
    json.dump([tr], open(p, "w"))
    r = tlc(module, "INIT " + init + "\nNEXT Next\nINVARIANT Where\nCHECK_DEADLOCK FALSE\n", d, env={"TRACES": p}, timeout=120)
    m = re.findall(r'<<"AT", (\d+), (.*)>>', r["out"])
    if not m:
        return "no state: " + r["out"][-1500:]
    n, what = max(((int(a), k, b) for k, (a, b) in enumerate(m)))[::2]
    ev = tr["ev"]
    return "after %d events the specification is at %s and cannot take %s" % (
        n - 1, what, json.dumps(ev[n - 1]) if n <= len(ev) else "the end")
