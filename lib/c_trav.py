"""P06, P07: traversals (spec/Traversal.tla)."""
import json
import os
import re

import dsl
from core import *
from c_phase import Names
from c_life import explain

PRIMS = ["int", "bool", "string", "float", "double", "int8", "int16", "int32", "int64",
         "uint8", "uint16", "uint32", "uint64"]


def random_instance(rng, prop):
    nm = Names(rng)
    sparse = prop == "P06" and rng.random() < .5
    if sparse:
        return sparse_instance(rng, nm)
    nt = rng.randint(1, 6)
    types = [{"name": nm.new("N"), "c": []} for _ in range(nt)]
    v = nm.new("v")
    sets = []
    for _ in range(rng.randint(0, 3)):
        sets.append({"name": nm.new("S"), "m": sorted(rng.sample(range(nt), rng.randint(1, nt)))})
    pool = [nm.new("c").lower() for _ in range(6)]
    pool = sorted(set(pool[:rng.randint(4, 6)] + [x["name"].lower() for x in types if rng.random() < .3]))
    for i, t in enumerate(types):
        names = rng.sample(pool, rng.choice([0, 1, 2, 2, 3, 4]) if i else rng.choice([1, 2, 3, 4]))
        for n in names:
            if sets and rng.random() < .4:
                s = rng.choice(sets)
                t["c"].append({"name": n, "type": s["name"], "ty": s["m"]})
            else:
                k = rng.randrange(nt)
                t["c"].append({"name": n, "type": types[k]["name"], "ty": [k]})
    enum = {"name": nm.new("E"), "prefix": nm.new("p"), "values": [nm.new("x"), nm.new("y")]}
    travs = []
    dnames = [nm.new("d") for _ in range(rng.choice([5, 6, 9]))]
    for _ in range(rng.randint(1, 4)):
        d = None
        if rng.random() < (.85 if prop == "P07" else .4):
            few = rng.sample(dnames, len(dnames))
            d = [{"type": "int", "name": few.pop()}]
            for _ in range(rng.randint(0, 4)):
                k = rng.random()
                ty = rng.choice(PRIMS) if k < .75 else types[rng.randrange(nt)]["name"] if k < .9 else enum["name"]
                d.append({"type": ty, "name": few.pop(), "k": "prim" if k < .75 else "node" if k < .9 else "enum"})
            rng.shuffle(d)
        k = rng.random()
        if k < .3:
            expr, tg = None, list(range(nt))
        elif k < .5 and sets:
            s = rng.choice(sets)
            expr, tg = ["ref", s["name"]], s["m"]
        else:
            tg = sorted(rng.sample(range(nt), rng.randint(1, max(1, nt // 2 + 1))))
            tg = tg[:nt]
            expr = ["lit", [types[j]["name"] for j in rng.sample(tg, len(tg))]]
        travs.append({"name": nm.new("T"), "uid": nm.new("u"), "data": d, "expr": expr, "ty": tg})
    return {"types": types, "sets": sets, "travs": travs, "v": v, "enum": enum, "phase": nm.new("P"), "pass": nm.new("q")}


def sparse_instance(rng, nm):
    """Long thin grammars with few targets, so that a target is often reached
    only through several untargeted types and nodesets in a row."""
    nt = rng.randint(4, 9)
    types = [{"name": nm.new("N"), "c": []} for _ in range(nt)]
    v, sets = nm.new("v"), []
    pool = [nm.new("c").lower() for _ in range(4)]
    for i, t in enumerate(types):
        if i == nt - 1:
            break
        for j, n in enumerate(rng.sample(pool, rng.choice([1, 1, 1, 2]))):
            k = i + 1 if j == 0 else rng.randrange(nt)
            if j == 0 and rng.random() < .2:
                k = min(nt - 1, i + 2)
            if rng.random() < .6:
                m = {k} if rng.random() < .6 else {k, rng.randrange(nt)}
                sets.append({"name": nm.new("S"), "m": sorted(m)})
                t["c"].append({"name": n, "type": sets[-1]["name"], "ty": sorted(m)})
            else:
                t["c"].append({"name": n, "type": types[k]["name"], "ty": [k]})
    rng.shuffle(sets)
    travs = []
    for _ in range(rng.randint(1, 4)):
        tg = sorted({rng.choice([nt - 1, nt - 2, rng.randrange(nt)]) for _ in range(rng.choice([1, 1, 2]))})
        travs.append({"name": nm.new("T"), "uid": nm.new("u"), "data": None, "ty": tg,
                      "expr": ["lit", [types[j]["name"] for j in tg]]})
    return {"types": types, "sets": sets, "travs": travs, "v": v, "phase": nm.new("P"), "pass": nm.new("q"),
            "enum": {"name": nm.new("E"), "prefix": nm.new("p"), "values": [nm.new("x"), nm.new("y")]}}


def to_dsl(rng, it):
    items = []
    for i, t in enumerate(it["types"]):
        items.append(["node", {"name": t["name"], "root": i == 0,
                               "children": [{"type": c["type"], "name": c["name"]} for c in t["c"]],
                               "attrs": [{"type": "int", "name": it["v"]}]}])
    for s in it["sets"]:
        items.append(["nodeset", {"name": s["name"], "expr": ["lit", [it["types"][m]["name"] for m in s["m"]]]}])
    for t in it["travs"]:
        items.append(["trav", {"name": t["name"], "uid": t["uid"], "nodes": t["expr"], "data": t["data"]}])
    items.append(["enum", it["enum"]])
    items.append(["phase", {"kind": "phase", "name": it["phase"], "start": True,
                            "actions": [t["name"] for t in it["travs"]]}])
    rng.shuffle(items)
    return dsl.render(items)


def harness(it):
    s = '#include "trav.h"\n'
    ty = it["types"]
    s += "struct typedecl decls[] = {\n"
    for t in ty:
        s += "  {NT_%s, %d, {%s}},\n" % (t["name"].upper(), len(t["c"]),
                                         ", ".join("{%d, {%s}}" % (len(c["ty"]), ", ".join(map(str, c["ty"]))) for c in t["c"]) or "{0}")
    s += "};\nint ndecls = %d;\nstruct travdecl travs[] = {\n" % len(ty)
    for t in it["travs"]:
        s += "  {TRAV_%s, %s, %d, {%s}},\n" % (t["uid"].upper(), "true" if t["data"] else "false",
                                               len(t["ty"]), ", ".join(map(str, t["ty"])))
    s += "};\nint ntravs = %d;\n" % len(it["travs"])
    s += "node_st *mk(int t, int v) { node_st *n = 0; switch (t) {\n"
    for i, t in enumerate(ty):
        s += "  case %d: n = AST%s(); break;\n" % (i, t["name"].lower())
    s += "  } *valp(n) = v; return n; }\nnode_st **childp(node_st *n, int i) { switch (NODE_TYPE(n)) {\n"
    for t in ty:
        s += "  case NT_%s: switch (i) {" % t["name"].upper()
        for j, c in enumerate(t["c"]):
            s += " case %d: return &%s_%s(n);" % (j, t["name"].upper(), c["name"].upper())
        s += " default: _exit(74); }\n"
    s += "  default: _exit(74); } }\nnode_st *travchild(node_st *n, int i) { switch (NODE_TYPE(n)) {\n"
    for t in ty:
        s += "  case NT_%s: switch (i) {" % t["name"].upper()
        for j, c in enumerate(t["c"]):
            s += " case %d: return TRAV%s(n);" % (j, c["name"])
        s += " default: _exit(74); }\n"
    s += "  default: _exit(74); } }\nint *valp(node_st *n) { switch (NODE_TYPE(n)) {\n"
    for t in ty:
        s += "  case NT_%s: return &%s_%s(n);\n" % (t["name"].upper(), t["name"].upper(), it["v"].upper())
    s += "  default: _exit(74); } }\n"
    g = "int dget(int T) { switch (T) {\n"
    st = "void dset(int T, int k) { switch (T) {\n"
    for i, t in enumerate(it["travs"]):
        if not t["data"]:
            continue
        acc = "DATA_%s_GET()" % t["uid"].upper()
        main = [f for f in t["data"] if "k" not in f][0]
        g += "  case %d: { struct data_%s *d = %s; int k = d->%s;\n" % (i, t["uid"].lower(), acc, main["name"])
        st += "  case %d: { struct data_%s *d = %s; d->%s = k;\n" % (i, t["uid"].lower(), acc, main["name"])
        for f in t["data"]:
            if "k" not in f:
                continue
            n = f["name"]
            if f["k"] == "node" or f["type"] == "string":
                g += "    if ((d->%s != 0) != (k != 0)) return -2;\n" % n
                st += "    d->%s = k ? (void *)d : 0;\n" % n
            elif f["k"] == "enum":
                g += "    if (d->%s != (k ? %s_%s : %s_NULL)) return -2;\n" % (
                    n, it["enum"]["prefix"].upper(), it["enum"]["values"][1].lower(), it["enum"]["prefix"].upper())
                st += "    d->%s = k ? %s_%s : 0;\n" % (n, it["enum"]["prefix"].upper(), it["enum"]["values"][1].lower())
            elif f["type"] == "bool":
                g += "    if (d->%s != (k != 0)) return -2;\n" % n
                st += "    d->%s = k != 0;\n" % n
            else:
                g += "    if (d->%s != k) return -2;\n" % n
                st += "    d->%s = k;\n" % n
        g += "    return k; }\n"
        st += "    return; }\n"
    s += g + "  } return -4; }\n" + st + "  } }\n"
    for i, t in enumerate(it["travs"]):
        if t["data"]:
            s += "void %sinit(void) { ev_init(%d); }\nvoid %sfini(void) { ev_fini(%d); }\n" % (t["uid"].upper(), i, t["uid"].upper(), i)
        for k in t["ty"]:
            s += "node_st *%s%s(node_st *n) { return user(%d, %d, n); }\n" % (t["uid"].upper(), ty[k]["name"].lower(), i, k)
    return s


def scenario(rng, prop):
    return [rng.randrange(1 << 30), rng.choice([1, 3, 6, 12, 20]), rng.choice([1, 1, 2, 3]),
            rng.choice([0, 0, 10]) if prop == "P06" else rng.choice([10, 25, 50]), rng.choice([100, 50, 20, 0]),
            rng.choice([0, 0, 15, 40]), rng.choice([0, 20, 50]), rng.choice([20, 40])]


def run_instance(tools, d, text, c_src, scs):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "i.ccn"), "w").write(text)
    rc, o, e = cocogen(tools, os.path.join(d, "i.ccn"), os.path.join(d, "g"))
    if rc != 0:
        return "rejected", "cocogen: rc=%s %s" % (rc, (o + e)[-1500:]), []
    open(os.path.join(d, "h.c"), "w").write(c_src)
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"))
    if not ok:
        return "nobuild", msg[-1500:], []
    rc, o, e = run([os.path.join(d, "h")], inp="".join(" ".join(map(str, s)) + "\n" for s in scs).encode(), timeout=300)
    if rc != 0:
        return "harness", "rc=%s %s" % (rc, e[-500:]), []
    evs = []
    for ln in o.split("\n"):
        if ln == "#":
            evs.append([])
        elif ln:
            try:
                evs[-1].append(json.loads(ln))
            except ValueError:
                evs[-1].append({"e": "garbled"})
    return "ok", "", evs


def trace(it, prop, ev):
    return {"tt": [{"nodes": [k + 1 for k in t["ty"]], "data": bool(t["data"])} for t in it["travs"]],
            "own": prop == "P07", "ev": ev}


CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def model_check(ck, d, prop):
    q = ck.quick()
    if prop == "P06":
        runs = [('"leaf", "all"', 4 if q else 5, 1, 1, "LeafMode AllMode InTreeOrder OnlyTargets Reached Untouched NotTargeted"),
                ('"free"', 3, 3 if q else 5, 1, "OnlyTargets NotTargeted")]
    else:
        runs = [('"data"', 2, 4 if q else 5, 3, "DataOk FreshAtInit Paired Untouched OnlyTargets Reached")]
    gen = dist = 0
    for m, n, o, dp, inv in runs:
        cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\n MaxOps = %d\n MaxDepth = %d\n Modes = {%s}\n"
               "CONSTRAINT Bound\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % (n, o, dp, m, inv))
        r = tlc("TraversalMC", cfg, d, workers=8, timeout=800, heap="10g")
        if not r["ok"]:
            raise Infra("model check of Traversal failed:\n" + r["out"][-5000:] + r["err"][-500:])
        gen += r["generated"]
        dist += r["distinct"]
    return dist, gen


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    ninst, nsc = (96, 30) if ck.quick() else (600, 60)
    rng = ck.rng
    insts = []
    for _ in range(ninst):
        it = random_instance(rng, prop)
        insts.append((it, to_dsl(rng, it), harness(it), [scenario(rng, prop) for _ in range(nsc)]))
    with Scratch() as d:
        ms, mg = model_check(ck, d, prop)
        res = pmap(lambda i: run_instance(tools, os.path.join(d, "i%d" % i), *insts[i][1:]), range(ninst))
        traces, meta = [], []
        for i, (status, det, evs) in enumerate(res):
            if status in ("rejected", "nobuild"):
                ck.violation("a well-formed specification yields no compiler (%s): %s" % (status, det),
                             {"ccn": insts[i][1], "status": status, "detail": det})
                continue
            if status == "harness" or len(evs) != nsc:
                raise Infra("harness: " + det)
            for sc, ev in zip(insts[i][3], evs):
                traces.append(trace(insts[i][0], prop, ev))
                meta.append((i, sc))
        acc, st, gen, info = tlc_judge("TraversalTrace", CFG, traces, d)
        for j in range(len(traces)):
            if j not in acc:
                i, sc = meta[j]
                status, det, evs = run_instance(tools, os.path.join(d, "again"), insts[i][1], insts[i][2], [sc])
                if evs:
                    a2, _, _, _ = tlc_judge("TraversalTrace", CFG, [trace(insts[i][0], prop, evs[0])], d)
                    if a2:
                        continue
                ck.violation("run is no behaviour of Traversal: " + explain(d, traces[j], "TraversalTrace"),
                             {"ccn": insts[i][1], "scenario": sc, "trace": traces[j]})
                if len(ck.viol) >= 3:
                    break
    ev = [e for t in traces for e in t["ev"]]
    ck.cov = {"states": ms + st, "transitions": mg + gen, "model_states": ms,
              "traces_validated_against_impl": len(acc), "compilers_built": ninst, "trace_events": len(ev),
              "function_calls": sum(e["e"] == "enter" for e in ev), "traversals_started": sum(e["e"] == "tstart" for e in ev),
              "samples": [{"ccn": insts[0][1], "scenario": insts[0][3][0], "events": traces[0]["ev"][:8] if traces else []}]}
    ck.assumptions = ["TLC, gcc and the harness under /verif/harness are trusted",
                      "functions change children of their own node only; trees are type consistent"]
    return ck.finish()
