"""P08, P09, P10: nodes, copying, releasing (spec/NodeHeap.tla)."""
import json
import os

import dsl
from core import *
from c_phase import Names
from c_life import explain

PL = {"bool": ("b", 1), "float": ("f", 32), "double": ("d", 64), "int": ("i", 32)}
for _b in (8, 16, 32, 64):
    PL["int%d" % _b] = ("i", _b)
    PL["uint%d" % _b] = ("u", _b)
PTYPES = sorted(PL)


def random_instance(rng, prop):
    nm = Names(rng)
    nt = rng.randint(1, 5)
    types = [{"name": nm.new("N"), "c": [], "a": []} for _ in range(nt)]
    enums = []
    for _ in range(rng.randint(0, 2)):
        enums.append({"name": nm.new("E"), "prefix": nm.new("p"), "values": [nm.new("x") for _ in range(rng.randint(1, 5))]})
    sets = []
    pool = [nm.new("f") for _ in range(12)]
    for x in types:                         # as in `Expr expr`
        if rng.random() < .3:
            pool[rng.randrange(12)] = rng.choice([x["name"], x["name"].lower()])
    pool = list({x.lower(): x for x in pool}.values())
    for _ in range(rng.randint(0, 3)):
        sets.append({"name": nm.new("S"), "m": sorted(rng.sample(range(nt), rng.randint(1, nt))), "a": []})
    ag = prop == "P08" and rng.random() < .6
    first = 1 if ag else 0   # an attribute grammar on the root type only
    usable = list(range(first, nt)) or ([0] if not ag else [])
    user = rng.random() < .3

    def target():
        s = [x for x in sets if not ag or 0 not in x["m"]]
        if s and rng.random() < .4:
            x = rng.choice(s)
            return x["name"], x["m"]
        k = rng.choice(usable)
        return types[k]["name"], [k]

    def attribute(name, ctor, ag_=False):
        k = rng.random()
        if k < .2 and not ag_:
            n, m = (types[rng.randrange(nt)]["name"], None) if rng.random() < .7 or not sets else (None, None)
            if n:
                return {"name": name, "type": n, "k": "l", "ty": [i for i, t in enumerate(types) if t["name"] == n], "ctor": ctor}
            s = rng.choice(sets)
            return {"name": name, "type": s["name"], "k": "l", "ty": s["m"], "ctor": ctor}
        if k < .45:
            return {"name": name, "type": "string", "k": "s", "ctor": ctor}
        if k < .6 and enums:
            e = rng.randrange(len(enums))
            return {"name": name, "type": enums[e]["name"], "k": "p", "p": ("e", 32, e), "ctor": ctor}
        if k < .7 and user:
            return {"name": name, "type": "user UserT", "k": "p", "p": ("U", 64, 0), "ctor": ctor}
        ty = rng.choice(PTYPES)
        return {"name": name, "type": ty, "k": "p", "p": PL[ty] + (0,), "ctor": ctor}

    # attributes of nodesets; no two sets share an attribute name
    free = list(pool)
    rng.shuffle(free)
    taken = set()
    for s in sets:
        for _ in range(rng.choice([0, 0, 1, 2])):
            if len(free) > 6:
                a = attribute(free.pop(), False)
                s["a"].append(a)
                taken.add(a["name"])
    for i, t in enumerate(types):
        names = list(free)
        rng.shuffle(names)
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
            if usable and names:
                n, m = target()
                t["c"].append({"name": names.pop(), "type": n, "ty": m, "ctor": rng.random() < .5})
        for _ in range(rng.choice([0, 1, 2, 3, 3, 5]) if i or t["c"] else rng.choice([1, 2, 3])):
            if names:
                t["a"].append(attribute(names.pop(), rng.random() < .5))
        for s in sets:
            if i in s["m"]:
                for a in s["a"]:
                    a2 = dict(a, prop=s["name"])
                    if rng.random() < .3:     # repeated to make it a constructor argument
                        a2["ctor"] = True
                        a2["redeclared"] = True
                        t["a"].insert(rng.randint(0, len(t["a"])), a2)
                    else:
                        t["a"].append(dict(a2, inherited_only=True))
        t["ag"] = []
        if ag and i == 0:
            for _ in range(rng.randint(1, 3)):
                if names:
                    t["ag"].append({"name": names.pop(), "type": rng.choice(["int", "string", "bool"])})
        if not t["c"] and not [a for a in t["a"] if not a.get("inherited_only")] and not t["ag"]:
            t["a"].append(dict(attribute(names.pop(), False)))
        if i == 0 and not t["c"] and not t["a"] and not t["ag"]:
            t["a"].append({"name": names.pop(), "type": "int", "k": "p", "p": ("i", 32, 0), "ctor": False})
    return {"types": types, "sets": sets, "enums": enums, "phase": nm.new("P"), "pass": nm.new("q"), "user": user}


def to_dsl(rng, it):
    items = []
    for i, t in enumerate(it["types"]):
        attrs = [{"type": a["type"], "name": a["name"], "constructor": a["ctor"]}
                 for a in t["a"] if not a.get("inherited_only")]
        attrs += [{"type": a["type"], "name": a["name"], "synthesized": True} for a in t["ag"]]
        items.append(["node", {"name": t["name"], "root": i == 0,
                               "children": [{"type": c["type"], "name": c["name"], "constructor": c["ctor"]} for c in t["c"]],
                               "attrs": attrs,
                               "equations": [{"node": "this", "attr": a["name"], "args": []} for a in t["ag"]]}])
    for s in it["sets"]:
        items.append(["nodeset", {"name": s["name"], "expr": ["lit", [it["types"][m]["name"] for m in s["m"]]],
                                  "attrs": [{"type": a["type"], "name": a["name"]} for a in s["a"]]}])
    for e in it["enums"]:
        items.append(["enum", e])
    items.append(["phase", {"kind": "phase", "name": it["phase"], "start": True, "actions": [it["pass"]]}])
    items.append(["pass", {"name": it["pass"]}])
    rng.shuffle(items)
    return dsl.render(items)


def fields(t):
    """fields per kind: declared order inside each kind"""
    f = {"c": t["c"], "l": [], "s": [], "p": []}
    for a in t["a"]:
        f[a["k"]].append(a)
    return f


def order(t):
    """constructor parameters: children first, then attributes, as declared"""
    f = fields(t)
    o = [("c", i) for i, c in enumerate(t["c"]) if c["ctor"]]
    for a in t["a"]:
        if a["ctor"]:
            o.append((a["k"], [id(x) for x in f[a["k"]]].index(id(a))))
    return o


CT = {"bool": "bool", "float": "float", "double": "double", "int": "int", "string": "char *"}


def ctype(a):
    ty = a["type"]
    if a["p"][0] == "e":
        return "enum " + ty
    if ty.startswith("user "):
        return ty[5:]
    return CT.get(ty, ty + "_t")


def vfield(a):
    return {"i": "i", "u": "u", "b": "i", "e": "i", "U": "i", "f": "d", "d": "d"}[a["p"][0]]


def harness(it):
    s = '#include "heap.h"\n'
    ty = it["types"]
    s += "struct tdecl decls[] = {\n"

    def slots(xs):
        return "{%s}" % (", ".join("{%d, {%s}}" % (len(x["ty"]), ", ".join(map(str, x["ty"]))) for x in xs) or "{0}")
    for t in ty:
        f = fields(t)
        o = order(t)
        s += "  {NT_%s, %d, %d, %d, %d, %d, %s, %s, {%s}, %d, {%s}},\n" % (
            t["name"].upper(), len(f["c"]), len(f["l"]), len(f["s"]), len(f["p"]), len(t["ag"]), slots(f["c"]), slots(f["l"]),
            ", ".join("{'%s', %d, %d}" % a["p"] for a in f["p"]) or "{0}",
            len(o), ", ".join("{'%s', %d}" % x for x in o) or "{0}")
    s += "};\nint ndecls = %d, nenums = %d, enumn[] = {%s}, enumvals[][12] = {%s};\n" % (
        len(ty), len(it["enums"]), ", ".join(str(len(e["values"]) + 1) for e in it["enums"]) or "0",
        ", ".join("{%s}" % ", ".join([e["prefix"].upper() + "_NULL"] + ["%s_%s" % (e["prefix"].upper(), v.lower()) for v in e["values"]])
                  for e in it["enums"]) or "{0}")
    s += "node_st *construct(int t, struct val *a) { switch (t) {\n"
    for i, t in enumerate(ty):
        f, args = fields(t), []
        for j, (k, x) in enumerate(order(t)):
            if k in "cl":
                args.append("a[%d].n" % j)
            elif k == "s":
                args.append("a[%d].s" % j)
            else:
                args.append("(%s)a[%d].%s" % (ctype(f[k][x]), j, vfield(f[k][x])))
        s += "  case %d: return AST%s(%s);\n" % (i, t["name"].lower(), ", ".join(args))
    s += "  default: _exit(74); } }\n"
    via = "int nvia(int t, char k, int i) { switch (t * 1000 + k) {\n"
    st = "void setf(node_st *n, int t, char k, int i, int via, struct val v) { switch (t * 1000 + k) {\n"
    gt = "struct val getf(node_st *n, int t, char k, int i, int via) { struct val v = {0}; switch (t * 1000 + k) {\n"
    for i, t in enumerate(ty):
        f = fields(t)
        for k in "clsp":
            via += "  case %d + '%s': switch (i) {" % (i * 1000, k)
            st += "  case %d + '%s': switch (i) {\n" % (i * 1000, k)
            gt += "  case %d + '%s': switch (i) {\n" % (i * 1000, k)
            for j, a in enumerate(f[k]):
                owners = [t["name"]] + ([a["prop"]] if a.get("prop") else [])
                via += " case %d: return %d;" % (j, len(owners))
                st += "    case %d: switch (via) {" % j
                gt += "    case %d: switch (via) {" % j
                vf = {"c": "n", "l": "n", "s": "s"}.get(k) or vfield(a)
                for w, o in enumerate(owners):
                    m = "%s_%s(n)" % (o.upper(), a["name"].upper())
                    st += " case %d: %s = %sv.%s; return;" % (w, m, "(%s)" % ctype(a) if k == "p" else "", vf)
                    gt += " case %d: v.%s = %s; return v;" % (w, vf, m)
                st += " }\n"
                gt += " }\n"
            via += " } break;\n"
            st += "  } break;\n"
            gt += "  } break;\n"
    s += via + "  } return 1; }\n" + st + "  } _exit(74); }\n" + gt + "  } _exit(74); }\n"
    s += "void getag(node_st *n, int t, int i, char *out) { switch (t * 100 + i) {\n"
    for i, t in enumerate(ty):
        for j, a in enumerate(t["ag"]):
            m = "%s_%s(n)" % (t["name"].upper(), a["name"].upper())
            s += "  case %d: sprintf(out, %s, %s); break;\n" % (
                i * 100 + j, '"%s"' if a["type"] == "string" else '"%d"', m)
    s += "  } }\nvoid ev_eval(int, const char *);\n"
    for i, t in enumerate(ty):
        for j, a in enumerate(t["ag"]):
            ct, v, lit = {"int": ("int", "%d" % (17 + j), "%d" % (17 + j)), "string": ("char *", '"s%d"' % j, "s%d" % j),
                          "bool": ("bool", "true", "1")}[a["type"]]
            s += '%s EVAL%s_this_%s(void) { ev_eval(%d, "%s"); return %s; }\n' % (
                ct, t["name"].lower(), a["name"].lower(), j, lit, v)
    s += "node_st *%s(node_st *n) { return n; }\n" % it["pass"]
    return s


def tt(it, cost):
    out = []
    for i, t in enumerate(it["types"]):
        f = fields(t)
        out.append({"nc": len(f["c"]), "nl": len(f["l"]), "ns": len(f["s"]), "na": len(t["ag"]),
                    "pd": ["e0" if a["p"][0] == "e" else "0" for a in f["p"]],
                    "order": [{"k": k, "i": j + 1} for k, j in order(t)], "cost": cost[i]})
    return out


def scenario(rng, prop):
    w = {"P10": (100, 0, 0), "P08": (40, 35, rng.choice([0, 15])), "P09": (30, rng.choice([5, 20]), 40)}[prop]
    return [rng.randrange(1 << 30), rng.choice([4, 12, 25, 40]), *w, rng.choice([10, 30, 60, 100]), rng.choice([6, 15, 30])]


def run_instance(tools, d, it, text, c_src, scs):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "i.ccn"), "w").write(text)
    with open(os.path.join(d, "user_types.h"), "w") as f:
        f.write("#pragma once\n%stypedef long UserT;\n" % ("#define CCN_USES_UNSAFE_ACKNOWLEDGE\n" if it["ack"] else ""))
    rc, o, e = cocogen(tools, os.path.join(d, "i.ccn"), os.path.join(d, "g"))
    if rc != 0:
        return "rejected", "cocogen: rc=%s %s" % (rc, (o + e)[-1500:]), []
    open(os.path.join(d, "h.c"), "w").write(c_src)
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"), flags=["-I" + d], asan=True)
    if not ok:
        return "nobuild", msg[-1500:], []
    rc, o, e = run([os.path.join(d, "h")], inp="".join(" ".join(map(str, s)) + "\n" for s in scs).encode(), timeout=600,
                   env=ASAN_ENV)
    if rc != 0:
        return "harness", "rc=%s %s" % (rc, e[-500:]), []
    evs = []
    for ln in o.split("\n"):
        if ln == "#":
            evs.append([])
        elif ln:
            try:
                evs[-1].append(json.loads(ln))
            except ValueError:
                evs[-1].append({"e": "garbled"})
    return "ok", "", evs


def trace(it, ev):
    cost = [0] * len(it["types"])
    rest = []
    for e in ev:
        if e["e"] == "cost":
            cost = e["k"]
        else:
            rest.append(e)
    return {"tt": tt(it, cost), "ev": rest}


CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def model_check(ck, d, prop):
    q = ck.quick()
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\n MaxOps = %d\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n"
           "INVARIANTS Forest Counted\nPROPERTIES %s\n" % (
               {"P08": 6, "P09": 6, "P10": 3}[prop], {"P08": 5, "P09": 5, "P10": 5}[prop] + (0 if q else 1),
               {"P08": "CopyEqual CopyFresh OthersKept", "P09": "FreeExact OthersKept", "P10": "OneField NewAsDeclared OthersKept"}[prop]))
    r = tlc("NodeHeapMC", cfg, d, workers=8, timeout=800, heap="10g")
    if os.environ.get("VERBOSE"):
        log("model check", prop, r["distinct"], r["generated"], round(time.time() - ck.t0, 1))
    if not r["ok"]:
        raise Infra("model check of NodeHeap failed:\n" + r["out"][-5000:] + r["err"][-500:])
    return r["distinct"], r["generated"]


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    ninst, nsc = (72, 30) if ck.quick() else (480, 60)
    rng = ck.rng
    insts = []
    for _ in range(ninst):
        it = random_instance(rng, prop)
        it["ack"] = prop == "P09" or rng.random() < .7
        insts.append((it, to_dsl(rng, it), harness(it), [scenario(rng, prop) for _ in range(nsc)]))
    with Scratch() as d:
        ms, mg = model_check(ck, d, prop)
        res = pmap(lambda i: run_instance(tools, os.path.join(d, "i%d" % i), *insts[i]), range(ninst))
        traces, meta = [], []
        for i, (status, det, evs) in enumerate(res):
            if status in ("rejected", "nobuild"):
                ck.violation("a well-formed specification yields no compiler (%s): %s" % (status, det),
                             {"ccn": insts[i][1], "status": status, "detail": det})
                continue
            if status == "harness" or len(evs) != nsc:
                raise Infra("harness: " + det)
            for sc, ev in zip(insts[i][3], evs):
                traces.append(trace(insts[i][0], ev))
                meta.append((i, sc))
        if os.environ.get("VERBOSE"):
            log("ran", round(time.time() - ck.t0, 1))
        acc, st, gen, info = tlc_judge("NodeHeapTrace", CFG, traces, d)
        for j in range(len(traces)):
            if j not in acc:
                i, sc = meta[j]
                status, det, evs = run_instance(tools, os.path.join(d, "again"), *insts[i][:3], [sc])
                if evs:
                    a2, _, _, _ = tlc_judge("NodeHeapTrace", CFG, [trace(insts[i][0], evs[0])], d)
                    if a2:
                        continue
                ck.violation("history is no behaviour of NodeHeap: " + explain(d, traces[j], "NodeHeapTrace"),
                             {"ccn": insts[i][1], "scenario": sc, "trace": traces[j]})
                if len(ck.viol) >= 3:
                    break
    ev = [e for t in traces for e in t["ev"]]
    cnt = {}
    for e in ev:
        cnt[e["e"]] = cnt.get(e["e"], 0) + 1
    ck.cov = {"states": ms + st, "transitions": mg + gen, "model_states": ms,
              "traces_validated_against_impl": len(acc), "compilers_built": ninst, "events": cnt,
              "samples": [{"ccn": insts[0][1], "scenario": insts[0][3][0], "events": traces[0]["ev"][:8] if traces else []}]}
    ck.assumptions = ["TLC, gcc with AddressSanitizer and the harness under /verif/harness are trusted",
                      "trees are type consistent; each node is in at most one child"]
    return ck.finish()
