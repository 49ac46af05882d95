"""P13: attributes of nodesets (spec/NodesetAttrs.tla)."""
import json
import os
import re

import dsl
from c_dsl import attr, compare, items, judge, lit, ref, speller, tla
from c_life import explain
from c_phase import Names
from core import *

PRIMS = ["int", "bool", "float", "double", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
CT = {"int": "int", "bool": "bool", "float": "float", "double": "double"}
for _b in (8, 16, 32, 64):
    CT["int%d" % _b] = "int%d_t" % _b
    CT["uint%d" % _b] = "uint%d_t" % _b


def expr_value(S, e, seen=()):
    if e["op"] == "lit":
        return set(e["ids"])
    if e["op"] == "ref":
        if e["id"] in seen:
            return set()
        for n in S["nodesets"]:
            if n["name"] == e["id"]:
                return expr_value(S, n["expr"], seen + (e["id"],))
        return set()
    a, b = expr_value(S, e["l"], seen), expr_value(S, e["r"], seen)
    return a | b if e["op"] == "|" else a & b if e["op"] == "&" else a - b


def union(es):
    x = es[0]
    for y in es[1:]:
        x = {"op": "|", "l": x, "r": y}
    return x


def attrs_of(S, x):
    """attributes of a node or nodeset, own and given (only to steer)"""
    out = {a["name"]: a for a in x["attrs"]}
    if "expr" in x:
        givers = [n for n in S["nodesets"] if x["name"] in reach_of(S, n)]
    else:
        givers = [n for n in S["nodesets"] if x["name"] in expr_value(S, n["expr"])]
    for n in givers:
        for a in n["attrs"]:
            out.setdefault(a["name"], a)
    return list(out.values())


def reach_of(S, n):
    reach, todo = set(), [n["expr"]]
    while todo:
        e = todo.pop()
        if e["op"] == "ref" and e["id"] not in reach:
            reach.add(e["id"])
            todo += [m["expr"] for m in S["nodesets"] if m["name"] == e["id"]]
        elif e["op"] in ("|", "&", "-"):
            todo += [e["l"], e["r"]]
    return reach


def random_spec(rng, fault=None):
    nm = Names(rng)

    def new(p):
        return nm.new(p).lower()
    nn = rng.randint(2, 7)
    nodes, sets = [new("n") for _ in range(nn)], [new("s") for _ in range(rng.randint(1, 6))]
    enums = [new("e") for _ in range(rng.randint(0, 2))]
    S = {"phases": [{"name": new("p"), "uid": "", "start": True, "acts": []}], "passes": [{"name": new("q"), "uid": "", "func": ""}],
         "travs": [], "nodes": [], "nodesets": [], "enums":
         [{"name": e, "prefix": new("x"), "values": [new("v") for _ in range(rng.randint(1, 3))]} for e in enums]}
    S["phases"][0]["acts"] = [S["passes"][0]["name"]]
    user = rng.random() < .3
    pool = [new("a") for _ in range(rng.choice([3, 6, 10]))]

    def new_attr(name, ag=True):
        r = rng.random()
        k = "prim" if r < .35 else "string" if r < .55 else "user" if r < .65 and user else "ref"
        rf = rng.choice(PRIMS) if k == "prim" else "" if k == "string" else "UserT" if k == "user" else rng.choice(nodes + sets + enums * 2)
        a = attr(name, k, rf)
        if ag and rng.random() < .3:
            a[rng.choice(["syn", "syn", "inh"])] = True
        return a
    root = nodes[0]
    for i, s in enumerate(sets):
        es = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if i and rng.random() < .55:
                es.append(ref(rng.choice(sets[:i][-3:])))
            else:
                es.append(lit(*rng.sample(nodes[1:] if len(nodes) > 1 else nodes, rng.randint(1, min(3, nn - 1)))))
        e = union(es)
        if rng.random() < .15:
            e = {"op": rng.choice("&-"), "l": e, "r": lit(*rng.sample(nodes, rng.randint(1, nn)))}
        S["nodesets"].append({"name": s, "expr": e, "attrs": []})
    for i, n in enumerate(nodes):
        S["nodes"].append({"name": n, "root": i == 0, "children": [], "attrs": [], "eqs": [], "lts": []})
    # attributes of nodesets; mostly no name twice where members meet
    for n in S["nodesets"]:
        mem = expr_value(S, n["expr"])
        bad = [x for x in reach_of(S, n) | {n["name"]} if any(op in json.dumps(next(m for m in S["nodesets"] if m["name"] == x)["expr"]) for op in ('"&"', '"-"'))]
        if bad and rng.random() < .97:
            continue
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            a = rng.choice(pool)
            if any(b["name"] == a for b in n["attrs"]):
                continue
            if rng.random() < .97 and any(b["name"] == a for m in S["nodesets"] for b in m["attrs"] if expr_value(S, m["expr"]) & mem or m["name"] in reach_of(S, n) or n["name"] in reach_of(S, m)):
                continue
            n["attrs"].append(new_attr(a))
    # own attributes and repetitions in members
    for x in S["nodes"]:
        given = [a for n in S["nodesets"] if x["name"] in expr_value(S, n["expr"]) for a in n["attrs"]]
        for a in given:
            if not a["inh"] and not a["syn"] and rng.random() < .35 and not any(b["name"] == a["name"] for b in x["attrs"]):
                x["attrs"].append(dict(a, ctor=True))
        names = {a["name"] for a in given + x["attrs"]}
        free = [a for a in pool if a not in names]
        rng.shuffle(free)
        for _ in range(rng.choice([0, 0, 1, 2])):
            if free:
                b = new_attr(free.pop(), False)
                b["ctor"] = rng.random() < .4
                x["attrs"].append(b)
        for _ in range(rng.choice([0, 1, 2, 3]) if not x["root"] else rng.choice([1, 2, 3, 4])):
            t = rng.choice(nodes[1:] + sets)
            # sometimes the name of an attribute of other node types
            c = free.pop() if free and rng.random() < .3 else new("c")
            if rng.random() < .15:
                c = rng.choice([n for n in nodes + sets if n not in [y["name"] for y in x["attrs"] + x["children"] + given]] or [c])
            x["children"].append({"name": c, "type": t, "ctor": rng.random() < .2, "lts": []})
        rng.shuffle(x["attrs"])
    for x in S["nodes"]:
        add_equations(S, x)
    rng.shuffle(S["nodesets"])
    return S


def add_equations(S, x):
    x["eqs"] = [{"who": "", "attr": a["name"], "args": []} for a in attrs_of(S, x) if a["syn"]]
    byname = {y["name"]: y for y in S["nodes"] + S["nodesets"]}
    for c in x["children"]:
        x["eqs"] += [{"who": c["name"], "attr": a["name"], "args": []} for a in attrs_of(S, byname[c["type"]]) if a["inh"]]


def spoil(S, rng):
    """one change to the attributes of nodesets or their members"""
    import copy
    S = copy.deepcopy(S)
    given = [(n, a) for n in S["nodesets"] for a in n["attrs"]]
    if not given:
        return S
    n, a = rng.choice(given)
    mem = [x for x in S["nodes"] if x["name"] in expr_value(S, n["expr"])]
    x = rng.choice(mem or S["nodes"])
    k = rng.randrange(10)
    others = PRIMS + ["string"] + [y["name"] for y in S["nodes"] + S["nodesets"] + S["enums"]]

    def redeclare(b):
        x["attrs"] = [y for y in x["attrs"] if y["name"] != a["name"]]
        x["attrs"].insert(rng.randint(0, len(x["attrs"])), b)
    if k == 0:
        redeclare(dict(a, ctor=False))
    elif k == 1:
        redeclare(dict(a, ctor=True))
    elif k in (2, 3):
        t = rng.choice(others)
        redeclare(dict(a, ctor=True, inh=False, syn=False, kind="prim" if t in PRIMS else t if t == "string" else "ref", ref="" if t == "string" else t))
    elif k == 4:
        redeclare(dict(a, ctor=rng.random() < .5, **rng.choice([{"inh": True, "syn": False}, {"syn": True, "inh": False}, {"syn": False, "inh": False}])))
    elif k == 5:
        a["ctor"] = True
    elif k == 6:
        n["expr"] = {"op": rng.choice("&-"), "l": n["expr"], "r": lit(rng.choice(S["nodes"])["name"])}
    elif k == 7:
        r = [m for m in S["nodesets"] if m["name"] in reach_of(S, n)] or [n]
        m = rng.choice(r)
        m["expr"] = {"op": rng.choice("&-"), "l": m["expr"], "r": lit(rng.choice(S["nodes"])["name"])}
    elif k == 8:
        x["children"].append({"name": a["name"], "type": S["nodes"][-1]["name"], "ctor": False, "lts": []})
    else:
        m = rng.choice(S["nodesets"])
        m["attrs"] = [y for y in m["attrs"] if y["name"] != a["name"]] + [
            dict(a, kind="prim", ref=rng.choice(PRIMS)) if rng.random() < .7 else dict(a)]
    for y in S["nodes"]:
        add_equations(S, y)
    return S


# ---------------------------------------------------------------- harness
def ctype(a, S, sp):
    if a["kind"] == "prim":
        return CT[a["ref"]]
    if a["kind"] == "string":
        return "char *"
    if a["kind"] == "user":
        return "UserT"
    if a["ref"] in [e["name"] for e in S["enums"]]:
        return "enum " + sp(a["ref"])
    return "node_st *"


def harness(S, sp):
    """-> main program, program whose lines tell which accessors are writable,
    what the output lines are about"""
    nodes, sets = S["nodes"], S["nodesets"]
    names = sorted({a["name"] for x in nodes + sets for a in x["attrs"]} | {c["name"] for x in nodes for c in x["children"]})
    head = "#define USER_CASE , UserT: \"user\"\n" if any(a["kind"] == "user" for x in nodes + sets for a in x["attrs"]) else ""
    o = head + '#include "nsattr.h"\n'
    k = "#define PROBE\n" + head + '#include "nsattr.h"\n'
    o += "node_st *mk(int t) { switch (t) {\n"
    for i, x in enumerate(nodes):
        n = sum(c["ctor"] for c in x["children"]) + sum(a["ctor"] for a in x["attrs"])
        o += "  case %d: return AST%s(%s);\n" % (i, x["name"], ", ".join(["0"] * n))
    o += "  } return 0; }\nvoid fields(void) {\n"
    probes, vias, g = [], [], ""
    for x in nodes + sets:
        o += '  entity("%s");\n' % x["name"]
        for a in names:
            mac = "%s_%s" % (x["name"].upper(), a.upper())
            o += '#ifdef %s\n  field("%s", TYPE(%s((node_st *)0)));\n#endif\n' % (mac, a, mac)
            probes.append((x["name"], a))
            k += '#ifdef %s\n#line %d "probe"\nvoid w%d(node_st *n) { %s(n) = %s(n); }\n#endif\n' % (
                mac, len(probes), len(probes), mac, mac)
    o += "}\n"
    for s in sets:
        for a in attrs_of(S, s):
            if a["inh"] or a["syn"]:
                continue
            for i, x in enumerate(nodes):
                sm, xm = "%s_%s" % (s["name"].upper(), a["name"].upper()), "%s_%s" % (x["name"].upper(), a["name"].upper())
                n = len(vias)
                vias.append((s["name"], a["name"], x["name"]))
                o += "#ifdef %s\nstatic void get%d(node_st *n, void **p, void **q) {\n  *p = &%s(n);\n" % (sm, n, sm)
                if not any(b["name"] == a["name"] and (b["inh"] or b["syn"]) for b in attrs_of(S, x)):
                    o += "#ifdef %s\n  *q = &%s(n);\n#endif\n" % (xm, xm)
                o += "}\n#endif\n"
                g += "#ifdef %s\n  via(%d, get%d);\n#else\n  none();\n#endif\n" % (sm, i, n)
    o += "void vias(void) {\n" + g + "}\n"
    used = set()
    for x in nodes:
        for q in x["eqs"]:
            a = next((a for a in (attrs_of(S, x) if not q["who"] else attrs_of(S, next(
                y for y in nodes + sets if y["name"] == next(c["type"] for c in x["children"] if c["name"] == q["who"]))))
                if a["name"] == q["attr"]), None)
            f = "EVAL%s_%s_%s" % (x["name"], q["who"] or "this", q["attr"])
            if a and f not in used:
                used.add(f)
                o += "%s %s(void) { return 0; }\n" % (ctype(a, S, sp), f)
    o += "node_st *%s(node_st *n) { return n; }\n" % sp(S["passes"][0]["name"])
    return o, k, vias, probes


def run_instance(tools, d, S, seed):
    """-> (kind, detail, events, text)"""
    rng = random.Random(seed)
    os.makedirs(d, exist_ok=True)
    sp = speller(rng, False)
    text = dsl.render(items(S, rng, sp, inline=False))
    f = os.path.join(d, "i.ccn")
    open(f, "w").write(text)
    rc, o, e = cocogen(tools, f, os.path.join(d, "g"))
    if rc != 0:
        return "rejected", "rc=%s %s" % (rc, (o + e)[-1000:]), [], text
    open(os.path.join(d, "user_types.h"), "w").write("#pragma once\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n"
                                                     "typedef struct user_thing *UserT;\n")
    src, probe, vias, probes = harness(S, sp)
    open(os.path.join(d, "h.c"), "w").write(src)
    open(os.path.join(d, "k.c"), "w").write(probe)
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"), flags=["-I" + d])
    if not ok:
        return "nobuild", msg[-1500:], [], text
    rc, o, e = run([os.path.join(d, "h")], timeout=100)
    rc2, _, e2 = run(["gcc", "-w", "-fsyntax-only", "-fmax-errors=0", "k.c", "-Ig", "-I.", "-I" + os.path.join(REPO, "copra"),
                      "-I" + os.path.join(REPO, "palm", "include"), "-I" + HARNESS], cwd=d, timeout=60)
    readonly = {probes[int(m) - 1] for m in re.findall(r"^probe:(\d+):\d+: error: lvalue required", e2, re.M)}
    errs = {int(m) for m in re.findall(r":(\d+):\d+: error:", e2)}
    if rc != 0 or (rc2 != 0 and not readonly):
        return "harness", "rc=%s %s %s" % (rc, e[-300:], e2[-300:]), [], text
    ev, vi = [], iter(vias)
    for ln in o.split("\n")[:-1]:
        r = json.loads(ln)
        if r[0] == "entity":
            ev.append({"k": "fields", "x": r[1], "fs": []})
        elif r[0] == "field":
            ev[-1]["fs"].append({"a": r[1], "t": r[2], "w": (ev[-1]["x"], r[1]) not in readonly})
        else:
            n, a, x = next(vi)
            ev.append({"k": "via", "n": n, "a": a, "x": x, "r": r[0]})
    if next(vi, None) is not None:
        return "harness", "lines missing", [], text
    shutil.rmtree(d, ignore_errors=True)
    return "ok", "", ev, text


CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def model_check(ck, d):
    gen = dist = 0
    runs = [('{"a", "b"}', '{"s", "r"}', '{"x"}', "{1}")]
    if not ck.quick():
        runs += [('{"a", "b"}', '{"s", "r"}', '{"x"}', "{1, 2}"), ('{"a", "b"}', '{"s", "r"}', '{"x"}', "{1, 4}"),
                 ('{"a"}', '{"s", "r", "q"}', '{"x"}', "{1}")]
    for nt, ns, an, ks in runs:
        cfg = "SPECIFICATION Spec\nCONSTANTS NT = %s\n NS = %s\n AN = %s\n Kinds2 = %s\nCHECK_DEADLOCK FALSE\n" \
              "INVARIANTS NoSpread Complete Reach\n" % (nt, ns, an, ks)
        r = tlc("NodesetAttrsMC", cfg, d, workers=8, timeout=800, heap="8g")
        if not r["ok"]:
            raise Infra("model check of NodesetAttrs failed:\n" + r["out"][-3000:] + r["err"][-500:])
        gen += r["generated"]
        dist += r["distinct"]
    return dist, gen


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    rng = ck.rng
    with Scratch() as d:
        ms, mg = model_check(ck, d)
        good = [random_spec(rng) for _ in range(110 if ck.quick() else 1500)]
        bad = [spoil(random_spec(rng), rng) for _ in range(500 if ck.quick() else 8000)]
        verd = judge(good + bad, d)
        cases = [(S, dsl.render(items(S, rng, speller(rng), inline=False)), v, why, "attributes")
                 for S, (v, why) in zip(good + bad, verd)]
        compare(ck, [tools, build_repo(True)], d, cases, "c")
        pick = [S for S, v in zip(good, verd) if v[0] == "accept"]
        pick += [S for S, v in zip(bad, verd[len(good):]) if v[0] == "accept"][:30 if ck.quick() else 800]
        seeds = [rng.randrange(1 << 30) for _ in pick]
        res = pmap(lambda i: run_instance(tools, os.path.join(d, "i%d" % i), pick[i], seeds[i]), range(len(pick)))
        traces, meta = [], []
        for i, (status, det, ev, text) in enumerate(res):
            if status == "harness":
                raise Infra("harness: " + det + "\n" + text)
            if status != "ok":
                ck.violation("an accepted specification yields no working compiler (%s): %s" % (status, det),
                             {"ccn": text, "detail": det})
                continue
            traces.append({"spec": tla(pick[i]), "ev": ev})
            meta.append(i)
        acc, st, gen, _ = tlc_judge("NodesetAttrsTrace", CFG, traces, d)
        for j, i in enumerate(meta):
            if j not in acc and len(ck.viol) < 4:
                ck.violation("accessors do not agree with NodesetAttrs: " + explain(d, traces[j], "NodesetAttrsTrace")[:1500],
                             {"ccn": res[i][3], "trace": traces[j]})
    n = {v: sum(1 for c in cases if c[2] == v) for v in ("accept", "reject", "any")}
    ev = [e for t in traces for e in t["ev"]]
    ck.cov = {"states": ms + st, "transitions": mg + gen, "model_states": ms, "traces_validated_against_impl": len(acc),
              "specifications_judged": len(cases), "verdicts": n, "accessors_observed": sum(len(e["fs"]) for e in ev if e["k"] == "fields"),
              "nodeset_accesses": sum(e["k"] == "via" for e in ev),
              "samples": [{"ccn": res[0][3], "events": traces[0]["ev"][:5] if traces else []}]}
    ck.assumptions = ["TLC, gcc and the harness under /verif/harness are trusted", "at most 7 node types and 6 nodesets",
                      "attributes declared by two nodesets of one member may be accepted or rejected",
                      "values of inherited and synthesized attributes are read through nodeset accessors in the check of P14"]
    return ck.finish()
