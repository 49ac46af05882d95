"""P12: the values of set expressions (spec/Nodesets.tla)."""
import json
import os
import re

import dsl
from c_dsl import speller, relayout
from c_life import explain
from c_phase import Names
from core import *

OPS = "|&-"


def lit(op, ids):
    return {"op": op, "k": "lit", "ids": list(ids), "id": "", "e": []}


def ref(op, i):
    return {"op": op, "k": "ref", "ids": [], "id": i, "e": []}


def par(op, e):
    return {"op": op, "k": "par", "ids": [], "id": "", "e": e}


def show(e, sp):
    return "".join((" %s " % t["op"] if i else "") + (
        "{" + ", ".join(sp(x) for x in t["ids"]) + "}" if t["k"] == "lit" else
        sp(t["id"]) if t["k"] == "ref" else "(" + show(t["e"], sp) + ")") for i, t in enumerate(e))


def value(e, env):
    """only to steer the choice of instances; None: not defined"""
    v = set()
    for t in e:
        x = set(t["ids"]) if t["k"] == "lit" else env(t["id"]) if t["k"] == "ref" else value(t["e"], env)
        if x is None:
            return None
        v = v | x if t["op"] == "|" else v & x if t["op"] == "&" else v - x
    return v


def values(s):
    out = {}
    left = list(s["sets"])
    while left:
        n = [x for x in left if value(x["e"], out.get) is not None]
        if not n:
            break
        for x in n:
            out[x["n"]] = value(x["e"], out.get)
        left = [x for x in left if x["n"] not in out]
    return out


def random_expr(rng, types, refs, depth, maxt=4, mint=1):
    out = []
    for i in range(rng.randint(mint, maxt)):
        op = "|" if i == 0 else rng.choice(OPS)
        k = rng.random()
        if k < .25 and depth:
            out.append(par(op, random_expr(rng, types, refs, depth - 1, 3, 2)))
        elif k < .55 and refs:
            out.append(ref(op, rng.choice(refs)))
        else:
            ids = [rng.choice(types) for _ in range(rng.choice([1, 1, 2, 3, max(1, len(types) - 1)]))]
            out.append(lit(op, ids if rng.random() < .1 else sorted(set(ids), key=ids.index)))
    return out


def random_system(rng, kind="good"):
    """kind good: accepted; circular; empty: some traversal without targets"""
    nm = Names(rng)

    def new(p):
        return nm.new(p).lower()
    types = [new("n") for _ in range(rng.choice([2, 3, 5, 8, 12]))]
    names = [new("s") for _ in range(rng.choice([1, 4, 8, 20]) if kind != "circular" else rng.choice([1, 2, 3, 6]))]
    sets = [{"n": n, "e": random_expr(rng, types, names[:i][-6:], rng.choice([0, 1, 2, 3]))} for i, n in enumerate(names)]
    if kind == "circular":
        # a ring of references, anywhere in the expressions
        ring = rng.sample(names, rng.randint(1, min(4, len(names))))
        for a, b in zip(ring, ring[1:] + ring[:1]):
            e = next(s for s in sets if s["n"] == a)["e"]
            for _ in range(rng.randint(0, 2)):
                ps = [t for t in e if t["k"] == "par"]
                if ps:
                    e = rng.choice(ps)["e"]
            i = rng.randint(0, len(e))
            e.insert(i, ref("|" if i == 0 else rng.choice(OPS), b))
            if i == 0 and len(e) > 1:
                e[1]["op"] = rng.choice(OPS)
    s = {"sets": sets, "travs": []}
    v = values(s)
    ok = [n for n in names if n in v]
    for _ in range(rng.choice([0, 1, 3, 6])):
        e = random_expr(rng, types, ok, rng.choice([0, 1, 2]))
        if value(e, v.get):
            s["travs"].append({"n": new("t"), "u": new("ut"), "e": e})
    if kind == "empty":
        for _ in range(50):
            e = random_expr(rng, types, ok, rng.choice([0, 1, 2]))
            if not value(e, v.get):
                s["travs"].insert(rng.randint(0, len(s["travs"])), {"n": new("t"), "u": new("ut"), "e": e})
                break
    return dict(s, types=types, nm={k: new(k) for k in ("top", "hold", "phase", "pass")}, c=[new("c") for _ in sets],
                d=[new("d") for _ in types])


def small_exprs(types, refs):
    """all expressions of at most three terms, and those with a parenthesised
    right operand"""
    lits = [[t for i, t in enumerate(types) if m >> i & 1] for m in range(1, 1 << len(types))]

    def terms(op):
        return [lit(op, x) for x in lits] + [ref(op, r) for r in refs]
    for a in terms("|"):
        yield [a]
        for o in OPS:
            for b in terms(o):
                yield [a, b]
                for o2 in OPS:
                    for c in terms(o2):
                        yield [a, b, c]
                        yield [a, par(o, [dict(b, op="|"), c])]


def bulk_systems(rng, types, exprs, per):
    """systems of many nodesets, one for every expression"""
    exprs = list(exprs)
    rng.shuffle(exprs)
    for k in range(0, len(exprs), per):
        nm = Names(rng)

        def new(p):
            return nm.new(p).lower()
        names = {"t%d" % i: new("n") for i in range(len(types))}
        base = {"r": new("r"), "q": new("q")}

        def rename(e):
            return [dict(t, ids=[names[x] for x in t["ids"]], id=base.get(t["id"], ""), e=rename(t["e"])) for t in e]
        sets = [{"n": base["r"], "e": rename([lit("|", types[:2])])},
                {"n": base["q"], "e": rename([ref("|", "r"), lit("|", types[2:]), lit("-", types[:1])])}]
        es = [rename(e) for e in exprs[k:k + per]]
        sets += [{"n": new("s"), "e": e} for e in es]
        v = values({"sets": sets})
        travs = [{"n": new("t"), "u": new("ut"), "e": e} for e in es if value(e, v.get)]
        rng.shuffle(travs)
        yield {"sets": sets, "travs": travs[:40], "types": [names["t%d" % i] for i in range(len(types))],
               "nm": {x: new(x) for x in ("top", "hold", "phase", "pass")}, "c": [new("c") for _ in sets],
               "d": [new("d") for _ in types]}


def to_dsl(rng, s):
    sp = speller(rng)
    n = s["nm"]
    out = []

    def nodeset(x):
        return "nodeset %s = %s" % (sp(x["n"]), show(x["e"], sp)) if rng.random() < .6 else \
            "nodeset %s { nodes = %s }" % (sp(x["n"]), show(x["e"], sp))
    out += [nodeset(x) for x in s["sets"]]
    out += ["traversal %s { uid = %s, nodes = %s }" % (sp(t["n"]), sp(t["u"]), show(t["e"], sp)) for t in s["travs"]]
    out += ["node %s { attributes { int v } }" % sp(t) for t in s["types"]]
    out.append("root node %s { children { %s } }" % (sp(n["top"]), ", ".join(
        ["%s %s" % (sp(n["hold"]), "holder")] + ["%s %s" % (sp(t), sp(d)) for t, d in zip(s["types"], s["d"])])))
    out.append("node %s { children { %s } }" % (sp(n["hold"]), ", ".join(
        "%s %s" % (sp(x["n"]), sp(c)) for x, c in zip(s["sets"], s["c"]))))
    out.append("pass %s" % sp(n["pass"]))
    out.append("start phase %s { actions { %s; %s; } }" % (sp(n["phase"]), sp(n["pass"]), sp(n["pass"])))
    rng.shuffle(out)
    t = "".join(x + ";\n" for x in out)
    return relayout(t, rng) if rng.random() < .2 else t


def harness(s, funcs):
    n = s["nm"]
    o = '#include "sets.h"\n'
    o += "int nsets = %d, ntravs = %d, ntypes = %d;\n" % (len(s["sets"]), len(s["travs"]), len(s["types"]))
    o += "enum ccn_traversal_type travs[] = {%s};\n" % (", ".join("TRAV_" + t["u"].upper() for t in s["travs"]) or "0")
    o += "node_st *mk(int t) { switch (t) {\n"
    for i, t in enumerate(s["types"]):
        o += "  case %d: return AST%s();\n" % (i, t)
    o += "  } return 0; }\nnode_st *probe(int s, int t) { node_st *r = AST%s(), *h = AST%s(); %s_HOLDER(r) = h; switch (s) {\n" % (
        n["top"], n["hold"], n["top"].upper())
    for i, c in enumerate(s["c"]):
        o += "  case %d: %s_%s(h) = mk(t); break;\n" % (i, n["hold"].upper(), c.upper())
    o += "  } return r; }\nnode_st *every(void) { node_st *r = AST%s();\n" % n["top"]
    for i, d in enumerate(s["d"]):
        o += "  %s_%s(r) = mk(%d);\n" % (n["top"].upper(), d.upper(), i)
    o += "  return r; }\n"
    for k, t in enumerate(s["travs"]):
        for i, x in enumerate(s["types"]):
            o += "node_st *%s%s(node_st *n) { return user(%d, %d, n); }\n" % (t["u"].upper(), x, k, i)
    o += "node_st *%s(node_st *n) { return n; }\n" % funcs
    return o


def run_instance(tools, d, s, text):
    """-> (kind, detail, events)"""
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "i.ccn")
    open(f, "w").write(text)
    rc, o, e = cocogen(tools, f, os.path.join(d, "g"), timeout=60)
    k = classify(rc, o, e)
    if k != "accept":
        return ("ok", (o + e)[-800:], [{"k": "outcome", "ok": False}]) if k == "reject" else \
            ("abnormal", "rc=%s %s" % (rc, (o + e)[-1500:]), [])
    # the name of the pass function is spelt as in the definition
    m = re.search(r"pass\s+(\w+)", re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S))
    open(os.path.join(d, "h.c"), "w").write(harness(s, m.group(1)))
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"))
    if not ok:
        return "nobuild", msg[-1500:], []
    rc, o, e = run([os.path.join(d, "h")], timeout=300)
    ls = o.split("\n")[:-1]
    if rc != 0 or len(ls) != len(s["sets"]) + len(s["travs"]):
        return "harness", "rc=%s %s" % (rc, e[-500:]), []
    ev = [{"k": "outcome", "ok": True}]
    for x, ln, k in [(x["n"], ln, "admitted") for x, ln in zip(s["sets"], ls)] + \
                    [(x["n"], ln, "handled") for x, ln in zip(s["travs"], ls[len(s["sets"]):])]:
        if "x" in ln:
            return "crash", "%s %s: %s" % (k, x, ln), []
        ev.append({"k": k, "n": x, "ns": [t for t, b in zip(s["types"], ln) if b == "1"]})
    shutil.rmtree(d, ignore_errors=True)
    return "ok", "", ev


def trace(s, ev):
    return {"sys": {"sets": s["sets"], "travs": [{"n": t["n"], "e": t["e"]} for t in s["travs"]]}, "ev": ev}


CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def model_check(ck, d):
    gen = dist = 0
    runs = [('{"a", "b"}', '{"s", "r"}', 2, "FALSE"), ('{"a"}', '{"s"}', 3, "TRUE"), ('{"a"}', '{"s", "r", "q", "p"}', 1, "FALSE")]
    if not ck.quick():
        runs += [('{"a", "b"}', '{"s"}', 3, "TRUE"), ('{"a"}', '{"s", "r", "q"}', 2, "FALSE"), ('{"a", "b", "c"}', '{"s", "r"}', 2, "FALSE"), ('{"a", "b"}', '{"s", "r"}', 3, "FALSE"),
                 ('{"a", "b", "c"}', '{"s"}', 3, "FALSE")]
    for nt, st, n, deep in runs:
        cfg = "SPECIFICATION Spec\nCONSTANTS NT = %s\n Sets = %s\n Terms = %d\n Deep = %s\nCHECK_DEADLOCK FALSE\n" \
              "INVARIANTS Meaning StuckIff Grouping\n" % (nt, st, n, deep)
        r = tlc("NodesetsMC", cfg, d, workers=8, timeout=800, heap="8g")
        if not r["ok"]:
            raise Infra("model check of Nodesets failed:\n" + r["out"][-3000:] + r["err"][-500:])
        gen += r["generated"]
        dist += r["distinct"]
    return dist, gen


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    rng = ck.rng
    insts = []
    types = ["t0", "t1", "t2"]
    ex = list(small_exprs(types, ["r", "q"]))
    nex = len(ex)
    if ck.quick():
        ex = rng.sample(ex, 1600)
    insts += list(bulk_systems(rng, types, ex, 100))
    for _ in range(60 if ck.quick() else 1200):
        insts.append(random_system(rng))
    for _ in range(120 if ck.quick() else 1500):
        insts.append(random_system(rng, rng.choice(["circular", "circular", "empty"])))
    insts = [(s, to_dsl(rng, s)) for s in insts]
    with Scratch() as d:
        ms, mg = model_check(ck, d)
        res = pmap(lambda i: run_instance(tools, os.path.join(d, "i%d" % i), *insts[i]), range(len(insts)))
        traces, meta = [], []
        for i, (status, det, ev) in enumerate(res):
            if status == "harness":
                raise Infra("harness: " + det)
            if status != "ok":
                ck.violation("no verdict or no working compiler (%s): %s" % (status, det), {"ccn": insts[i][1], "detail": det})
                continue
            traces.append(trace(insts[i][0], ev))
            meta.append(i)
        acc, st, gen, _ = tlc_judge("NodesetsTrace", CFG, traces, d)
        for j, i in enumerate(meta):
            if j not in acc and len(ck.viol) < 3:
                ck.violation("observations do not agree with Nodesets: " + explain(d, traces[j], "NodesetsTrace")[:600] +
                             " " + res[i][1], {"ccn": insts[i][1], "trace": traces[j]})
    ck.cov = {"states": ms + st, "transitions": mg + gen, "model_states": ms, "traces_validated_against_impl": len(acc),
              "set_values_observed": sum(len(t["ev"]) - 1 for t in traces), "small_expressions": [len(ex), nex],
              "rejected": sum(1 for t in traces if not t["ev"][0]["ok"]),
              "samples": [{"ccn": insts[-200][1] if len(insts) > 200 else insts[0][1], "events": traces[0]["ev"][:4] if traces else []}]}
    ck.assumptions = ["TLC, gcc and the harness under /verif/harness are trusted", "at most 100 nodesets and 12 node types in a specification"]
    return ck.finish()
