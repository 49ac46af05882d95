"""P14: evaluation of attributes (spec/AttrGrammar.tla)."""
import itertools
import json
import os

import dsl
from c_attr import at, byname, judge, model_check, random_grammar
from c_dsl import items, speller, tla
from c_life import explain
from c_nsattr import attrs_of, ctype, expr_value
from core import *


def kind_of(a, S):
    if a["kind"] == "ref":
        return "enum" if a["ref"] in [e["name"] for e in S["enums"]] else "node"
    return a["ref"] if a["kind"] == "prim" else a["kind"]


def value(a, S, tok, sp):
    k = kind_of(a, S)
    if k == "enum":
        e = next(e for e in S["enums"] if e["name"] == a["ref"])
        return "(enum %s)((%s) %% %d)" % (sp(e["name"]), tok, len(e["values"]))
    return "MK_%s(%s)" % (k, tok)


def string_of(e, a, S):
    return "STR(%s)" % ("(int)(%s)" % e if kind_of(a, S) == "enum" else e)


def always(c):
    return any(l["kind"] == "mandatory" and not l["lo"] and not l["hi"] for l in c["lts"])


def types_of(S, t):
    return [t] if t in [x["name"] for x in S["nodes"]] else sorted(expr_value(S, {"op": "ref", "id": t}))


def is_ag(a):
    return a["inh"] or a["syn"]


def harness(S, sp):
    o = ""
    if any(a["kind"] == "user" for x in S["nodes"] + S["nodesets"] for a in x["attrs"]):
        o += "#include \"user_types.h\"\n#define USER_CASE , UserT: s_u\n"
    o += '#include "attr.h"\n'
    for x in S["nodes"]:
        kids = {c["name"]: c for c in x["children"]}
        for q in x["eqs"]:
            a = next(a for a in at(S, x, q["who"]) if a["name"] == q["attr"])
            opt = []
            for g in q["args"]:
                if g["who"] and not always(kids[g["who"]]) and g["who"] not in opt:
                    opt.append(g["who"])
            for n in range(len(opt) + 1):
                for nulls in itertools.combinations(opt, n):
                    args = [g for g in q["args"] if g["who"] not in nulls]
                    f = "EVAL%s_%s_%s%s" % (x["name"], q["who"] or "this", q["attr"], "".join("_%s_NULL" % c for c in nulls))
                    ats = [next(b for b in at(S, x, g["who"]) if b["name"] == g["attr"]) for g in args]
                    o += "%s %s(%s) {\n  call(\"%s\", \"%s\", \"%s\", \"%s\");\n" % (
                        ctype(a, S, sp), f, ", ".join("%s p%d" % (ctype(b, S, sp), i) for i, b in enumerate(ats)) or "void",
                        x["name"], q["who"], q["attr"], ", ".join("\\\"%s\\\"" % c for c in nulls))
                    for i, b in enumerate(ats):
                        o += "  arg(%s);\n" % string_of("p%d" % i, b, S)
                    o += "  %s r = %s;\n  ret(%s);\n  return r;\n}\n" % (ctype(a, S, sp), value(a, S, "count", sp), string_of("r", a, S))
    o += "static node_st *mk(int t) { switch (t) {\n"
    for i, x in enumerate(S["nodes"]):
        n = sum(c["ctor"] for c in x["children"]) + sum(a["ctor"] for a in x["attrs"])
        o += "  case %d: return AST%s(%s);\n" % (i, x["name"], ", ".join(["0"] * n))
    o += "  } return 0; }\n"
    put = kid = pl = fi = ""
    for i, x in enumerate(S["nodes"]):
        X = x["name"].upper()
        put += "  case %d: switch (a) {\n" % i
        kid += "  case %d: switch (s) {\n" % i
        pl += "  case %d:\n" % i
        fi += "  case %d:\n" % i
        for j, a in enumerate(sorted(attrs_of(S, x), key=lambda a: a["name"])):
            A = a["name"].upper()
            if is_ag(a):
                fi += "    fin(v, \"%s\", \"%s\", %s);\n" % (a["name"], x["name"], string_of("%s_%s(n)" % (X, A), a, S))
            else:
                put += "    case %d: %s_%s(n) = %s; break;\n" % (j, X, A, value(a, S, "k", sp))
                pl += "    plain(v, \"%s\", %s);\n" % (a["name"], string_of("%s_%s(n)" % (X, A), a, S))
        for s in S["nodesets"]:
            if x["name"] in types_of(S, s["name"]):
                for a in attrs_of(S, s):
                    if is_ag(a):
                        fi += "    fin(v, \"%s\", \"%s\", %s);\n" % (
                            a["name"], s["name"], string_of("%s_%s(n)" % (s["name"].upper(), a["name"].upper()), a, S))
        for j, c in enumerate(x["children"]):
            kid += "    case %d: %s_%s(n) = c; break;\n" % (j, X, c["name"].upper())
        put += "  } break;\n"
        kid += "  } break;\n"
        pl += "    break;\n"
        fi += "    break;\n"
    o += "static void put(int t, int v, node_st *n, int a, int k) { switch (t) {\n" + put + "} }\n"
    o += "static void kid(int t, int s, node_st *n, node_st *c) { switch (t) {\n" + kid + "} }\n"
    o += "static void all_plain(int t, int v, node_st *n) { switch (t) {\n" + pl + "} }\n"
    o += "static void all_fin(int t, int v, node_st *n) { switch (t) {\n" + fi + "} }\n"
    o += "node_st *%s(node_st *n) { return n; }\n" % sp(S["passes"][0]["name"])
    return o


def heights(S):
    """the least height of a tree of each type"""
    h = {}
    while True:
        new = dict(h)
        for x in S["nodes"]:
            need = [min([h[t] for t in types_of(S, c["type"]) if t in h], default=None) for c in x["children"] if always(c)]
            if None not in need:
                new[x["name"]] = 1 + max(need, default=0)
        if new == h:
            return h
        h = new


def random_tree(S, rng, h, limit, p):
    nodes = {x["name"]: x for x in S["nodes"]}
    T = [{"x": S["nodes"][0]["name"] if S["nodes"][0]["root"] else next(x["name"] for x in S["nodes"] if x["root"]), "kids": None}]
    todo = [0]
    while todo:
        v = todo.pop(0 if rng.random() < .5 else -1)
        x = nodes[T[v]["x"]]
        T[v]["kids"] = {}
        for c in x["children"]:
            ts = [t for t in types_of(S, c["type"]) if t in h]
            T[v]["kids"][c["name"]] = 0
            if not always(c) and (not ts or len(T) >= limit or rng.random() > p):
                continue
            if len(T) >= limit:
                m = min(h[t] for t in ts)
                ts = [t for t in ts if h[t] == m]
            T.append({"x": rng.choice(ts), "kids": None})
            T[v]["kids"][c["name"]] = len(T)
            todo.append(len(T) - 1)
        if len(T) > 60:
            return None
    return T


def reachable(S):
    """an attribute can occur in some tree"""
    h = heights(S)
    root = next(x["name"] for x in S["nodes"] if x["root"])
    seen, todo = {root}, [root]
    while todo:
        x = byname(S)[todo.pop()]
        for c in x["children"]:
            for t in types_of(S, c["type"]):
                if t in h and t not in seen:
                    seen.add(t)
                    todo.append(t)
    return root in h and any(is_ag(a) for t in seen for a in attrs_of(S, byname(S)[t]))


def run_instance(tools, d, S, trees, seed):
    """-> (kind, detail, [(tree, plain, events)], text)"""
    rng = random.Random(seed)
    os.makedirs(d, exist_ok=True)
    sp = speller(rng, False)
    text = dsl.render(items(S, rng, sp, inline=False))
    f = os.path.join(d, "i.ccn")
    open(f, "w").write(text)
    rc, o, e = cocogen(tools, f, os.path.join(d, "g"))
    if rc != 0:
        shutil.rmtree(d, ignore_errors=True)
        return "rejected", "rc=%s %s" % (rc, (o + e)[-1000:]), [], text
    open(os.path.join(d, "user_types.h"), "w").write("#pragma once\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n"
                                                     "typedef struct user_thing *UserT;\n")
    open(os.path.join(d, "h.c"), "w").write(harness(S, sp))
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"), flags=["-I" + d, "-UNDEBUG"])
    if not ok:
        shutil.rmtree(d, ignore_errors=True)
        return "nobuild", msg[-1500:], [], text
    idx = {x["name"]: i for i, x in enumerate(S["nodes"])}
    with open(os.path.join(d, "in"), "w") as w:
        for T in trees:
            w.write("T %d\n" % len(T))
            for v in T:
                w.write("N %d\n" % idx[v["x"]])
                for j, a in enumerate(sorted(attrs_of(S, byname(S)[v["x"]]), key=lambda a: a["name"])):
                    if not is_ag(a):
                        w.write("A %d %d\n" % (j, rng.randint(0, 900)))
            for p, v in enumerate(T):
                for j, c in enumerate(byname(S)[v["x"]]["children"]):
                    if v["kids"][c["name"]]:
                        w.write("K %d %d %d\n" % (p + 1, j, v["kids"][c["name"]]))
    rc, o, e = run([os.path.join(d, "h"), os.path.join(d, "in"), os.path.join(d, "out")], timeout=200)
    bits = open(os.path.join(d, "out"), encoding="latin1").read().split("@@END\n")
    if rc != 0 or len(bits) != len(trees) + 1:
        return "harness", "rc=%s %s %s" % (rc, len(bits), e[-500:]), [], text
    res = []
    for T, b in zip(trees, bits):
        ev, pl = [], []
        for ln in b.split("\n"):
            if not ln:
                continue
            try:
                r = json.loads(ln)
            except ValueError:
                continue
            (pl if r["k"] == "plain" else ev).append(r)
        res.append((T, [{k: r[k] for k in ("v", "a", "val")} for r in pl], ev))
    shutil.rmtree(d, ignore_errors=True)
    return "ok", "", res, text


CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    rng = ck.rng
    with Scratch() as d:
        ms, mg = model_check(ck, d, [(1, 3, 2, True)] if ck.quick() else [(0, 2, 1, True), (1, 4, 3, True), (2, 2, 1, True)])
        n, k = (160, 8) if ck.quick() else (2500, 12)
        specs = [random_grammar(rng, rng.choice(["l", "l", "rank", "rank", "wild"])) for _ in range(n)]
        verd = judge(specs, d)
        pick = [i for i in range(n) if verd[i][0] != "reject" and reachable(specs[i])]
        trees = []
        for i in pick:
            h = heights(specs[i])
            ts = []
            for j in range(k):
                t = random_tree(specs[i], rng, h, rng.choice([1, 4, 8, 14]), rng.choice([0, .5, .7, .9, 1]))
                if t and t not in ts:
                    ts.append(t)
            trees.append(ts)
        seeds = [rng.randrange(1 << 30) for _ in pick]
        res = pmap(lambda m: run_instance(tools, os.path.join(d, "i%d" % m), specs[pick[m]], trees[m], seeds[m]), range(len(pick)))
        traces, meta = [], []
        tally = {"rejected": 0, "evaluated": 0, "several visits evaluated": 0}
        for m, (status, det, runs, text) in enumerate(res):
            i = pick[m]
            if status == "harness":
                raise Infra("harness: " + det + "\n" + text)
            if status == "rejected":
                tally["rejected"] += 1
                if verd[i][0] == "accept":
                    ck.violation("a grammar for one walk is not accepted: " + det, {"ccn": text, "detail": det})
                continue
            if status == "nobuild":
                ck.violation("the evaluator of an accepted grammar does not compile: " + det, {"ccn": text, "detail": det})
                continue
            tally["evaluated"] += 1
            tally["several visits evaluated"] += verd[i][0] == "any"
            for T, pl, ev in runs:
                traces.append({"spec": tla(specs[i]), "tree": T, "plain": pl, "ev": ev})
                meta.append(m)
        acc, st, gen, _ = tlc_judge("AttrGrammarTrace", CFG, traces, d, chunk=max(1, min(80, len(traces) // JOBS)))
        for j, m in enumerate(meta):
            if j not in acc and len(ck.viol) < 4:
                ck.violation("evaluation does not agree with AttrGrammar: " + explain(d, traces[j], "AttrGrammarTrace")[:1500],
                             {"ccn": res[m][3], "trace": traces[j]})
    ev = [e for t in traces for e in t["ev"]]
    ck.cov = {"states": ms + st, "transitions": mg + gen, "model_states": ms, "traces_validated_against_impl": len(acc),
              "grammars": tally, "trees": len(traces), "equations_evaluated": sum(e["k"] == "call" for e in ev),
              "with_absent_children": sum(e["k"] == "call" and e["nulls"] != [] for e in ev),
              "attributes_read": sum(e["k"] == "fin" for e in ev),
              "samples": [{"ccn": res[meta[0]][3], "tree": traces[0]["tree"], "events": traces[0]["ev"][:5]} if traces else {}]}
    ck.assumptions = ["TLC, gcc and the harness under /verif/harness are trusted",
                      "at most 6 node types with 3 children, 2 nodesets, 6 attribute names; trees of at most 60 nodes",
                      "attributes of type bool, int8, uint8 and enum are only plain ones: their values could not be told apart",
                      "an equation for an inherited attribute of an absent child may be called once, its value is not used"]
    return ck.finish()
