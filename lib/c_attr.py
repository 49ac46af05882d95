"""P15: rejection of attribute grammars (spec/AttrRules.tla);
the grammars are also the ones of P14."""
import copy
import json
import os
import re

import dsl
from c_dsl import attr, compare, items, lit, lt, ref, speller, tla
from c_nsattr import attrs_of, expr_value, reach_of, union
from c_phase import Names
from core import *

VALUE_TYPES = ["int", "int16", "int32", "int64", "uint16", "uint32", "uint64", "float", "double"]
PLAIN_TYPES = VALUE_TYPES + ["bool", "int8", "uint8"]


def random_grammar(rng, mode, size=None):
    """mode l: one walk from left to right; rank: several visits; wild: any"""
    nm = Names(rng)

    def new(p):
        return nm.new(p).lower()
    nn = size or rng.choice([2, 2, 3, 3, 4, 5, 6, 6, 7, 9])
    nodes, sets = [new("n") for _ in range(nn)], [new("s") for _ in range(rng.choice([0, 0, 1, 1, 2]) if nn > 2 else 0)]
    pas = new("q")
    S = {"phases": [{"name": new("p"), "uid": "", "start": True, "acts": [pas]}],
         "passes": [{"name": pas, "uid": "", "func": ""}], "travs": [], "nodes": [], "nodesets": [], "enums": []}
    if rng.random() < .3:
        S["enums"] = [{"name": new("e"), "prefix": new("x"), "values": [new("v") for _ in range(rng.randint(1, 3))]}]
    user = rng.random() < .3
    pool = [new("a") for _ in range(rng.choice([2, 3, 4, 6]))]
    rank = {a: i for i, a in enumerate(pool)}
    usual = {}

    def mk(name, kind):
        def typ():
            r = rng.random()
            if kind == "plain" and S["enums"] and r < .15:
                return "ref", S["enums"][0]["name"]
            if r < .6:
                return "prim", rng.choice(PLAIN_TYPES if kind == "plain" else VALUE_TYPES)
            if r < .8:
                return "string", ""
            if r < .9 and user:
                return "user", "UserT"
            return "ref", rng.choice(nodes + sets)
        if kind == "plain" or rng.random() < .25:
            k, r = typ()
        else:
            if name not in usual:
                usual[name] = typ()
            k, r = usual[name]
        return attr(name, k, r, False, kind == "inh", kind == "syn")
    left = nodes[1:]
    for i, s in enumerate(sets):
        if i and rng.random() < .3:
            e = ref(sets[i - 1])
            if rng.random() < .7:
                e = union([e, lit(*rng.sample(nodes[1:], rng.randint(1, 2)))])
        else:
            src = left if left and rng.random() < .7 else nodes[1:]
            e = lit(*rng.sample(src, rng.randint(1, min(rng.choice([3, 3, 7]), len(src)))))
        left = [x for x in left if x not in expr_value({"nodesets": []}, e)]
        S["nodesets"].append({"name": s, "expr": e, "attrs": []})
    for i, n in enumerate(nodes):
        S["nodes"].append({"name": n, "root": i == 0, "children": [], "attrs": [], "eqs": [], "lts": []})
    # attributes, of few of the nodes in some grammars: visits only pass through the others
    bare = rng.choice([0, 0, 0, .5, .8])
    kinds = {a: rng.choice(["syn", "syn", "inh", "inh", "any"]) for a in pool}
    for n in S["nodesets"]:
        if rng.random() < bare:
            continue
        for a in rng.sample(pool, rng.choice([0, 1, 2, min(3, len(pool))]) if len(pool) >= 2 else 1):
            if any(b["name"] == a for m in S["nodesets"] for b in m["attrs"]) and rng.random() < .9:
                continue
            k = kinds[a] if kinds[a] != "any" else rng.choice(["syn", "inh"])
            if rng.random() < .1:
                k = "plain"
            n["attrs"].append(mk(a, k))
    for i, x in enumerate(S["nodes"]):
        given = {a["name"] for a in attrs_of(S, x)}
        member = any(x["name"] in expr_value(S, n["expr"]) for n in S["nodesets"])
        if rng.random() < bare:
            continue
        for a in pool:
            if a in given or rng.random() < .4:
                continue
            k = kinds[a] if kinds[a] != "any" else rng.choice(["syn", "inh"])
            if k == "inh" and (i == 0 or member) and rng.random() < .99:
                k = "syn"
            if rng.random() < .15:
                k = "plain"
            b = mk(a, k)
            b["ctor"] = k == "plain" and rng.random() < .3
            x["attrs"].append(b)
        rng.shuffle(x["attrs"])
    # children
    names = [new("c") for _ in range(4)]
    names = sorted(set(names) | {x for x in nodes + sets if rng.random() < .2})
    for i, x in enumerate(S["nodes"]):
        k = rng.choice([1, 2, 2, 3]) if i == 0 else rng.choice([0, 0, 1, 1, 2, 3])
        for c in rng.sample(names, k):
            later = nodes[i + 1:]
            ok = later + [s for s in sets if expr_value(S, ref(s)) & set(later)]
            t, l = rng.choice(nodes[1:] + sets + sets), []
            if ok and rng.random() < .45:
                t, l = rng.choice(ok), [lt("mandatory")]
            elif rng.random() < .1:
                l = [lt("mandatory", [pas], [])]
            elif rng.random() < .05:
                t = nodes[0]
            x["children"].append({"name": c, "type": t, "ctor": rng.random() < .2, "lts": l})
    for x in S["nodes"]:
        add_rules(S, x, rng, mode, rank)
    if rng.random() < .15 and mode != "wild":
        qs = [(x, q) for x in S["nodes"] for q in x["eqs"]]
        if qs:
            x, q = rng.choice(qs)
            can = all_args(S, x)
            if can:
                g = rng.choice(can)
                if g not in q["args"]:
                    q["args"].insert(rng.randint(0, len(q["args"])), g)
    rng.shuffle(S["nodesets"])
    return S


def byname(S):
    return {y["name"]: y for y in S["nodes"] + S["nodesets"]}


def at(S, x, who):
    """attributes at `this` or a child of x"""
    if not who:
        return attrs_of(S, x)
    return attrs_of(S, byname(S)[next(c["type"] for c in x["children"] if c["name"] == who)])


def all_args(S, x):
    return [{"who": w, "attr": a["name"]} for w in [""] + [c["name"] for c in x["children"]] for a in at(S, x, w)]


def add_rules(S, x, rng, mode, rank):
    x["eqs"] = []
    pos = {c["name"]: i for i, c in enumerate(x["children"])}
    heads = [("", a) for a in attrs_of(S, x) if a["syn"]]
    for c in x["children"]:
        heads += [(c["name"], a) for a in at(S, x, c["name"]) if a["inh"]]

    def fits(who, a, w, b):
        if mode == "wild" or not (b["inh"] or b["syn"]):
            return True
        if mode == "rank":
            return rank[b["name"]] < rank[a["name"]] or (b["name"] == a["name"] and (
                (b["inh"] and w == "" and who != "") or (b["syn"] and w != "" and who == "")))
        if who == "":
            return w != "" or b["inh"] or rank[b["name"]] < rank[a["name"]]
        if w == "":
            return b["inh"]
        return pos[w] < pos[who] or (w == who and b["inh"] and rank[b["name"]] < rank[a["name"]])
    for who, a in heads:
        can = [{"who": w, "attr": b["name"]} for w in [""] + [c["name"] for c in x["children"]] for b in at(S, x, w)
               if fits(who, a, w, b)]
        k = rng.choice([0, 1, 1, 2, 2, 3, 4]) if mode != "wild" else rng.choice([0, 1, 1, 1, 2])
        x["eqs"].append({"who": who, "attr": a["name"], "args": rng.sample(can, min(k, len(can)))})
    rng.shuffle(x["eqs"])


def spoil(S, rng):
    """one change to the grammar"""
    S = copy.deepcopy(S)
    xs = [x for x in S["nodes"] if x["eqs"]]
    pool = sorted({a["name"] for y in S["nodes"] + S["nodesets"] for a in y["attrs"]}) or ["zz"]
    kids = sorted({c["name"] for x in S["nodes"] for c in x["children"]})
    k = rng.randrange(14)
    x = rng.choice(xs or S["nodes"])
    q = rng.choice(x["eqs"]) if x["eqs"] else None
    whos = [""] + [c["name"] for c in x["children"]]
    if k == 0 and q:
        x["eqs"].remove(q)
    elif k == 1 and q:
        x["eqs"].insert(rng.randint(0, len(x["eqs"])), {"who": q["who"], "attr": q["attr"], "args": q["args"][:rng.randint(0, len(q["args"]))]})
    elif k == 2 and q:
        q["who"] = rng.choice(whos)
    elif k == 3 and q:
        q["attr"] = rng.choice(pool)
    elif k == 4:
        # an equation for something else that exists
        g = rng.choice(all_args(S, x) or [{"who": "", "attr": rng.choice(pool)}])
        x["eqs"].append({"who": g["who"], "attr": g["attr"], "args": []})
    elif k == 5 and q:
        q["args"].insert(rng.randint(0, len(q["args"])), {"who": rng.choice(whos), "attr": rng.choice(pool + kids)})
    elif k == 6 and q:
        q["args"].append({"who": rng.choice(whos + kids), "attr": rng.choice(pool)})
    elif k in (7, 8):
        y = rng.choice([y for y in S["nodes"] + S["nodesets"] if y["attrs"]] or S["nodes"])
        if y["attrs"]:
            a = rng.choice(y["attrs"])
            a.update(rng.choice([{"inh": True, "syn": False}, {"inh": False, "syn": True}, {"inh": False, "syn": False},
                                 {"inh": True, "syn": True}, {"ctor": not a["ctor"]}]))
    elif k == 9:
        y = rng.choice(S["nodes"] + S["nodesets"])
        free = [a for a in pool if a not in {b["name"] for b in attrs_of(S, y)}]
        if free:
            y["attrs"].append(attr(rng.choice(free), "prim", "int", False, *rng.choice([(True, False), (False, True)])))
    elif k == 10:
        y = S["nodes"][0]
        free = [a for a in pool if a not in {b["name"] for b in attrs_of(S, y)}]
        if free:
            y["attrs"].append(attr(rng.choice(free), "prim", "int", False, True, False))
    elif k == 11:
        y = rng.choice([y for y in S["nodes"] if y["children"]] or S["nodes"])
        if y["children"]:
            rng.choice(y["children"])["type"] = rng.choice(S["nodes"] + S["nodesets"])["name"]
    elif k == 12:
        for y in S["nodes"]:
            y["root"] = False
        rng.choice(S["nodes"])["root"] = True
    elif k == 13 and S["nodesets"]:
        s = rng.choice(S["nodesets"])
        s["expr"] = union([s["expr"], lit(rng.choice(S["nodes"])["name"])])
    return S


def judge(specs, d):
    """-> [(verdict, reasons)]"""
    out = [None] * len(specs)
    n = max(JOBS, (len(specs) + 399) // 400)
    parts = [list(range(i, len(specs), n)) for i in range(n)]

    def one(idx):
        if not idx:
            return
        f = os.path.join(d, "judge-%d.json" % idx[0])
        with open(f, "w") as h:
            json.dump([tla(specs[i]) for i in idx], h)
        r = tlc("AttrJudge", "INIT Init\nNEXT Next\nINVARIANT Says\nCHECK_DEADLOCK FALSE\n", d, env={"TRACES": f}, timeout=700)
        if not r["ok"]:
            raise Infra("TLC failed on AttrJudge: " + r["out"][-2500:])
        for m in re.finditer(r'<<"VERDICT", (\d+), "(\w+)", (\{[^}]*\})>>', r["out"]):
            out[idx[int(m.group(1)) - 1]] = (m.group(2), m.group(3))
    pmap(one, parts)
    if any(o is None for o in out):
        raise Infra("AttrJudge gave no verdict for some specification")
    return out


MC_CFG = "SPECIFICATION Spec\nCONSTANTS Kids = %d\n Depth = %d\n Deep = %d\n Eval = %s\nCHECK_DEADLOCK FALSE\n" \
         "INVARIANTS Exact Walkable NeverStuck Confluent\n"


def model_check(ck, d, runs):
    gen = dist = 0
    for kids, depth, deep, ev in runs:
        r = tlc("AttrGrammarMC", MC_CFG % (kids, depth, deep, "TRUE" if ev else "FALSE"), d, workers=8, timeout=850, heap="8g")
        if not r["ok"]:
            raise Infra("model check of AttrGrammar failed:\n" + r["out"][-3000:] + r["err"][-500:])
        gen += r["generated"]
        dist += r["distinct"]
    return dist, gen


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    rng = ck.rng
    with Scratch() as d:
        ms, mg = model_check(ck, d, [(1, 4, 1, False)] if ck.quick() else [(0, 2, 1, False), (1, 6, 1, False), (2, 3, 1, False)])
        n = 900 if ck.quick() else 12000
        specs = [random_grammar(rng, rng.choice(["l", "l", "rank", "wild"])) for _ in range(n)]
        specs += [spoil(random_grammar(rng, rng.choice(["l", "l", "rank"])), rng) for _ in range(n)]
        verd = judge(specs, d)
        cases = [(S, dsl.render(items(S, rng, speller(rng), inline=False)), v, why, "grammar")
                 for S, (v, why) in zip(specs, verd)]
        compare(ck, [tools, build_repo(True)], d, cases, "c")
    tally = {}
    for c in cases:
        k = c[2] if c[2] != "reject" else "reject " + c[3]
        tally[k] = tally.get(k, 0) + 1
    ck.cov = {"states": ms, "transitions": mg, "model_states": ms, "grammars_judged": len(cases), "verdicts": tally,
              "traces_validated_against_impl": len(cases),
              "samples": [{"ccn": c[1], "verdict": c[2], "why": c[3]} for c in cases[:2]]}
    ck.assumptions = ["TLC is trusted", "at most 6 node types with 3 children, 2 nodesets and 6 attribute names",
                      "grammars that are not circular but need several visits may be accepted or rejected"]
    return ck.finish()
