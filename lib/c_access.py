"""P20: misuse of accessors (spec/Access.tla)."""
import itertools
import json
import os

import dsl
from c_attr import at, byname, judge, random_grammar
from c_attreval import always, is_ag
from c_dsl import items, lit, speller, tla
from c_life import explain
from c_nsattr import attrs_of, ctype, expr_value
from c_phase import Names
from core import *

CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def members(S, o):
    return [o] if o in [x["name"] for x in S["nodes"]] else sorted(expr_value(S, {"op": "ref", "id": o}))


def uses(S):
    """every accessor, and for plain ones every way to use it: (owner, name, kind)"""
    out = []
    for y in S["nodes"] + S["nodesets"]:
        for a in attrs_of(S, y):
            if is_ag(a):
                out.append((y["name"], a["name"], "lazy"))
            else:
                out += [(y["name"], a["name"], "get"), (y["name"], a["name"], "put")]
        for c in y.get("children", []):
            out += [(y["name"], c["name"], "getkid"), (y["name"], c["name"], "putkid")]
    return out


def harness(S, sp, acc, kids):
    o = ""
    if any(a["kind"] == "user" for x in S["nodes"] + S["nodesets"] for a in x["attrs"]):
        o += "#include \"user_types.h\"\n"
    o += '#include "access.h"\n'
    lazy = any(is_ag(a) for x in S["nodes"] for a in attrs_of(S, x))
    if lazy:
        o += '#include "ccngen/ag.h"\n#include "ccngen/equation.h"\n'
    for x in S["nodes"]:
        ch = {c["name"]: c for c in x["children"]}
        for q in x["eqs"]:
            a = next(a for a in at(S, x, q["who"]) if a["name"] == q["attr"])
            opt = []
            for g in q["args"]:
                if g["who"] and not always(ch[g["who"]]) and g["who"] not in opt:
                    opt.append(g["who"])
            for n in range(len(opt) + 1):
                for nulls in itertools.combinations(opt, n):
                    ats = [next(b for b in at(S, x, g["who"]) if b["name"] == g["attr"]) for g in q["args"] if g["who"] not in nulls]
                    o += "%s EVAL%s_%s_%s%s(%s) { return 0; }\n" % (
                        ctype(a, S, sp), x["name"], q["who"] or "this", q["attr"], "".join("_%s_NULL" % c for c in nulls),
                        ", ".join("%s p%d" % (ctype(b, S, sp), i) for i, b in enumerate(ats)) or "void")
    o += "static node_st *mk(int t) { switch (t) {\n"
    for i, x in enumerate(S["nodes"]):
        n = sum(c["ctor"] for c in x["children"]) + sum(a["ctor"] for a in x["attrs"])
        o += "  case %d: return AST%s(%s);\n" % (i, x["name"], ", ".join(["0"] * n))
    o += "  } return 0; }\n"
    sw = kw = vw = ""
    for k, (own, a, kind) in enumerate(acc):
        mac = "%s_%s" % (own.upper(), a.upper())
        if kind in ("getkid", "putkid"):
            t = "node_st *"
        else:
            t = ctype(next(b for b in attrs_of(S, byname(S)[own]) if b["name"] == a), S, sp)
        if kind in ("get", "lazy", "getkid"):
            body = "volatile %s; v = %s(n); (void)v;" % (t.replace("*", "* volatile") + " v" if "*" in t else t + " v", mac)
        else:
            body = "%s(n) = 0;" % mac
        o += "#line %d \"uses\"\nstatic void use%d(node_st *n) { %s }\n" % (k + 1, k, body)
        sw += "  case %d: use%d(n); break;\n" % (k, k)
        if kind == "putkid":
            kw += "  case %d: %s(n) = c; break;\n" % (k, mac)
    o += "static void use(int k, node_st *n) { switch (k) {\n" + sw + "} }\n"
    o += "static void attach(int k, node_st *n, node_st *c) { switch (k) {\n" + kw + "} (void)c; }\n"
    for k, c in enumerate(kids):
        vw += "  case %d: TRAV%s(n); break;\n" % (k, sp(c))
    t = S["travs"][0]
    o += "static void visit(int k, node_st *n) { TRAVpush(TRAV_%s); switch (k) {\n" % t["uid"].upper() + vw + "} TRAVpop(); (void)n; }\n"
    o += "static void evaluate(node_st *n) { %s }\n" % ("CCNevaluateAttributes(n);" if lazy else "(void)n;")
    o += "node_st *%s(node_st *n) { return n; }\n" % sp(S["passes"][0]["name"])
    for x in t["expr"]["ids"]:
        o += "node_st *%s%s(node_st *n) { return n; }\n" % (t["uid"].upper(), x)
    return o, lazy


def sweep(S, acc, kids):
    """every accessor on a fresh node of every type"""
    for i, x in enumerate(S["nodes"]):
        for k, (o, a, kind) in enumerate(acc):
            yield [("N", i), ("U", k, 1)]
        for k, c in enumerate(kids):
            yield [("N", i), ("V", k, 1)]


def random_program(S, rng, acc, kids, lazy):
    """a program that mostly does what may be done (steering only: whether it
    may is for the specification to say)"""
    nodes = S["nodes"]
    typ, kid, ev, ops = [None], [None], [None], []
    for _ in range(rng.randint(1, 5)):
        i = rng.randrange(len(nodes)) if typ[1:] or rng.random() < .2 else next(i for i, x in enumerate(nodes) if x["root"])
        typ.append(i)
        kid.append({})
        ev.append(False)
        ops.append(("N", i))
    attached = set()

    def below(n):
        return [n] + [m for c in nodes[typ[n]]["children"] if c["name"] in kid[n] for m in below(kid[n][c["name"]])]

    def legal(u, n):
        o, a, kind = acc[u]
        return nodes[typ[n]]["name"] in members(S, o) and (kind != "lazy" or ev[n])
    wild = rng.random() < .5
    for _ in range(rng.randint(3, 30)):
        r = rng.random()
        n = rng.randrange(1, len(typ))
        if r < .25:
            cand = []
            for p in range(1, len(typ)):
                for u, (o, a, kind) in enumerate(acc):
                    if kind == "putkid" and o == nodes[typ[p]]["name"] and a not in kid[p]:
                        c = next(c for c in nodes[typ[p]]["children"] if c["name"] == a)
                        for m in range(p + 1, len(typ)):
                            if m not in attached and nodes[typ[m]]["name"] in members(S, c["type"]):
                                cand.append((u, p, a, m))
            if cand:
                u, p, a, m = rng.choice(cand)
                kid[p][a] = m
                attached.add(m)
                ops.append(("K", u, p, m))
        elif r < .65:
            fit = [(u, m) for u in range(len(acc)) for m in range(1, len(typ))
                   if legal(u, m) and acc[u][2] != "putkid"]
            if wild and rng.random() < .15 and acc:
                ops.append(("U", rng.randrange(len(acc)), n))
                if not legal(ops[-1][1], n):
                    break
                if acc[ops[-1][1]][2] == "putkid":
                    ops.pop()
            elif fit:
                u, m = rng.choice(fit)
                ops.append(("U", u, m))
        elif r < .75 and kids:
            k = rng.randrange(len(kids))
            fine = any(c["name"] == kids[k] for c in nodes[typ[n]]["children"])
            if fine or wild:
                ops.append(("V", k, n))
                if not fine:
                    break
        elif r < .88 and lazy:
            # an evaluation needs the children that must be there
            if any(always(c) and c["name"] not in kid[m] for m in below(n) for c in nodes[typ[m]]["children"]):
                continue
            at_n = attrs_of(S, nodes[typ[n]])
            if nodes[typ[n]]["root"] or wild and rng.random() < .2:
                ops.append(("E", n))
                if any(a["inh"] for a in at_n) or not any(a["syn"] for a in at_n):
                    break
                for m in below(n):
                    ev[m] = True
        elif r >= .88 and len(typ) + len(below(n)) < 60:
            ops.append(("C", n))
            new = {}
            for j, m in enumerate(below(n)):
                new[m] = len(typ)
                typ.append(typ[m])
                ev.append(False)
                kid.append(None)
            for m in new:
                kid[new[m]] = {c: new[k] for c, k in kid[m].items()}
                attached |= set(kid[new[m]].values())
    return ops


def copied(S, rng, acc):
    """programs that evaluate a tree, copy a part of it, and read one evaluated
    attribute of the original, or of the copy"""
    nodes = S["nodes"]
    typ, kid, ops = [None], [None], []

    def grow(i, depth):
        typ.append(i)
        kid.append({})
        ops.append(("N", i))
        n = len(typ) - 1
        if n > 24:
            raise OverflowError
        for c in nodes[i]["children"]:
            if always(c) or rng.random() < (.9 if depth < 2 else .2):
                u = next((u for u, (o, a, k) in enumerate(acc) if k == "putkid" and o == nodes[i]["name"] and a == c["name"]), None)
                fit = [j for j, y in enumerate(nodes) if y["name"] in members(S, c["type"])]
                if u is None or not fit:
                    raise OverflowError
                m = grow(rng.choice(fit), depth + 1)
                kid[n][c["name"]] = m
                ops.append(("K", u, n, m))
        return n

    def below(n):
        return [n] + [m for c in nodes[typ[n]]["children"] if c["name"] in kid[n] for m in below(kid[n][c["name"]])]
    try:
        grow(next(i for i, x in enumerate(nodes) if x["root"]), 0)
    except (OverflowError, RecursionError, StopIteration):
        return []
    at_n = attrs_of(S, nodes[typ[1]])
    if any(a["inh"] for a in at_n) or not any(a["syn"] for a in at_n):
        return []
    out = []
    lazy = [(u, m) for m in range(1, len(typ)) for u, (o, a, k) in enumerate(acc)
            if k == "lazy" and nodes[typ[m]]["name"] in members(S, o)]
    rng.shuffle(lazy)
    for u, m in lazy[:8]:
        up = [n for n in range(1, len(typ)) if m in below(n)]
        n = rng.choice(up)
        new = len(typ) + below(n).index(m)
        out.append(ops + [("E", 1), ("U", u, m), ("C", n), ("U", u, m), ("U", u, new)])
    return out


def outcome(line, ops, S, acc, kids):
    """-> a run for AccessTrace"""
    m = re.match(r"^(\d+) (\d+) (\d+) (.*)$", line)
    n, sig, st, said = int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4)
    names = [x["name"] for x in S["nodes"]]
    tr = []
    for op in ops[:n + 1]:
        c = op[0]
        if c == "N":
            tr.append({"k": "new", "t": names[op[1]]})
        elif c == "K":
            tr.append({"k": "attach", "n": op[2], "a": acc[op[1]][1], "m": op[3]})
        elif c == "U":
            tr.append({"k": "use", "o": acc[op[1]][0], "a": acc[op[1]][1], "n": op[2]})
        elif c == "V":
            tr.append({"k": "visit", "a": kids[op[1]], "n": op[2]})
        else:
            tr.append({"k": "eval" if c == "E" else "copy", "n": op[1]})
    end = {"w": "on", "o": "", "a": "", "here": True}
    if n < len(ops) or sig or st:
        last = ops[n] if n < len(ops) else ("?",)
        a = re.match(r"^ASSERTION FAILED: file (.*?), line (\d+) in function: (\S+)\|\t(.*?)\|", said)
        if sig == 6 and a:
            f, ln, fn, msg = a.groups()
            here = last[0] == "U" and f == "uses" and int(ln) == last[1] + 1 and fn == "use%d" % last[1]
            w = re.match(r"^Node passed to (\S+) is not a '(.*)'$", msg)
            u = re.match(r"^Trying to access attribute '(.*)' before it has been evaluated\.$", msg)
            k = re.match(r"^Current target has no child (\S+)$", msg)
            if w:
                o = w.group(2).lower()
                x = w.group(1).lower()
                end = {"w": "type", "o": o, "a": x[len(o) + 1:] if x.startswith(o + "_") else "?" + x, "here": here}
            elif u:
                end = {"w": "unset", "o": "", "a": u.group(1).lower(), "here": here}
            elif k:
                end = {"w": "child", "o": "", "a": k.group(1).lower(), "here": False}
            else:
                end = {"w": "said " + msg[:200], "o": "", "a": "", "here": here}
        elif sig == 0 and st == 1 and last[0] == "E" and "rror" in said:
            end = {"w": "refused", "o": "", "a": "", "here": False}
        else:
            end = {"w": "died: signal %d exit %d %s" % (sig, st, said[:200]), "o": "", "a": "", "here": False}
    return {"ops": tr, "end": end}


def random_spec(rng):
    while True:
        S = random_grammar(rng, rng.choice(["l", "l", "rank"]), rng.choice([2, 2, 3, 3, 4, 4, 5, 7]))
        if rng.random() < .2:          # without attribute equations
            for y in S["nodes"] + S["nodesets"]:
                for a in y["attrs"]:
                    a["inh"] = a["syn"] = False
            for x in S["nodes"]:
                x["eqs"] = []
        nm = Names(rng)
        taken = {y["name"] for y in S["nodes"] + S["nodesets"] + S["passes"] + S["phases"] + S["enums"]}
        a, b = nm.new("t").lower(), nm.new("w").lower()
        if {a, b} & taken or a.lower() == b.lower():
            continue
        S["travs"] = [{"name": a, "uid": b, "all": False, "expr": lit(rng.choice(S["nodes"])["name"]), "data": []}]
        S["phases"][0]["acts"].append(a)
        return S


def run_instance(tools, d, S, seed, nprog):
    """-> (kind, detail, runs, text)"""
    rng = random.Random(seed)
    os.makedirs(d, exist_ok=True)
    sp = speller(rng, False)
    text = dsl.render(items(S, rng, sp, inline=False))
    f = os.path.join(d, "i.ccn")
    open(f, "w").write(text)
    rc, o, e = cocogen(tools, f, os.path.join(d, "g"))
    if rc != 0:
        shutil.rmtree(d, ignore_errors=True)
        return "rejected", "rc=%s %s" % (rc, (o + e)[-1000:]), [], text
    open(os.path.join(d, "user_types.h"), "w").write("#pragma once\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\n"
                                                     "typedef struct user_thing *UserT;\n")
    acc, kids = uses(S), sorted({c["name"] for x in S["nodes"] for c in x["children"]})
    src, lazy = harness(S, sp, acc, kids)
    open(os.path.join(d, "h.c"), "w").write(src)
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"), flags=["-I" + d, "-UNDEBUG"])
    if not ok:
        return "nobuild", msg[-1500:], [], text
    progs = list(sweep(S, acc, kids)) + [random_program(S, rng, acc, kids, lazy) for _ in range(nprog)]
    progs += copied(S, rng, acc) + copied(S, rng, acc)
    rc, o, e = run([os.path.join(d, "h")], timeout=300,
                   inp="".join(" ".join(" ".join(map(str, op)) for op in p) + " .\n" for p in progs).encode())
    lines = o.split("\n")[:-1]
    if rc != 0 or len(lines) != len(progs):
        return "harness", "rc=%s %d of %d %s" % (rc, len(lines), len(progs), e[-300:]), [], text
    shutil.rmtree(d, ignore_errors=True)
    return "ok", "", [outcome(ln, p, S, acc, kids) for ln, p in zip(lines, progs)], text


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    rng = ck.rng
    with Scratch() as d:
        r = tlc("AccessMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n MaxObj = 4\nCHECK_DEADLOCK FALSE\n"
                "INVARIANTS OnlyLast Sound Steady Wellformed\n" % (5 if ck.quick() else 6), d, workers=8, timeout=800, heap="10g")
        if not r["ok"]:
            raise Infra("model check of Access failed:\n" + r["out"][-3000:] + r["err"][-500:])
        n, k = (64, 60) if ck.quick() else (700, 150)
        specs = [random_spec(rng) for _ in range(3 * n)]
        verd = judge(specs, d)
        pick = [S for S, v in zip(specs, verd) if v[0] == "accept"][:n]
        seeds = [rng.randrange(1 << 30) for _ in pick]
        res = pmap(lambda i: run_instance(tools, os.path.join(d, "i%d" % i), pick[i], seeds[i], k), range(len(pick)))
        traces, meta = [], []
        for i, (status, det, runs, text) in enumerate(res):
            if status == "harness":
                raise Infra("harness: " + det + "\n" + text)
            if status != "ok":
                ck.violation("an acceptable specification yields no usable code (%s): %s" % (status, det), {"ccn": text, "detail": det})
                continue
            traces.append({"spec": tla(pick[i]), "runs": runs})
            meta.append(i)
        acc, st, gen, _ = tlc_judge("AccessTrace", CFG, traces, d, chunk=max(1, len(traces) // JOBS))
        for j, i in enumerate(meta):
            if j in acc or len(ck.viol) >= 4:
                continue
            again = run_instance(tools, os.path.join(d, "again"), pick[i], seeds[i], k)
            if again[0] == "ok" and tlc_judge("AccessTrace", CFG, [{"spec": tla(pick[i]), "runs": again[2]}], d)[0]:
                continue
            bad = []
            for r_ in traces[j]["runs"]:
                bad.append({"spec": traces[j]["spec"], "runs": [r_]})
            a2 = tlc_judge("AccessTrace", CFG, bad, d)[0]
            for m, b in enumerate(bad):
                if m not in a2:
                    ck.violation("the use of accessors does not go as Access says: " + json.dumps(b["runs"][0])[-900:],
                                 {"ccn": res[i][3], "run": b["runs"][0]})
                    break
    runs = [r_ for t in traces for r_ in t["runs"]]
    tally = {}
    for r_ in runs:
        tally[r_["end"]["w"]] = tally.get(r_["end"]["w"], 0) + 1
    ck.cov = {"states": r["distinct"] + st, "transitions": r["generated"] + gen, "model_states": r["distinct"],
              "traces_validated_against_impl": len(runs) if len(acc) == len(traces) else len(acc), "compilers_built": len(traces),
              "ends": tally, "uses": sum(len(r_["ops"]) for r_ in runs),
              "samples": [{"ccn": res[meta[0]][3], "runs": traces[0]["runs"][-3:]}] if traces else []}
    ck.assumptions = ["TLC, gcc and the harness under /verif/harness are trusted",
                      "at most 7 node types with 3 children, 2 nodesets, programs of at most 40 operations; builds with assertions",
                      "accesses through a null pointer are not made"]
    return ck.finish()
