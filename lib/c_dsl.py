"""P11: well-formedness of specifications (spec/DslRules.tla)."""
import copy
import json
import os
import re

import dsl
from core import *
from c_phase import Names

PRIMS = ["int", "bool", "float", "double", "int8", "int16", "int32", "int64",
         "uint8", "uint16", "uint32", "uint64"]
KW = set("args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes pass "
         "passes phase phases actions prefix subphases synthesized this to traversal travdata values info func root "
         "start double float int uint int8 int16 int32 int64 uint8 uint16 uint32 uint64 string bool lifetime "
         "disallowed optional allowed false true gate user uid auto break case char const continue default do else "
         "extern for goto if inline long register restrict return short signed sizeof static struct switch typedef "
         "union unsigned void volatile while".split())


# ---------------------------------------------------------------- rendering
def speller(rng, free=True, caps=()):
    """free: every occurrence of a name gets its own capitals;
    caps: words that are names, so they are never written in lower case"""
    fixed = {}

    def sp(n):
        if n in caps:
            return n.capitalize() if rng.random() < .7 else n.upper() if rng.random() < .5 else n[0] + n[1].upper() + n[2:]
        if n in KW:
            return n
        if not free:
            if n not in fixed:
                fixed[n] = rng.choice([n, n.capitalize(), n[0] + n[1:].upper()])
                if fixed[n] in KW or fixed[n] == "NULL":
                    fixed[n] = n
            return fixed[n]
        k = rng.random()
        s = n if k < .4 else n.upper() if k < .6 else n.capitalize() if k < .8 else \
            "".join(c.upper() if rng.random() < .5 else c for c in n)
        return n if s in KW or s == "NULL" else s
    return sp


def r_expr(e, sp, rng, top=True):
    if e["op"] == "lit":
        return ["lit", [sp(x) for x in e["ids"]]]
    if e["op"] == "ref":
        return ["ref", sp(e["id"])]
    l, r = r_expr(e["l"], sp, rng, False), r_expr(e["r"], sp, rng, False)
    # operators group to the left: only a right operand needs parentheses
    if r[0] in "|&-" or (l[0] in "|&-" and rng.random() < .2):
        if r[0] in "|&-":
            r = ["par", r]
        elif l[0] in "|&-":
            l = ["par", l]
    x = [e["op"], l, r]
    return ["par", x] if top and rng.random() < .1 else x


def r_lt(l, sp, rng):
    k, lo, hi = l["kind"], l["lo"], l["hi"]
    d = {"kind": k, "range": True}
    if not lo and not hi and k in ("disallowed", "mandatory") and rng.random() < .5:
        d["range"] = False
        return d
    d["lo_open"], d["hi_open"] = "(", ")"
    if lo:
        d["lo"] = [rng.random() < .5, ".".join(sp(x) for x in lo)]
    if hi:
        d["hi"] = [rng.random() < .5, ".".join(sp(x) for x in hi)]
    return d


def r_type(a, sp):
    if a["kind"] == "string":
        return "string"
    if a["kind"] == "user":
        return "user " + a["ref"]
    return a["ref"] if a["kind"] == "prim" else sp(a["ref"])


def r_attr(a, sp, rng):
    return {"type": r_type(a, sp), "name": sp(a["name"]), "constructor": a["ctor"], "inherited": a["inh"],
            "synthesized": a["syn"], "lifetimes": [r_lt(l, sp, rng) for l in a["lts"]]}


def items(S, rng, sp, inline=True, shuffle=True):
    """the specification as items of dsl.render; some actions defined inline"""
    def info():
        return rng.choice(["some text", "some text", "", "ends */ int here", 'in \\"quotes\\"', "50% of /* all */ %s", "**//", "// \\\\"]) if rng.random() < .25 else None

    def pass_(p):
        d = {"name": sp(p["name"]), "uid": p["uid"] and sp(p["uid"]), "func": p["func"] and sp(p["func"])}
        if d["uid"] or d["func"]:
            d["info"] = info()
        return d

    def trav_(t):
        return {"name": sp(t["name"]), "uid": sp(t["uid"]), "info": info(),
                "nodes": None if t["all"] else r_expr(t["expr"], sp, rng),
                "data": [{"type": r_type(d, sp), "name": sp(d["name"])} for d in t["data"]]}

    def phase_(p):
        d = {"name": sp(p["name"]), "uid": p["uid"] and sp(p["uid"]), "start": p["start"], "info": info(),
             "kind": p.get("pk", "phase"), "gate": p.get("gate"), "actions": []}
        for a in p["acts"]:
            x = None
            if inline and a not in used and rng.random() < .3:
                for kind, f in (("passes", pass_), ("travs", trav_), ("phases", phase_)):
                    for i, y in enumerate(S[kind]):
                        # an inline definition is named by its name
                        if y["name"] == a and (kind, i) not in done and (kind, i) not in busy and x is None:
                            if kind == "phases" and y["start"]:
                                continue
                            busy.add((kind, i))
                            used.add(a)
                            x = f(y)
                            x["inline"] = {"passes": "pass", "travs": "trav", "phases": "phase"}[kind]
                            done.add((kind, i))
            d["actions"].append(x if x is not None else sp(a))
        return d
    # only definitions whose name is unique may be moved inline
    names = [y["name"] for k in ("passes", "travs", "phases", "nodes", "nodesets", "enums") for y in S[k]]
    used = {n for n in names if names.count(n) > 1}
    done, busy = set(), set()
    out = []
    for i, p in enumerate(S["phases"]):
        if ("phases", i) not in done:
            busy.add(("phases", i))
            out.append(["phase", phase_(p)])
            done.add(("phases", i))
    out += [["pass", pass_(p)] for i, p in enumerate(S["passes"]) if ("passes", i) not in done]
    out += [["trav", trav_(p)] for i, p in enumerate(S["travs"]) if ("travs", i) not in done]
    for n in S["nodes"]:
        out.append(["node", {
            "name": sp(n["name"]), "root": n["root"],
            "children": [{"type": sp(c["type"]), "name": sp(c["name"]), "constructor": c.get("ctor", False),
                          "lifetimes": [r_lt(l, sp, rng) for l in c["lts"]]} for c in n["children"]],
            "attrs": [r_attr(a, sp, rng) for a in n["attrs"]],
            "equations": [{"node": sp(q["who"]) if q["who"] else "this", "attr": sp(q["attr"]), "short": rng.random() < .5,
                           "args": [[sp(g["who"]) if g["who"] else "this", sp(g["attr"])] for g in q["args"]]}
                          for q in n["eqs"]],
            "lifetimes": [r_lt(l, sp, rng) for l in n["lts"]]}])
    for n in S["nodesets"]:
        out.append(["nodeset", {"name": sp(n["name"]), "expr": r_expr(n["expr"], sp, rng), "long": rng.random() < .3,
                                "attrs": [r_attr(a, sp, rng) for a in n["attrs"]]}])
    for n in S["enums"]:
        out.append(["enum", {"name": sp(n["name"]), "prefix": sp(n["prefix"]), "values": [sp(v) for v in n["values"]],
                             "info": info()}])
    if shuffle:
        rng.shuffle(out)
    return out


TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|->|[A-Za-z_0-9]+|\S')
COMMENTS = ["// one, two; {\n", "/* a comment */", "/* node x { }; **/", "/*\n several * lines / \n\n */", "//\n", "/**/", "/***/",
            "// /* not opened\n", "/* // still open */"]


def relayout(txt, rng):
    """other white space and comments between the tokens"""
    out = []
    for t in TOKEN.findall(txt):
        out.append(t)
        k = rng.random()
        out.append(" " if k < .7 else "\n" if k < .85 else "\t \r\n" if k < .9 else " " + rng.choice(COMMENTS) + " ")
    return "".join(out) + rng.choice(["", "\n", " // the end", "/* end */"])


def garble(txt, rng):
    """one or more tokens lost, repeated, exchanged or replaced, or the text cut"""
    ts = TOKEN.findall(txt)
    for _ in range(rng.randint(1, 3)):
        i, k = rng.randrange(len(ts)), rng.random()
        if k < .3:
            del ts[i]
        elif k < .45:
            ts.insert(i, ts[i])
        elif k < .6:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif k < .9:
            ts[i] = rng.choice(ts + sorted(KW) + ["->", "=", "12", "-3", "1.5", '"a"', "$", "#", "\\", "'", "\x80", "/*", '"', "NULL", "%s%n", "@"])
        else:
            ts = ts[:i]
        if not ts:
            return ""
    return " ".join(ts)


def text(S, rng, free=True, inline=True):
    t = dsl.render(items(S, rng, speller(rng, free, S.get("caps", ())), inline))
    return relayout(t, rng) if rng.random() < .3 else t


# ---------------------------------------------------------------- instances
def lit(*ids):
    return {"op": "lit", "ids": list(ids)}


def ref(i):
    return {"op": "ref", "id": i}


def attr(name, kind, r="", ctor=False, inh=False, syn=False, lts=()):
    return {"name": name, "kind": kind, "ref": r, "ctor": ctor, "inh": inh, "syn": syn, "lts": list(lts)}


def lt(kind, lo=(), hi=()):
    return {"kind": kind, "lo": list(lo), "hi": list(hi)}


def random_expr(rng, nodes, sets, depth):
    if depth == 0 or rng.random() < .35:
        if sets and rng.random() < .4:
            return ref(rng.choice(sets))
        return lit(*rng.sample(nodes, rng.randint(1, min(3, len(nodes)))))
    return {"op": rng.choice(["|", "|", "|", "&", "-"]), "l": random_expr(rng, nodes, sets, depth - 1),
            "r": random_expr(rng, nodes, sets, depth - 1)}


def random_base(rng, small=False):
    """A specification that DslRules is expected to accept (it decides)."""
    nm = Names(rng)

    def new(p):
        return nm.new(p).lower()
    # the names inside one node, nodeset, enum or traversal may be taken again inside another
    few, reuse = [new("z") for _ in range(rng.randint(3, 8))], rng.choice([0, .3, .7])

    def local(p, taken):
        n = rng.choice(few + nodes if rng.random() < .3 else few)
        if rng.random() >= reuse or n in taken:
            n = new(p)
        taken.add(n)
        return n
    nn = rng.randint(2, 3 if small else 5)
    nodes = [new("n") for _ in range(nn)]
    sets = [new("s") for _ in range(rng.randint(1, 2 if small else 3))]
    enums = [new("e") for _ in range(rng.randint(1, 2))]
    passes = [{"name": new("q"), "uid": new("uq") if rng.random() < .5 else "",
               "func": new("f") if rng.random() < .6 else ""} for _ in range(rng.randint(2, 3))]
    travs = []
    for _ in range(rng.randint(1, 2)):
        k = rng.random()
        data, taken = [], set()
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            data.append({"name": local("d", taken), "kind": "prim" if r < .3 else "string" if r < .4 else "ref",
                         "ref": rng.choice(PRIMS) if r < .3 else "" if r < .4 else rng.choice(nodes + sets + enums)})
        travs.append({"name": new("t"), "uid": new("ut"), "all": k < .3,
                      "expr": random_expr(rng, nodes, sets, rng.choice([0, 0, 1, 2])), "data": data})
    phases = []
    act = [p["name"] for p in passes] + [p["uid"] for p in passes if p["uid"]] + \
          [t["name"] for t in travs] + [t["uid"] for t in travs]
    np_ = rng.randint(2, 3)
    for i in range(np_):
        phases.append({"name": new("p"), "uid": new("up") if rng.random() < .6 else "", "start": i == np_ - 1,
                       "acts": [], "pk": rng.choice(["phase", "phase", "cycle"]) if i < np_ - 1 else "phase",
                       "gate": new("g") if rng.random() < .2 else None})
    for i, p in enumerate(phases):
        for _ in range(rng.randint(1, 3)):
            p["acts"].append(rng.choice(act))
        if i and rng.random() < .8:
            q = phases[rng.randrange(i)]
            p["acts"].insert(rng.randint(0, len(p["acts"])), q["uid"] if q["uid"] and rng.random() < .5 else q["name"])
    # bounds that resolve
    byname = {}
    for p in phases:
        byname[p["name"]] = p
        if p["uid"]:
            byname[p["uid"]] = p

    def paths(acts, depth):
        out = []
        for a in acts:
            out.append([a])
            if a in byname and depth:
                out += [[a] + x for x in paths(byname[a]["acts"], depth - 1)] + paths(byname[a]["acts"], depth - 1)
        return out
    cands = paths(phases[-1]["acts"], 2)

    def bound():
        return rng.choice(cands) if rng.random() < .8 else []

    def lts(kinds, p=.3):
        return [lt(rng.choice(kinds), bound(), bound())] if rng.random() < p else []
    S = {"phases": phases, "passes": passes, "travs": travs, "nodes": [], "nodesets": [], "enums": []}
    for e in enums:
        taken = set()
        S["enums"].append({"name": e, "prefix": new("x"), "values": [local("v", taken) for _ in range(rng.randint(1, 3))]})

    def attrs(n, taken, nodeset=False):
        out = []
        for _ in range(n):
            r = rng.random()
            k = "prim" if r < .3 else "string" if r < .5 else "user" if r < .6 else "ref"
            rf = rng.choice(PRIMS) if k == "prim" else "" if k == "string" else "usertype" if k == "user" else \
                rng.choice(nodes + sets + enums)
            a = attr(local("a", taken), k, rf, rng.random() < .4 and not nodeset)
            if (k == "string" or (k == "ref" and rf not in enums)) and not nodeset:
                a["lts"] = lts(["allowed", "disallowed", "mandatory", "optional"])
            out.append(a)
        return out
    for i, n in enumerate(nodes):
        taken = set()
        ch = [{"name": local("c", taken), "type": rng.choice(nodes + sets), "ctor": rng.random() < .4,
               "lts": lts(["allowed", "disallowed", "mandatory", "optional"])} for _ in range(rng.randint(0, 3))]
        S["nodes"].append({"name": n, "root": i == 0, "children": ch, "attrs": attrs(rng.randint(0, 2), taken), "eqs": [], "lts": []})
        if ch and rng.random() < .4:
            S["nodes"][-1]["lts"] = [lt(rng.choice(["allowed", "disallowed"]), bound(), bound())]
    for i, s in enumerate(sets):
        a = attrs(rng.choice([0, 0, 1, 2]), set(), True)
        others = sets[:i]
        e = random_expr(rng, nodes, others, rng.choice([0, 1, 1, 2]))
        if a:
            e = lit(*rng.sample(nodes, rng.randint(1, nn)))
        S["nodesets"].append({"name": s, "expr": e, "attrs": a})
    rng.shuffle(S["nodesets"])
    return S


def walk(S, f):
    """a copy of S with f(kind, name) for every identifier; kind is glob, func,
    gate, prefix, value or local"""
    S = copy.deepcopy(S)

    def g(n):
        return f("glob", n) if n else n

    def lts(l):
        for x in l:
            x["lo"], x["hi"] = [g(n) for n in x["lo"]], [g(n) for n in x["hi"]]

    def typ(a):
        if a["kind"] == "ref":
            a["ref"] = g(a["ref"])
        a["name"] = f("local", a["name"])
        lts(a.get("lts", []))

    def expr(e):
        if e["op"] == "lit":
            e["ids"] = [g(n) for n in e["ids"]]
        elif e["op"] == "ref":
            e["id"] = g(e["id"])
        else:
            expr(e["l"])
            expr(e["r"])
    for k in ("phases", "passes", "travs", "nodes", "nodesets", "enums"):
        for x in S[k]:
            x["name"] = g(x["name"])
            if "uid" in x:
                x["uid"] = g(x["uid"])
    for p in S["phases"]:
        p["acts"] = [g(n) for n in p["acts"]]
        if p.get("gate"):
            p["gate"] = f("gate", p["gate"])
    for p in S["passes"]:
        p["func"] = p["func"] and f("func", p["func"])
    for t in S["travs"]:
        if not t["all"]:
            expr(t["expr"])
        for d in t["data"]:
            typ(d)
    for n in S["nodes"]:
        for c in n["children"]:
            c["name"], c["type"] = f("local", c["name"]), g(c["type"])
            lts(c["lts"])
        lts(n["lts"])
        for q in n["eqs"]:
            for r in [q] + q["args"]:
                r["who"], r["attr"] = r["who"] and f("local", r["who"]), f("local", r["attr"])
    for n in S["nodes"] + S["nodesets"]:
        for a in n["attrs"]:
            typ(a)
    for n in S["nodesets"]:
        expr(n["expr"])
    for e in S["enums"]:
        e["prefix"] = f("prefix", e["prefix"])
        e["values"] = [f("value", v) for v in e["values"]]
    return S


def tempt(S, rng):
    """rename one thing to a word of the language, of C or of the runtime,
    often with capitals"""
    names = set()
    walk(S, lambda k, n: names.add((k, n)) or n)
    k, old = rng.choice(sorted(n for n in names if n[0] in ("glob", "local", "local", "func")))
    new = rng.choice(["null", "null", "this", "this", "opt", "error", "nop", "pop", "push", "node_st"] if rng.random() < .3 else sorted(KW - {"start"}))
    S = walk(S, lambda kk, n: new if (kk, n) == (k, old) else n)
    if new in KW and rng.random() < .85:
        S["caps"] = [new]
    return S


def tla(S):
    """the part of a specification that DslRules knows"""
    def e(x):
        return x
    T = copy.deepcopy(S)
    T.setdefault("caps", [])
    for p in T["phases"]:
        p.pop("pk", None)
        p.pop("gate", None)
    for n in T["nodes"]:
        for c in n["children"]:
            c.pop("ctor", None)
    return T


def judge(specs, d):
    """-> [(verdict, reasons)]"""
    out = [None] * len(specs)
    parts = [list(range(i, len(specs), JOBS)) for i in range(JOBS)]

    def one(idx):
        if not idx:
            return
        f = os.path.join(d, "judge-%d.json" % idx[0])
        with open(f, "w") as h:
            json.dump([tla(specs[i]) for i in idx], h)
        r = tlc("DslJudge", "INIT Init\nNEXT Next\nINVARIANT Says0\nCHECK_DEADLOCK FALSE\n".replace("Says0", "Says"),
                d, env={"TRACES": f}, timeout=600)
        if not r["ok"]:
            raise Infra("TLC failed on DslJudge: " + r["out"][-2500:])
        for m in re.finditer(r'<<"VERDICT", (\d+), "(\w+)", (\{[^}]*\})>>', r["out"]):
            out[idx[int(m.group(1)) - 1]] = (m.group(2), m.group(3))
    pmap(one, parts)
    if any(o is None for o in out):
        raise Infra("DslJudge gave no verdict for some specification")
    return out


# ---------------------------------------------------------------- edits
def apply_edit(S, cls, path, val):
    S = copy.deepcopy(S)
    if cls == "none":
        return S
    if cls == "drop":
        del S[path[0]][path[1] - 1]
        return S
    x = S
    for k in path[:-1]:
        x = x[k - 1] if isinstance(k, int) else x[k]
    k = path[-1] - 1 if isinstance(path[-1], int) else path[-1]
    x[k] = (not x[k]) if cls == "flag" else val
    return S


def parse_path(s):
    return [int(x) if re.match(r"\d+$", x) else x.strip('"') for x in re.findall(r'\d+|"\w+"', s.replace('\\"', '"'))]


def all_edits(bases, d):
    f = os.path.join(d, "bases.json")
    out, states = [], [0]

    def one(b):
        g = os.path.join(d, "base%d.json" % b)
        with open(g, "w") as h:
            json.dump([tla(bases[b])], h)
        r = tlc("DslRulesMC", "INIT Init\nNEXT Next\nINVARIANT Says\nINVARIANT Meant\nCHECK_DEADLOCK FALSE\n", d,
                env={"BASES": g}, timeout=600)
        if not r["ok"]:
            raise Infra("TLC failed on DslRulesMC: " + r["out"][-2500:])
        states[0] += r["distinct"]
        for m in re.finditer(r'<<\s*"EDIT",\s*1,\s*"(\w+)",\s*"((?:[^"\\]|\\.)*)",\s*"(\w*)",\s*"(\w+)",\s*(\{[^}]*\})\s*>>', r["out"]):
            out.append((b, m.group(1), parse_path(m.group(2)), m.group(3), m.group(4), m.group(5)))
    pmap(one, range(len(bases)))
    return sorted(out, key=str), states[0]


# ---------------------------------------------------------------- the check
def try_spec(tools, d, n, txt):
    w = os.path.join(d, "s%d" % n)
    os.makedirs(w)
    f = os.path.join(w, "a.ccn")
    open(f, "w").write(txt)
    rc, o, e = cocogen(tools, f, os.path.join(w, "g"))
    shutil.rmtree(w, ignore_errors=True)
    return classify(rc, o, e), rc, (o + e)[-1500:]


def compare(chk, tools, d, cases, prefix):
    """cases: (S, text, verdict, reasons, origin).  Any difference between the
    verdict and what cocogen does is a violation."""
    bad = []
    ts = tools if isinstance(tools, list) else [tools]

    def tool(n):        # the builds take turns
        return ts[n % len(ts)]

    def one(x):
        n, (S, txt, v, why, origin) = x
        if len(bad) >= 40:
            return None
        got, rc, msg = try_spec(tool(n), d, n, txt)
        ok = got in ("accept", "reject") if v == "any" else got == v
        if not ok:
            bad.append((n, got, rc, msg))
    pmap(one, list(enumerate(cases)))
    bad.sort()
    for n, got, rc, msg in bad[:12]:
        S, txt, v, why, origin = cases[n]
        again = try_spec(tool(n), d, 1000000 + n, txt)
        if again[0] != got:
            chk.cov["unsteady"] = chk.cov.get("unsteady", 0) + 1
            continue
        chk.violation("cocogen %s (exit %s) a specification that is to be %s %s [%s]\n%s\n--- output\n%s" %
                      ({"accept": "accepts", "reject": "rejects"}.get(got, "fails on"), rc,
                       {"accept": "accepted", "reject": "rejected", "any": "accepted or rejected"}[v], why, origin, txt, msg),
                      {"spec": txt, "verdict": v, "reasons": why, "got": got, "rc": rc, "output": msg, "abstract": S})
    return len(bad)


def main(prop):
    chk = Check(prop, "model_checking")
    tools = build_repo()
    checked = build_repo(True)
    rng = chk.rng
    nb, n_edits, n_pairs, n_rand, n_garbled = (3, 700, 350, 250, 250) if chk.quick() else (24, 10000, 5000, 3000, 6000)
    n_words = 300 if chk.quick() else 5000
    with Scratch() as d:
        # bases that the specification accepts, with every kind of slot
        pool = [random_base(rng) for _ in range(nb * 4 + n_rand)]
        verd = judge(pool, d)
        good = [S for S, v in zip(pool, verd) if v[0] == "accept"]
        bases = good[:nb]
        eds, states = all_edits(bases, d)
        per = {}
        for x in eds:
            per.setdefault((x[0], x[1]), []).append(x)
        chosen = []
        classes = sorted({k[1] for k in per})
        for (b, c), xs in sorted(per.items()):
            k = max(8, n_edits * {"clash": 3, "ref": 3}.get(c, 1) // (len(bases) * (len(classes) + 4)))
            chosen += rng.sample(xs, min(k, len(xs)))
        cases = []
        for b, c, path, val, v, why in chosen:
            S = apply_edit(bases[b], c, path, val)
            cases.append((S, text(S, rng), v, why, "edit %s %s %s" % (c, path, val)))
        # two edits at once, and random specifications
        two = []
        for _ in range(n_pairs):
            x, y = rng.choice(eds), rng.choice(eds)
            if x[1] in ("drop", "none") or y[0] != x[0]:
                continue
            try:
                two.append(apply_edit(apply_edit(bases[x[0]], *x[1:4]), *y[1:4]))
            except (IndexError, KeyError):
                continue
        for S, (v, why) in zip(two, judge(two, d)):
            cases.append((S, text(S, rng), v, why, "two edits"))
        for S, (v, why) in list(zip(pool, verd)):
            cases.append((S, text(S, rng), v, why, "random"))
        words = [tempt(rng.choice(good), rng) for _ in range(n_words)]
        for S, (v, why) in zip(words, judge(words, d)):
            cases.append((S, text(S, rng), v, why, "word as a name"))
        # whatever the text, there is one of the two outcomes
        for _ in range(n_garbled):
            S = rng.choice(good)
            cases.append((S, garble(text(S, rng), rng), "any", "{}", "garbled"))
        rng.shuffle(cases)
        compare(chk, [checked] if os.environ.get("ALLCHECKED") else [tools, tools, checked], d, cases, "c")
        n = {v: sum(1 for c in cases if c[2] == v) for v in ("accept", "reject", "any")}
        chk.cov = dict(chk.cov, bases=len(bases), edits_enumerated=len(eds), specifications=len(cases), verdicts=n,
                       states=states)
        chk.assumptions = ["lifetimes of nodeset attributes, repeated attributes of several nodesets of a member "
                           "are left open: either outcome is taken"]
    return chk.finish()
