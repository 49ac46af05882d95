"""P01-P04: the phase driver (spec/PhaseDriver.tla)."""
import json
import os
import re

import core
import dsl
from core import *

# ------------------------------------------------------------- instances


class Names:
    """Distinct (case-insensitively) identifiers with random spelling."""
    def __init__(self, rng):
        self.r, self.used, self.made = rng, set(), []
        self.alike = rng.choice([0, 0, .1, .4])
        self.stem = "" if rng.random() < .8 else "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.choice([8, 20, 40])))
        self.bad = {"pass", "node", "enum", "for", "int", "do", "if", "bool", "char", "void", "auto", "case", "else",
                    "goto", "long", "break", "const", "float", "short", "union", "while", "true", "false", "asm", "to", "args", "main",
                    "exit", "free", "read", "write", "time", "stdin", "errno", "this", "start", "cycle", "phase", "user", "uid", "root", "nodes", "info", "func", "gate", "values", "prefix", "null"}

    def new(self, pre="", n=None):
        while True:
            k = n or self.r.randint(2, 5)
            s = pre + self.stem + "".join(self.r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(k))
            near = [x for x in self.made if x.startswith(pre) and len(x) < 60]
            if near and self.r.random() < self.alike:     # one that goes on where another ends
                s = self.r.choice(near[-6:]) + self.r.choice("abcxyzABCXYZ")
            if s.lower() in self.used or s.lower() in self.bad:
                continue
            self.used.add(s.lower())
            self.made.append(s)
            return s


def occurrences(defs, d, memo=None):
    memo = {} if memo is None else memo
    if d not in memo:
        memo[d] = 1 + sum(occurrences(defs, a, memo) for a in defs[d]["a"])
    return memo[d]


def random_structure(rng, cycles=True, gates=True, maxocc=24):
    while True:
        nm = Names(rng)
        nph = rng.randint(1, 5)
        nlf = rng.randint(1, 4)
        defs = []
        for i in range(nph):
            defs.append({"n": nm.new("P"), "k": "cycle" if cycles and i and rng.random() < .55 else "phase",
                         "g": False, "a": [], "uid": nm.new("u") if rng.random() < .5 else None})
            # the grammar gives cycles gates too
            if gates and rng.random() < .35:
                defs[i]["g"] = True
                defs[i]["gf"] = nm.new("g")
        for i in range(nlf):
            t = rng.random() < .35
            d = {"n": nm.new("L"), "k": "leaf", "g": False, "a": [], "trav": t,
                 "uid": nm.new("u") if t or rng.random() < .4 else None,
                 "func": None if t or rng.random() < .6 else nm.new("f")}
            defs.append(d)
        for i in range(nph):
            later = list(range(i + 1, nph))
            n = rng.randint(1, 3)
            for _ in range(n):
                if later and rng.random() < .6:
                    defs[i]["a"].append(rng.choice(later))
                else:
                    defs[i]["a"].append(rng.randrange(nph, nph + nlf))
        if rng.random() < .3:
            defs[0]["k"] = "cycle" if cycles else "phase"
        if occurrences(defs, 0) <= maxocc:
            break
    # drop what is not reachable from the start
    reach, todo = set(), [0]
    while todo:
        d = todo.pop()
        if d not in reach:
            reach.add(d)
            todo += defs[d]["a"]
    idx = {d: i for i, d in enumerate(sorted(reach))}
    out = []
    for d in sorted(reach):
        e = dict(defs[d])
        e["a"] = [idx[a] for a in defs[d]["a"]]
        out.append(e)
    # how the definitions are written: some inline at their first mention
    for i, d in enumerate(out):
        if i and rng.random() < .4:
            d["inline"] = True
    perm = list(range(len(out)))
    rng.shuffle(perm)
    return {"defs": out, "order": perm, "root": nm.new("R"), "id": nm.new("v")}


def to_dsl(st):
    defs = st["defs"]
    done = set()

    def body(i):
        d = defs[i]
        if d["k"] == "leaf":
            if d["trav"]:
                return {"name": d["n"], "uid": d["uid"]}
            return {"name": d["n"], "uid": d.get("uid"), "func": d.get("func")}
        r = {"kind": d["k"], "name": d["n"], "uid": d.get("uid"), "gate": d.get("gf"), "start": i == 0, "actions": []}
        for a in d["a"]:
            if defs[a].get("inline") and a not in done:
                done.add(a)
                b = body(a)
                b["inline"] = kind(a)
                r["actions"].append(b)
            else:
                r["actions"].append(defs[a]["n"])
        return r

    def kind(i):
        d = defs[i]
        return ("trav" if d["trav"] else "pass") if d["k"] == "leaf" else "phase"
    items = []
    tops = [i for i in st["order"] if not defs[i].get("inline")]
    for i in tops:
        items.append([kind(i), body(i)])
    items.append(["node", {"name": st["root"], "root": True,
                           "attrs": [{"type": "int", "name": st["id"], "constructor": True}]}])
    return dsl.render(items)


def harness(st):
    R, v = st["root"], st["id"]
    s = '#include "phase.h"\n#include <stdarg.h>\n'
    s += "static node_st *mktree(int id) { return AST%s(id); }\n" % R.lower()
    s += "static int treeid(node_st *n) { return %s_%s(n); }\n" % (R.upper(), v.upper())
    for d in st["defs"]:
        nm = d["n"].lower()
        if d["k"] == "leaf":
            if d["trav"]:
                f = d["uid"].upper() + R.lower()
            elif d.get("func"):
                f = d["func"]
            else:
                f = (d["uid"].upper() if d.get("uid") else "") + d["n"]
            s += 'node_st *%s(node_st *n) { return leaf("%s", n); }\n' % (f, nm)
        elif d.get("gf"):
            s += 'bool %s(void) { return gate("%s"); }\n' % (d["gf"], nm)
    return s


def model(st):
    return {"start": 1, "defs": [{"n": d["n"].lower(), "k": d["k"], "g": d["g"], "t": bool(d.get("trav")), "a": [a + 1 for a in d["a"]]}
                                 for d in st["defs"]]}


def listing(defs):
    """Preorder listing, only used to choose breakpoints."""
    out = []

    def go(i, path):
        out.append(path + [defs[i]["n"]])
        for a in defs[i]["a"]:
            go(a, path + [defs[i]["n"]])
    go(0, [])
    return out


def spell(rng, s):
    return "".join(c.upper() if rng.random() < .5 else c.lower() for c in s)


def scenario(rng, prop, st):
    occ = listing(st["defs"])
    sc = {"seed": rng.randrange(1 << 30), "runs": rng.choice([1, 1, 1, 2, 3]), "max": -1, "bpid": 0, "path": [],
          "notify": 0, "perr": 0, "aerr": 0, "gate": rng.choice([100, 80, 50, 20]), "setmax": 0,
          "new": rng.choice([0, 30, 100]), "decay": 0, "verb": rng.choice([0, 0, 0, 1, 2, 3]),
          "check": rng.choice([1, 1, 1, 0])}
    sc["null"] = rng.choice([0, 0, 0, 10, 30]) if prop in ("P01", "P04") else 0
    noisy = prop == "P02" or rng.random() < .35
    if noisy:
        sc["max"] = rng.choice([0, 1, 2, 3, 4, 5, 7])
        if prop == "P02" and rng.random() < .1:
            sc["max"] = -1
            sc["notify"], sc["decay"] = 100, rng.choice([0, 1])
        else:
            sc["notify"], sc["decay"] = rng.choice([10, 30, 60, 100]), rng.choice([0, 0, 3, 10])
            sc["setmax"] = rng.choice([0, 0, 10])
    if prop == "P03":
        sc["perr"] = rng.choice([0, 5, 20])
        sc["aerr"] = rng.choice([0, 0, 5, 15])
    if prop == "P04" and rng.random() < .8:
        if rng.random() < .5:
            sc["bpid"] = rng.randint(1, len(occ) + 2)
        if sc["bpid"] == 0 or rng.random() < .15:
            full = rng.choice(occ)
            k = rng.random()
            if k < .5:
                p = full
            elif k < .8:
                keep = [x for x in full[:-1] if rng.random() < .5]
                p = keep + full[-1:]
            elif k < .9:
                p = list(full)
                rng.shuffle(p)
            else:
                p = full + [rng.choice(occ)[-1]]
            sc["path"] = [x.lower() for x in p]
            sc["pathtxt"] = ".".join(spell(rng, x) for x in p)
        if rng.random() < .15:
            sc["perr"], sc["aerr"] = 5, 5
    return sc


def line(sc):
    return "%d %d %d %d %s %d %d %d %d %d %d %d %d %d %d\n" % (
        sc["seed"], sc["runs"], sc["max"], sc["bpid"], sc.get("pathtxt", "-"), sc["notify"], sc["perr"], sc["aerr"],
        sc["gate"], sc["setmax"], sc["new"], sc["null"], sc["decay"], sc["verb"], sc["check"])


def run_instance(tools, d, st, scs):
    """-> (status, detail, [events per scenario], listing)"""
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "i.ccn"), "w").write(to_dsl(st))
    rc, o, e = cocogen(tools, os.path.join(d, "i.ccn"), os.path.join(d, "g"))
    if rc != 0:
        return "rejected", "cocogen: rc=%s %s" % (rc, (o + e)[-1500:]), [], []
    open(os.path.join(d, "h.c"), "w").write(harness(st))
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"))
    if not ok:
        return "nobuild", msg[-1500:], [], []
    rc, o, e = run([os.path.join(d, "h")], inp="".join(line(s) for s in scs).encode(), timeout=300)
    if rc != 0:
        return "harness", "rc=%s %s" % (rc, e[-500:]), [], []
    evs = []
    for ln in o.split("\n"):
        if ln == "#":
            evs.append([])
        elif ln:
            evs[-1].append(json.loads(ln))
    rc, so, e = run([os.path.join(d, "h"), "show"], timeout=20)
    show = []
    for ln in so.split("\n"):
        m = re.match(r"^(\t*)(\d+): (.*)$", ln)
        if m:
            show.append([int(m.group(2)), len(m.group(1)) + 1, m.group(3).lower()])
    return "ok", "", evs, show


def trace(st, sc, ev, show, ids, loose):
    m = model(st)
    k = next((i for i, e in enumerate(ev) if e["e"] == "cut"), None)
    if k is not None:
        ev = ev[:k + 1]
    return {"start": m["start"], "defs": m["defs"], "max": 100 if sc["max"] < 0 else sc["max"],
            "bp": {"id": sc["bpid"], "path": sc["path"]}, "ids": ids, "loose": loose, "show": show, "ev": ev}


# ------------------------------------------------------------- exhaustive model

def small_structures(n):
    """All structures with one start phase and at most n occurrences, no
    definition used twice, every phase plain/gated/cycle."""
    def forests(k):       # lists of trees with k nodes in total, non-empty
        if k == 0:
            return [[]]
        out = []
        for h in range(1, k + 1):
            for t in trees(h):
                for rest in forests(k - h):
                    out.append([t] + rest)
        return out

    def trees(k):
        if k == 1:
            return ["L"]
        out = []
        for f in forests(k - 1):
            for kd in ("phase", "gated", "cycle"):
                out.append((kd, f))
        return out
    res = []
    for k in range(2, n + 1):
        for t in trees(k):
            defs = []

            def add(x):
                i = len(defs)
                if x == "L":
                    defs.append({"n": "l%d" % i, "k": "leaf", "g": False, "t": i % 2 == 0, "a": []})
                else:
                    defs.append({"n": "p%d" % i, "k": "cycle" if x[0] == "cycle" else "phase", "g": x[0] == "gated",
                                 "a": []})
                    for c in x[1]:
                        j = add(c)
                        defs[i]["a"].append(j)
                return i + 1
            add(t)
            res.append({"start": 1, "defs": defs})
    return res


INVS = {"P01": "TreeChain SkipRule InOrder ClosedGate Complete NothingAfterExit",
        "P02": "CycleRule InOrder Complete",
        "P03": "ActionError PhaseError NoFailWithoutSignal NothingAfterExit",
        "P04": "BreakRule BreakCompletes Numbering TreeChain"}


def model_check(ck, d, prop):
    n, ml = (4, 16) if ck.quick() else (5, 18)
    structs = small_structures(n)
    k = 1 if ck.quick() else 4
    parts = [structs[i::k] for i in range(k)]
    cfg = """SPECIFICATION Spec
CONSTANTS
 MaxLen = %d
 Trees = {%s}
 Nulls = %s
 Maxes = {%s}
 Errors = {%s}
 Bps = %s
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS %s
""" % (ml, "0, 1" if prop == "P01" else "0", "TRUE" if prop in ("P01", "P04") else "FALSE", "1, 2, 3" if prop == "P02" else "2",
       "TRUE, FALSE" if prop == "P03" else "FALSE", "TRUE" if prop == "P04" else "FALSE", INVS[prop])

    def one(i):
        p = os.path.join(d, "s%d.json" % i)
        json.dump(parts[i], open(p, "w"))
        return tlc("PhaseDriverMC", cfg, d, workers=8 // k, env={"INPUT": p}, timeout=1500, heap="4g")
    gen = dist = 0
    for r in pmap(one, range(k), k):
        if not r["ok"]:
            raise Infra("model check of PhaseDriver failed:\n" + r["out"][-5000:] + r["err"][-500:])
        gen += r["generated"]
        dist += r["distinct"]
    return dist, gen, len(structs)


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    ninst, nsc = (64, 40) if ck.quick() else (600, 80)
    rng = ck.rng
    insts = [random_structure(rng, cycles=True, gates=prop != "P02" or rng.random() < .3,
                              maxocc=rng.choice([6, 12, 24])) for _ in range(ninst)]
    plans = [[scenario(rng, prop, st) for _ in range(nsc)] for st in insts]
    ids, loose = prop == "P04", prop != "P02"
    with Scratch() as d:
        mc_states, mc_gen, mc_n = model_check(ck, d, prop)
        res = pmap(lambda i: run_instance(tools, os.path.join(d, "i%d" % i), insts[i], plans[i]), range(ninst))
        traces, meta = [], []
        for i, (status, det, evs, show) in enumerate(res):
            if status in ("rejected", "nobuild"):
                ck.violation("a well-formed specification yields no compiler (%s): %s" % (status, det),
                             {"ccn": to_dsl(insts[i]), "status": status, "detail": det})
                continue
            if status == "harness" or len(evs) != nsc:
                raise Infra("harness: " + det)
            for sc, ev in zip(plans[i], evs):
                traces.append(trace(insts[i], sc, ev, show if ids else [], ids, loose))
                meta.append((i, sc))
        cfg = ("INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n")
        acc, st, gen, _ = tlc_judge("PhaseDriverTrace", cfg, traces, d)
        for j in range(len(traces)):
            if j not in acc:
                i, sc = meta[j]
                # repeat the run before reporting
                status, det, evs, show = run_instance(tools, os.path.join(d, "again"), insts[i], [sc])
                again = [trace(insts[i], sc, evs[0], show if ids else [], ids, loose)] if evs else []
                if again:
                    a2, _, _, _ = tlc_judge("PhaseDriverTrace", cfg, again, d)
                    if a2:
                        continue
                r = explain(d, traces[j])
                ck.violation("run is no behaviour of PhaseDriver: " + r,
                             {"ccn": to_dsl(insts[i]), "scenario": sc, "trace": traces[j]})
                if len(ck.viol) >= 3:
                    break
    ck.cov = {"states": mc_states + st, "transitions": mc_gen + gen, "model_states": mc_states,
              "model_structures": mc_n, "traces_validated_against_impl": len(acc),
              "compilers_built": ninst, "trace_events": sum(len(t["ev"]) for t in traces),
              "samples": [{"ccn": to_dsl(insts[0]), "scenario": plans[0][0],
                           "events": traces[0]["ev"][:12] if traces else []}]}
    ck.assumptions = ["TLC, gcc and the harness under /verif/harness are trusted",
                      "structures with more than 24 occurrences and runs of more than 600 events are not explored"]
    return ck.finish()


def explain(d, tr):
    """How far does the specification follow the trace?"""
    p = os.path.join(d, "one.json")
    json.dump([tr], open(p, "w"))
    cfg = "INIT Init\nNEXT Next\nINVARIANT Where\nCHECK_DEADLOCK FALSE\n"
    r = tlc("PhaseDriverTrace", cfg, d, env={"TRACES": p}, timeout=120)
    m = re.findall(r'<<"AT", (\d+), (.*)>>', r["out"])
    if not m:
        return "no initial state (printed structure differs): show=%s" % tr["show"]
    n, what = max(((int(a), k, b) for k, (a, b) in enumerate(m)))[::2]
    ev = tr["ev"]
    return "after %d events the specification is at %s and cannot take %s" % (
        n - 1, what, json.dumps(ev[n - 1]) if n <= len(ev) else "the end")
