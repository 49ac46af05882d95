"""P16: generated code builds, starts, and is generated the same again
(spec/Generated.tla)."""
import copy
import json
import os
import re

import dsl
from c_attr import random_grammar
from c_dsl import KW, items, judge, lt, random_base, random_expr, speller, tla, walk
from c_life import explain
from c_nsattr import random_spec
from core import *

WORDS = ("error type data left right next name size count index list tree expr stmt cleanup free copy check print opt id "
         "value head tail parent child block loop line col file table key entry arg op var fun decl body cond init fini "
         "result main mod program symbol scope depth level kind state target source first last begin end length "
         "null nop push pop get set add visit eval ast ste hash str mem trav action current filename children_ "
         "bline eline bcol ecol binop monop ifelse assign call ret num floatnum boolnum cast dims ids pragma unit "
         "this_ that other stop result2 x y z i j k n t s").split()
C_ONLY = [w for w in KW if w not in ("start",)]


def combine(rng):
    """actions and traversals of one kind of random specification with the
    nodes of another"""
    B, G = random_base(rng), random_grammar(rng, rng.choice(["l", "l", "rank"]))
    G = walk(G, lambda k, n: "zz" + n)
    S = {"phases": B["phases"], "passes": B["passes"] + G["passes"], "travs": B["travs"], "nodes": G["nodes"],
         "nodesets": G["nodesets"], "enums": B["enums"] + G["enums"]}
    start = next(p for p in S["phases"] if p["start"])
    start["acts"].append(G["passes"][0]["name"])
    nodes, sets = [n["name"] for n in S["nodes"]], [n["name"] for n in S["nodesets"]]
    types = nodes + sets + [e["name"] for e in S["enums"]]
    for t in S["travs"]:
        t["expr"] = random_expr(rng, nodes, sets, rng.choice([0, 0, 1, 2]))
        for d in t["data"]:
            if d["kind"] == "ref":
                d["ref"] = rng.choice(types)
            elif rng.random() < .1:
                d["kind"], d["ref"] = "user", "UserT"

    def bound():
        return [rng.choice(start["acts"])] if rng.random() < .7 else []

    def lts(kinds, p=.2):
        return [lt(rng.choice(kinds), bound(), bound())] if rng.random() < p else []
    for n in S["nodes"]:
        for c in n["children"]:
            c["lts"] = c["lts"] or lts(["allowed", "disallowed", "mandatory", "optional"])
        for a in n["attrs"]:
            if a["kind"] == "string" and not a["inh"] and not a["syn"]:
                a["lts"] = lts(["allowed", "disallowed", "mandatory", "optional"], .4)
        if n["children"]:
            n["lts"] = lts(["allowed", "disallowed"])
    return S


def rename(S, rng):
    """other names: words a user might choose, some that are words of C or of
    the language when written in lower case"""
    m, used, caps = {}, {}, []
    pass_names = {p["name"] for p in S["passes"]}
    uids = {x["uid"] for k in ("phases", "passes", "travs") for x in S[k]}

    def f(k, n):
        if (k, n) in m:
            return m[k, n]
        u = used.setdefault("local" if k == "local" else "other", set())
        while True:
            if k == "glob" and n in pass_names or k in ("func", "gate"):
                w = "do" + rng.choice(WORDS).replace("_", "") + rng.choice(["", "2", "all"])
            elif k == "glob" and n in uids:
                w = "".join(rng.choice("bdfghjklmnpqrstvwxz") for _ in range(rng.choice([2, 3, 4])))
            elif k == "prefix":
                w = "".join(rng.choice("abcdfghjklmnqrvwxyz") for _ in range(rng.choice([2, 3])))
            elif k == "value":
                w = rng.choice(WORDS + C_ONLY)
                if w in KW and w not in ("if", "else", "int", "while", "return", "default", "const"):
                    continue
            else:
                w = rng.choice(WORDS if rng.random() < .93 else C_ONLY)
                if rng.random() < .2:
                    w += rng.choice(["list", "2", "s", "set"])
            if w in u or w in ("error", "index") and k in ("func", "gate"):
                continue
            u.add(w)
            if w in KW and k in ("glob", "local"):
                caps.append(w)
            m[k, n] = w
            return w
    S = walk(S, f)
    S["caps"] = [w for w in caps]
    return S


def annotate(S, its):
    """the spellings that generated names keep"""
    S = tla(S)
    defs = {}

    def see(kind, d):
        defs[kind, d["name"].lower()] = d
        for a in d.get("actions", []):
            if isinstance(a, dict):
                see({"pass": "pass", "trav": "trav", "phase": "phase"}[a["inline"]], a)
    for k, d in its:
        see(k, d)
    for p in S["passes"]:
        d = defs["pass", p["name"]]
        p["on"], p["fn"], p["up"] = d["name"], d["func"] or "", p["uid"].upper()
    for p in S["travs"]:
        p["up"] = p["uid"].upper()
    for p in S["phases"]:
        p["og"] = defs["phase", p["name"]].get("gate") or ""
    for e in S["enums"]:
        e["on"] = defs["enum", e["name"]]["name"]
    return S


STRICT = ["-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types",
          "-Werror=implicit-int", "-Werror=return-type"]
USER_TYPES = "#pragma once\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\ntypedef struct user_thing *UserT;\ntypedef struct user_thing *usertype;\n"


def tree(g, skip=("ag_dot", "log")):
    o = {}
    for r, ds, fs in os.walk(g):
        for f in fs:
            p = os.path.relpath(os.path.join(r, f), g)
            if p.split("/")[0] not in skip:
                o[p] = open(os.path.join(r, f), "rb").read()
    return o


def stubs(fns):
    o = '#include "ccn/ccn.h"\n#include "ccngen/ast.h"\n#include "ccngen/trav.h"\n#include "ccngen/actions.h"\n' \
        '#include "ccngen/gate.h"\n#include "ccngen/equation.h"\n'
    for f in fns:
        o += "%s %s(%s) { %s }\n" % (f["ret"], f["name"], ", ".join("%s p%d" % (p, i) for i, p in enumerate(f["params"])) or "void",
                                     {"pass": "return p0;", "trav": "return TRAVchildren(p0);", "data": "", "driver": "", "gate": "return true;"}
                                     .get(f["kind"], "return (%s)0;" % f["ret"]))
    return o


def main_c(S):
    o = '#include "ccn/ccn.h"\n#include "ccngen/ast.h"\n#include "ccn/dynamic_core.h"\nint main(void) {\n'
    for x in S["nodes"]:
        n = sum(c.get("ctor", False) for c in x["children"]) + sum(a["ctor"] for a in x["attrs"])
        o += "  CCNfree(AST%s(%s));\n" % (x["name"], ", ".join(["0"] * n))
    return o + "  CCNrun(0);\n  return 0;\n}\n"


def generate(tools, f, g, variant=0):
    os.makedirs(g, exist_ok=True)
    # other addresses of the same allocations
    o = ["detect_leaks=0:exitcode=99:allocator_may_return_null=1" + x for x in
         ("", ":redzone=512:quarantine_size_mb=0", ":redzone=64:quarantine_size_mb=1:max_redzone=64",
          ":redzone=2048:quarantine_size_mb=0")][variant % 4]
    return run([tools.cocogen, "--gen-dir", g, f], timeout=60, env={"ASAN_OPTIONS": o})


def damage(g, rng):
    """what an interrupted or edited earlier generation leaves"""
    for r, ds, fs in os.walk(g):
        for f in fs:
            p, k = os.path.join(r, f), rng.random()
            if k < .15:
                b = open(p, "rb").read()
                open(p, "wb").write(b[:rng.randint(0, len(b))])
            elif k < .25:
                open(p, "ab").write(b"\n#error left over from before\n" * rng.randint(1, 400))
            elif k < .35:
                os.remove(p)


def observe(tools, d, text, others, fns, S, rng):
    """everything GeneratedTrace wants to know, or None if cocogen refuses"""
    g, f = os.path.join(d, "g"), os.path.join(d, "s.ccn")
    msgs = []
    o = {"broken": [], "twice": [], "missing": [], "undeclared": [], "conflict": False, "links": True, "starts": True,
         "skeleton": [], "skelconflict": False, "skelstarts": True, "regen": []}
    os.makedirs(os.path.join(d, "inc"), exist_ok=True)
    open(f, "w").write(text)
    open(os.path.join(d, "inc", "user_types.h"), "w").write(USER_TYPES)
    open(os.path.join(d, "stubs.c"), "w").write(stubs(fns))
    open(os.path.join(d, "main.c"), "w").write(main_c(S))
    cp = os.path.join(REPO, "copra", "src")
    inc = ["-I" + g, "-I" + os.path.join(d, "inc"), "-I" + os.path.join(REPO, "copra"), "-I" + os.path.join(REPO, "palm", "include")]
    gen = sorted(os.path.join(g, x) for x in os.listdir(g) if x.endswith(".c"))
    cop = sorted(os.path.join(cp, x) for x in os.listdir(cp) if x.endswith(".c"))
    obj = os.path.join(d, "obj")
    os.makedirs(obj)

    def cc(srcs, flags=()):
        rc, so, se = run(["gcc", "-O0", "-c"] + STRICT + list(flags) + inc + srcs, timeout=240, cwd=obj)
        return rc, so + se

    def bad(msg):
        return sorted({os.path.basename(m) for m in re.findall(r"^(?:In file included from )?(/\S+?):\d+:\d+: (?:fatal )?error", msg, re.M)}) or ["?"]
    rc, m = cc(gen + cop + [os.path.join(d, "main.c")])
    if rc:
        o["broken"] = bad(m)
        msgs.append(m[:1500])
        o["skeleton"] = ["?"]
    else:
        objs = sorted(os.path.join(obj, x) for x in os.listdir(obj))
        rc, so, m = run(["gcc", "-o", os.path.join(d, "a0")] + objs + [tools.palm], timeout=120, cwd=d)
        o["missing"] = sorted(set(re.findall(r"undefined reference to [`']([^']+)'", m)))
        o["twice"] = sorted(set(re.findall(r"multiple definition of [`']([^']+)'", m)))
        rc, m = cc([os.path.join(d, "stubs.c")], ["-Wmissing-declarations"])
        if rc:
            o["conflict"], o["links"] = True, False
            msgs.append(m[:1500])
        else:
            o["undeclared"] = sorted(set(re.findall(r"no previous (?:declaration|prototype) for '([^']+)'", m)))
            rc, so, m = run(["gcc", "-o", os.path.join(d, "a1")] + objs + [os.path.join(obj, "stubs.o"), tools.palm], timeout=120, cwd=d)
            o["links"] = rc == 0
            if rc:
                msgs.append(m[-1500:])
            else:
                rc, so, se = run([os.path.join(d, "a1")], timeout=20, cwd=d)
                o["starts"] = rc == 0
                if rc:
                    msgs.append("started: exit %s %s" % (rc, (so + se)[-500:]))
        # the skeletons (a value of a type of the user is left to the user), each with every header that declares what it defines
        u = os.path.join(g, "user")
        sk = sorted(os.path.join(u, x) for x in os.listdir(u) if x.endswith(".c"))
        so_ = os.path.join(d, "sk")
        os.makedirs(so_)
        hdr = [x for h in ("ast", "trav", "actions", "gate", "equation") for x in ("-include", "ccngen/%s.h" % h)]
        rc, so, m = run(["gcc", "-O0", "-c"] + STRICT[:-1] + hdr + inc + sk, timeout=240, cwd=so_)
        if rc:
            o["skelconflict"] = True
            msgs.append("skeletons: " + m[:1500])
        sobj = sorted(os.path.join(so_, x) for x in os.listdir(so_))
        rc, so, m = run(["nm", "--defined-only", "-g"] + sobj, timeout=60) if sobj else (0, "", "")
        o["skeleton"] = sorted(re.findall(r" T (\S+)", so))
        if not o["skelconflict"] and len(set(o["skeleton"])) == len(o["skeleton"]):
            gates = os.path.join(d, "gates.c")
            open(gates, "w").write(stubs([x for x in fns if x["kind"] in ("gate", "driver")]))
            rc, m = cc([gates])
            rc, so, m = run(["gcc", "-o", os.path.join(d, "a2")] + objs + sobj + [os.path.join(obj, "gates.o"), tools.palm], timeout=120, cwd=d)
            if rc == 0:
                rc, so, se = run([os.path.join(d, "a2")], timeout=20, cwd=d)
                m = (so + se)[-500:]
            if rc:
                o["skelstarts"] = False
                msgs.append("with skeletons: %s %s" % (rc, m[-1200:]))
    # again: elsewhere, over itself, over others, over damaged ones
    ref = tree(g)
    for v in range(3):
        h = os.path.join(d, "again" + "x" * rng.randint(0, 90))
        if v == 1:
            shutil.copytree(g, h)
            damage(h, rng)
        elif v == 2:
            for t in others:
                open(os.path.join(d, "o.ccn"), "w").write(t)
                generate(tools, os.path.join(d, "o.ccn"), h)
            if rng.random() < .5:
                damage(h, rng)
        rc, so, se = generate(tools, f, h, v + 1)
        now = tree(h)
        for p in sorted(set(ref) | {p for p in now if "/" not in p}):
            if rc != 0 or now.get(p) != ref.get(p):
                o["regen"].append("%d:%s" % (v, p))
        shutil.rmtree(h)
    return o, "\n".join(msgs)


def functions(specs, d):
    out = [None] * len(specs)
    parts = [list(range(i, len(specs), JOBS)) for i in range(JOBS)]

    def one(idx):
        if not idx:
            return
        f, g = os.path.join(d, "fi%d.json" % idx[0]), os.path.join(d, "fo%d.json" % idx[0])
        with open(f, "w") as h:
            json.dump([specs[i] for i in idx], h)
        r = tlc("GeneratedFns", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", d, env={"TRACES": f, "OUT": g})
        if not r["ok"]:
            raise Infra("TLC failed on GeneratedFns: " + r["out"][-2500:])
        for i, x in zip(idx, json.load(open(g))):
            out[i] = sorted(x["fns"], key=lambda f: f["name"]) if x["clear"] else None
    pmap(one, parts)
    return out


def make(rng):
    k = rng.random()
    S = random_base(rng) if k < .2 else random_spec(rng) if k < .35 else combine(rng)
    return rename(S, rng) if rng.random() < .85 else S


def main(prop):
    chk = Check(prop, "model_checking")
    tools = build_repo()
    rng = chk.rng
    want, pool_n = (160, 600) if chk.quick() else (2400, 9500)
    with Scratch() as d:
        r = tlc("GeneratedMC", "CONSTANTS Args = %d\nSPECIFICATION Spec\nINVARIANTS OneForEveryCase NoneTooMany Count Clear Others\n"
                "CHECK_DEADLOCK FALSE\n" % (3 if chk.quick() else 5), d, workers=8, timeout=700, heap="8g")
        if not r["ok"]:
            raise Infra("model check of Generated failed:\n" + r["out"][-3000:] + r["err"][-500:])
        pool = [make(rng) for _ in range(pool_n)]
        verd = judge(pool, d)
        pick = [S for S, v in zip(pool, verd) if v[0] == "accept"]
        anys = [S for S, v in zip(pool, verd) if v[0] == "any"]
        refused = [dsl.render(items(S, rng, speller(rng, True, S.get("caps", ())))) for S, v in zip(pool, verd) if v[0] == "reject"]
        anys = anys[:max(10, want // 3)]
        pick = (pick[:want - len(anys)] + anys)[:want]
        texts, ann = [], []
        for S in pick:
            its = items(S, rng, speller(rng, True, S.get("caps", ())))
            texts.append(dsl.render(its))
            ann.append(annotate(S, its))

        def gen(i):
            w = os.path.join(d, "s%d" % i)
            os.makedirs(w)
            open(os.path.join(w, "s.ccn"), "w").write(texts[i])
            rc, so, se = generate(tools, os.path.join(w, "s.ccn"), os.path.join(w, "g"))
            return rc == 0
        acc = pmap(gen, range(len(pick)))
        idx = [i for i in range(len(pick)) if acc[i]]
        if len(idx) < want // 2:
            raise Infra("only %d of %d specifications were accepted" % (len(idx), len(pick)))
        fns = dict(zip(idx, functions([ann[i] for i in idx], d)))
        unclear = [i for i in idx if fns[i] is None]
        idx = [i for i in idx if fns[i] is not None]
        seeds = {i: rng.getrandbits(40) for i in idx}

        def work(i):
            r = random.Random(seeds[i])
            w = os.path.join(d, "s%d" % i)
            o = observe(tools, w, texts[i], [r.choice(texts + refused) for _ in range(r.choice([1, 1, 2]))], fns[i], pick[i], r)
            shutil.rmtree(w, ignore_errors=True)
            return o
        obs = dict(zip(idx, pmap(work, idx)))
        traces = [{"spec": ann[i], "obs": obs[i][0]} for i in idx]
        cfg = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
        ok, states, trans, info = tlc_judge("GeneratedTrace", cfg, traces, d)
        for n, i in enumerate(idx):
            if n in ok or len(chk.viol) >= 4:
                continue
            # the same again: what is reported happens every time
            gen(i)
            again = work(i)
            if tlc_judge("GeneratedTrace", cfg, [{"spec": ann[i], "obs": again[0]}], d)[0]:
                log("not seen again: " + json.dumps(obs[i][0]))
                continue
            why = explain_wrong(traces[n], d)
            chk.violation("%s\n%s\n%s\n%s" % (why, json.dumps({k: v for k, v in obs[i][0].items() if v not in ([], False) and k != "skeleton"}),
                                              obs[i][1], texts[i]),
                          {"spec": texts[i], "observed": obs[i][0], "messages": obs[i][1], "functions": fns[i]})
        kinds = {}
        for i in idx:
            for f in fns[i]:
                kinds[f["kind"]] = kinds.get(f["kind"], 0) + 1
        chk.cov = {"specifications": len(idx), "functions": kinds, "refused": len(pick) - len(idx) - len(unclear), "names not clear": len(unclear), "states": states + r["distinct"], "transitions": trans + r["generated"],
                   "regenerations": 3 * len(idx)}
        chk.assumptions = ["names chosen in a specification, combined as the generated code combines them, are not names of the "
                           "runtime, of the C library or of another function of the user"]
    return chk.finish()


def explain_wrong(tr, d):
    f = os.path.join(d, "why.json")
    json.dump([tr], open(f, "w"))
    r = tlc("GeneratedTrace", "INIT Init\nNEXT Next\nINVARIANT Where\nCHECK_DEADLOCK FALSE\n", d, env={"TRACES": f})
    m = re.search(r'<<"AT", (.*?)>>', r["out"], re.S)
    return m.group(1) if m else r["out"][-800:]
