"""P23: memory that can not be had (spec/Memory.tla): palm's functions,
compilers built from specifications, and cocogen itself, with requests refused."""
import struct

import c_heap
import c_trav
import dsl
from c_cli import Cell, code, snapshot
from c_dsl import items, judge, speller
from c_gen import make
from core import *

CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


# ---- palm
def program(rng):
    out = ["R %d %d" % ((rng.randint(1, 12), rng.randint(0, 1)) if rng.random() < .7 else (0, 0)), "f 0"]
    size = lambda: rng.choice([0, 1, 1, 2, 3, 5, 8, 8, 16, 40, 200 if rng.random() < .2 else 4])
    for _ in range(rng.choice([3, 8, 15, 30])):
        b = rng.randrange(6)
        k = rng.random()
        if k < .3:
            out.append("m %d %d" % (b, size()))
        elif k < .45:
            out.append("c %d %d %d" % (b, size(), rng.randint(1, 6)))
        elif k < .7:
            out.append("r %d %d" % (b, size()))
        elif k < .8:
            out.append("f %d" % b)
        else:
            out.append("w %d %d" % (b, rng.randint(0, 255)))
        if k < .6 and rng.random() < .8:
            out.append("w %d %d" % (b, rng.randint(0, 255)))
    return out


def palm_events(evs):
    out = []
    for e in evs:
        e = dict(e)
        if e["e"] == "end":
            e = {"e": "end", "code": e["code"], "told": "emory" in bytes.fromhex(e["out"]).decode("latin1")}
        elif e["e"] == "died":
            e = {"e": "end", "code": 200, "told": False}
        out.append(e)
    return out


# ---- larger programs
def over(code_, hit, told, same):
    """the trace of a program of which only the end is looked at"""
    how = "done" if code_ == 0 else "abnormal" if code_ == "timeout" or code_ < 0 or code_ >= 99 else "failed"
    return {"ev": ([{"e": "refuse"}] if hit else []) + [{"e": "over", "how": how, "told": bool(told), "same": bool(same)}]}


def runs_of(binary, scs, plan):
    """-> [(what it did, code, count, hit, said)]"""
    env = dict(ASAN_ENV, OOM_PLAN=",".join("%d:%d" % p for p in plan))
    rc, o, e = run([binary], inp="".join(" ".join(map(str, s)) + "\n" for s in scs).encode(), timeout=600, env=env)
    if rc != 0:
        raise Infra("harness: rc=%s %s" % (rc, e[-500:]))
    out = []
    for part in o.split("#\n")[1:] if o.startswith("#\n") else []:
        did, _, rest = part.rpartition("\n@@OVER ")
        c, n, hit, *said = rest.strip().split(" ")
        out.append((did, int(c), int(n), int(hit), bytes.fromhex(said[0] if said else "").decode("latin1")))
    if len(out) != len(scs):
        raise Infra("harness: %d of %d runs" % (len(out), len(scs)))
    return out


def compiler(tools, d, rng, k):
    """a compiler and scenarios for it"""
    os.makedirs(d)
    if rng.random() < .5:
        prop = rng.choice(["P08", "P09", "P10"])
        it = c_heap.random_instance(rng, prop)
        it["ack"] = True
        text, src, asan = c_heap.to_dsl(rng, it), c_heap.harness(it), True
        scs = [c_heap.scenario(rng, prop) for _ in range(k)]
    else:
        prop = rng.choice(["P06", "P07", "P07"])
        it = c_trav.random_instance(rng, prop)
        text, src, asan = c_trav.to_dsl(rng, it), c_trav.harness(it), True
        scs = [c_trav.scenario(rng, prop) for _ in range(k)]
    open(os.path.join(d, "i.ccn"), "w").write(text)
    open(os.path.join(d, "user_types.h"), "w").write("#pragma once\n#define CCN_USES_UNSAFE_ACKNOWLEDGE\ntypedef long UserT;\n")
    open(os.path.join(d, "h.c"), "w").write(src)
    rc, o, e = cocogen(tools, os.path.join(d, "i.ccn"), os.path.join(d, "g"))
    if rc != 0:
        return None
    ok, msg = compile_gen(tools, d, os.path.join(d, "h.c"), flags=["-I" + d, "-DOOM"] + WRAP, asan=asan)
    if not ok:
        return None
    return text, os.path.join(d, "h"), scs


def attack(binary, scs, rng, k):
    """every scenario undisturbed, then k times with requests refused"""
    base = runs_of(binary, scs, [(0, 0)] * len(scs))
    picks = []
    for i, (did, c, n, hit, said) in enumerate(base):
        if c != 0 or n == 0:
            continue
        for at in (rng.sample(range(1, n + 1), k) if n > k else range(1, n + 1)):
            picks.append((i, at, rng.randint(0, 1)))
    res = runs_of(binary, [scs[i] for i, _, _ in picks], [(at, on) for _, at, on in picks]) if picks else []
    out = []
    for (i, at, on), (did, c, n, hit, said) in zip(picks, res):
        same = did == base[i][0] if c == 0 else base[i][0].startswith(did)
        out.append((over(c, hit, said.strip(), same), {"scenario": scs[i], "refused": [at, on], "code": c, "said": said[-600:]}))
    return out


# ---- cocogen
def cocogen_run(cell, exe, name, text, ref, at, on):
    w = os.path.join(cell.d, name)
    os.mkdir(w)
    open(os.path.join(w, "s.ccn"), "w").write(text)
    st = os.path.join(w, "state")
    open(st, "wb").write(bytes(24))
    cell.own(w)
    rc, o, e = cell.run([exe, "--gen-dir", "g/", "s.ccn"], w, timeout=40, env={"OOM_STATE": st, "OOM_AT": str(at), "OOM_ON": str(on)})
    n, _, _, hit = struct.unpack("qqii", open(st, "rb").read(24))
    got = code(snapshot(w), "g")
    shutil.rmtree(w, ignore_errors=True)
    same = ref is None or rc != 0 or got == ref
    return over(rc, hit, e.strip() and "AddressSanitizer" not in e, same), (rc, e[-600:], n, got)


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    exe0 = build_repo(refusing=True).cocogen
    rng, q = ck.rng, ck.quick()
    with Scratch() as d, Cell() as cell:
        r = tlc("MemoryMC", "CONSTANTS Blocks = 2\n MaxLen = %d\n MaxOps = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                "INVARIANTS NoEmpty Stops\nPROPERTIES Ends Own Kept Copied\n" % ((2, 4) if q else (2, 5)), d, workers=8, timeout=800, heap="8g")
        if not r["ok"]:
            raise Infra("model check of Memory failed:\n" + r["out"][-3000:] + r["err"][-500:])
        h = compile_lib(tools, d, "mem.c", flags=WRAP)
        progs = [program(rng) for _ in range(1500 if q else 20000)]
        jobs = [("palm", p, {"ev": palm_events(e)}, None) for p, e in zip(progs, forked(h, progs, d))]

        # compilers
        ncomp, nsc, nat = (32, 6, 12) if q else (200, 20, 40)
        seeds = [rng.randrange(1 << 30) for _ in range(ncomp)]

        def build(i):
            import random
            g = random.Random(seeds[i])
            c = compiler(tools, os.path.join(d, "c%d" % i), g, nsc)
            return c and (c, attack(c[1], c[2], g, nat))
        built = [x for x in pmap(build, range(ncomp)) if x]
        if len(built) < ncomp // 2:
            raise Infra("only %d compilers could be built" % len(built))
        for (text, binary, scs), res in built:
            for tr, what in res:
                jobs.append(("compiler", (text, binary), tr, what))

        # cocogen
        exe = os.path.join(cell.d, "cocogen")
        shutil.copy(exe0, exe)
        os.chmod(exe, 0o755)
        ns, nf = (10, 110) if q else (80, 500)
        pool = [make(rng) for _ in range(ns * 6)]
        texts = []
        for S, v in zip(pool, judge(pool, d)):
            if len(texts) < ns and (v[0] == "accept" or (len(texts) % 5 == 4 and v[0] == "reject")):
                texts.append(dsl.render(items(S, rng, speller(rng, True, S.get("caps", ())))))
        calm = pmap(lambda i: cocogen_run(cell, exe, "ref%d" % i, texts[i], None, 0, 0), range(len(texts)))
        plan = []
        for i, (tr, (rc, e, n, got)) in enumerate(calm):
            if rc not in (0, 1):
                continue
            for at in rng.sample(range(1, n + 1), min(n, nf)):
                plan.append((i, at, rng.randint(0, 1)))
        if not plan:
            raise Infra("no runs of cocogen: %s" % (calm[:1],))

        def go(x):
            k, (i, at, on) = x
            rc0, _, _, ref = calm[i][1]
            return cocogen_run(cell, exe, "w%d" % k, texts[i], ref, at, on)
        got = pmap(go, list(enumerate(plan)))

        def wrongly(i, g):
            """what is refused undisturbed must not be accepted for want of memory"""
            tr = g[0]
            if calm[i][1][0] == 1 and g[1][0] == 0:
                tr["ev"][-1]["same"] = False
            return tr
        for (i, at, on), g in zip(plan, got):
            jobs.append(("cocogen", texts[i], wrongly(i, g), {"refused": [at, on], "code": g[1][0], "said": g[1][1]}))

        traces = [j[2] for j in jobs]
        acc, st, gen, _ = tlc_judge("MemoryTrace", CFG, traces, d, chunk=max(1, len(traces) // JOBS))
        seen = {}
        for j, (kind, who, tr, what) in enumerate(jobs):
            if j in acc or seen.get(kind, 0) >= 2 or len(ck.viol) >= 4:
                continue
            # once more
            if kind == "palm":
                again = {"ev": palm_events(forked(h, [who], d)[0])}
            elif kind == "compiler":
                sc, p = what["scenario"], tuple(what["refused"])
                base = runs_of(who[1], [sc], [(0, 0)])[0]
                did, c, n, hit, said = runs_of(who[1], [sc], [p])[0]
                again = over(c, hit, said.strip(), did == base[0] if c == 0 else base[0].startswith(did))
            else:
                i = texts.index(who)
                again = wrongly(i, cocogen_run(cell, exe, "again%d" % j, who, calm[i][1][3], *what["refused"]))
            if tlc_judge("MemoryTrace", CFG, [again], d)[0]:
                continue
            seen[kind] = seen.get(kind, 0) + 1
            ck.violation("refused memory: what %s did is no behaviour of Memory: %s %s" %
                         (kind, json.dumps(again["ev"][-3:])[:600], json.dumps(what)[:700]),
                         {"kind": kind, "of": who if kind != "compiler" else who[0], "trace": again, "what": what})
    ends = {}
    for kind, who, tr, what in jobs:
        e = tr["ev"][-1]
        k = "%s/%s%s" % (kind, e.get("how", e.get("code")), "/refused" if any(x["e"] == "refuse" for x in tr["ev"]) else "")
        ends[k] = ends.get(k, 0) + 1
    ck.cov = {"states": r["distinct"] + st, "transitions": r["generated"] + gen, "model_states": r["distinct"],
              "traces_validated_against_impl": len(acc), "compilers_built": len(built), "specifications": len(texts), "ends": ends,
              "samples": [{"kind": jobs[k][0], "last": jobs[k][2]["ev"][-1]} for k in (0, len(progs), len(jobs) - 1)]}
    ck.assumptions = ["TLC, gcc with AddressSanitizer and the linker's --wrap are trusted",
                      "requests made inside the C library (other than regular expressions, streams and directories, which fail as a whole) are not refused"]
    return ck.finish()
