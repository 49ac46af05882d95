"""P17: palm's hash table (spec/HashTable.tla)."""
import os

from core import *
from c_life import explain

CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
SAMEHASH = ["Ab", "BA", "AbAb", "AbBA", "BAAb", "BABA"]   # djb2 collisions


def hexs(s):
    return s.encode("latin1").hex() or "-"


def keypool(rng, kind):
    n = rng.choice([2, 3, 5, 8, 12, 40])
    if kind == "i":
        base = rng.choice([0, 0, -5, 1000, -2147483648, 2147483600])
        step = rng.choice([1, 1, 2, 7, 100])
        return sorted({str(max(-2147483648, min(2147483647, base + step * i))) for i in range(n)})
    if kind == "p":
        step = rng.choice([1, 8, 16, 32, 64, 1024 if n <= 8 else 32])
        return [str(step * i) for i in range(n)] + ["N"]
    pool = list(SAMEHASH) + [""] + [chr(97 + i) for i in range(6)] + ["aa", "aA", "Aa", "a" * 200, "a" * 199 + "b", "\xe9", "\xff\xfe", "x y", "key1", "key2", "KEY1", "Key2"]
    pool += ["".join(rng.choice("abAB\x80") for _ in range(rng.randint(1, 6))) for _ in range(20)]
    return [hexs(k) for k in rng.sample(sorted(set(pool)), min(n, len(set(pool))))]


def klass(kind, k):
    if kind == "c":
        s = bytes.fromhex("" if k == "-" else k)
        return bytes(c + 32 if 65 <= c <= 90 else c for c in s)
    return k


def scenario(rng):
    """one history: lists of commands for harness/htable.c"""
    out = []
    tabs = {}      # id -> [kind, keys believed present, pool]
    its = {}       # id -> table
    nt = ni = 0
    length = rng.choice([8, 20, 40, 80])
    style = rng.choice(["mixed", "mixed", "fill", "churn", "iter"])
    want = rng.choice([1, 1, 2, 3])
    nvals = rng.choice([2, 3, 1000])
    zero = rng.random() < .2

    def val():
        return rng.randint(0 if zero else 1, nvals)
    while len(out) < length:
        if len(tabs) < want and nt < 40:
            kind = rng.choice("ssiipxcb")
            size = rng.choice([1, 2, 3, 7, 32, 100])
            out.append("new %d %s %d" % (nt, kind, size))
            tabs[nt] = [kind, set(), keypool(rng, kind)]
            nt += 1
            continue
        t = rng.choice(sorted(tabs))
        kind, have, pool = tabs[t]
        busy = t in its.values()
        k = rng.choice(pool)
        w = {"mixed": (30, 15, 20), "fill": (60, 10, 5), "churn": (35, 10, 35), "iter": (30, 5, 8)}[style]
        op = rng.choices(["ins", "get", "rem", "cnt", "clr", "del", "cpy", "dcpy", "mapk", "mapdk", "map", "fold", "it"],
                         w + (6, 2, 2, 3, 3, 2, 2, 2, 2, 40 if style == "iter" else 6))[0]
        if its and rng.random() < .55:
            i = rng.choice(sorted(its))
            x = rng.choices(["itn", "its", "itv", "itc"], (60, 20, 12, 3))[0]
            out.append("%s %d%s" % (x, i, " %d" % val() if x == "its" else ""))
            if x == "itc" or (x == "itn" and rng.random() < .02):
                if x != "itc":
                    out.append("itc %d" % i)
                del its[i]
            continue
        if op == "ins":
            if busy and klass(kind, k) not in have:
                continue
            out.append("ins %d %s %d" % (t, k, val()))
            have.add(klass(kind, k))
        elif op == "get":
            out.append("get %d %s" % (t, k))
        elif op == "rem" and not busy:
            out.append("rem %d %s" % (t, k))
            have.discard(klass(kind, k))
        elif op == "clr" and not busy:
            out.append("clr %d" % t)
            have.clear()
        elif op == "del" and not busy:
            out.append("del %d" % t)
            del tabs[t]
        elif op in ("cpy", "dcpy") and nt < 40:
            out.append("%s %d %d" % (op, t, nt))
            tabs[nt] = [kind, set(have), pool]
            nt += 1
        elif op in ("cnt", "mapk", "mapdk", "map", "fold"):
            out.append("%s %d" % (op, t))
        elif op == "it" and ni < 60:
            out.append("it %d %d" % (t, ni))
            its[ni] = t
            ni += 1
    for i in sorted(its):
        out += ["itn %d" % i] * (len(tabs[its[i]][1]) + 1) + ["itc %d" % i]
    for t in sorted(tabs):
        for k in tabs[t][2]:
            out.append("get %d %s" % (t, k))
        out.append("cnt %d" % t)
    for t in sorted(tabs):
        out.append("del %d" % t)
    return out


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    n = 1600 if ck.quick() else 30000
    scs = [scenario(ck.rng) for _ in range(n)]
    with Scratch() as d:
        r = tlc("HashTableMC", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d\nCONSTRAINT Bound\nINVARIANTS Refines NoStuck\n"
                "CHECK_DEADLOCK FALSE\n" % (7 if ck.quick() else 9), d, workers=8, timeout=700, heap="8g")
        if not r["ok"]:
            raise Infra("model check of HashTable failed:\n" + r["out"][-3000:] + r["err"][-500:])
        if os.environ.get("VERBOSE"):
            log("mc", r["distinct"], r["generated"], time.time() - ck.t0)
        h = compile_lib(tools, d, "htable.c")
        evs = forked(h, scs, d)
        traces = [{"ev": e} for e in evs]
        acc, st, gen, info = tlc_judge("HashTableTrace", CFG, traces, d)
        for j in range(n):
            if j not in acc:
                e2 = forked(h, [scs[j]], d)[0]
                if tlc_judge("HashTableTrace", CFG, [{"ev": e2}], d)[0]:
                    continue
                ck.violation("history is no behaviour of HashTable: " + explain(d, traces[j], "HashTableTrace"),
                             {"scenario": scs[j], "events": evs[j]})
                if len(ck.viol) >= 3:
                    break
    cnt = {}
    for e in evs:
        for x in e:
            cnt[x["e"]] = cnt.get(x["e"], 0) + 1
    ck.cov = {"states": r["distinct"] + st, "transitions": r["generated"] + gen, "model_states": r["distinct"],
              "traces_validated_against_impl": len(acc), "events": cnt,
              "samples": [{"scenario": scs[0][:12], "events": evs[0][:12]}]}
    ck.assumptions = ["TLC, gcc with AddressSanitizer and the harness under /verif/harness are trusted",
                      "while an iteration is under way keys are neither added nor removed"]
    return ck.finish()
