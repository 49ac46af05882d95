"""P18: palm's string helpers (spec/Strings.tla)."""
import itertools
import os

from core import *
from c_life import explain

CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def hx(s):
    return "N" if s is None else (s.hex() or "-")


def line(f, strs, *nums):
    return " ".join([f, str(len(strs))] + [hx(s) for s in strs] + [str(n) for n in nums])


def exhaustive(quick):
    """all strings over a three letter alphabet up to a length"""
    al = [b"a", b"A", b","]
    def strs(n):
        return [b"".join(x) for k in range(n + 1) for x in itertools.product(al, repeat=k)]
    S3, S2, S1 = strs(3), strs(2), strs(1)
    N3, N2 = S3 + [None], S2 + [None]
    out = []
    for s in N3:
        for f in ("cpy", "len", "lower", "upper", "tolower", "toupper"):
            out.append(line(f, [s]))
        for n in range(6):
            out.append(line("ncpy", [s], n))
        for st in range(5):
            for ln in (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 2147483647, -2147483648):
                out.append(line("substr", [s], st, ln))
    big = N3
    for a in big:
        for b in big:
            for f in ("eq", "eqci", "cat", "prefix", "suffix", "sub", "onnull"):
                out.append(line(f, [a, b]))
    for a in N2:
        for b in N2:
            for n in range(4):
                out.append(line("eqn", [a, b], n))
    for a in (strs(4) if not quick else S3) + [None]:
        for b in N2:
            for c in N2 if not quick else S1 + [None, b"aa"]:
                out.append(line("subst", [a, b, c]))
    for a in S1 + [None]:
        for b in S1 + [None]:
            for c in S1 + [None]:
                out.append(line("catn", [a, b, c]))
    out.append("null 0")
    # every string tokenised to the end, and two calls beyond
    for s in strs(4 if quick else 5):
        for sep in (b",", b"A,", b"", None):
            out.append(line("tok", [s, sep]))
            out += [line("tok", [None, sep])] * (len(s) + 2)
    return out


def rstr(rng, long=False):
    k = rng.random()
    if k < .08:
        return None
    if k < .16:
        return b""
    if long and k < .25:
        return bytes(rng.choice(b"ab,. \x7f") for _ in range(rng.choice([100, 255, 256, 1023, 1500])))
    al = rng.choice([b"ab", b"aAbB", b"aAzZ@[`{", b", ;\n\tx", bytes(range(1, 256))])
    return bytes(rng.choice(al) for _ in range(rng.choice([1, 2, 3, 5, 9, 17, 40])))


def random_calls(rng):
    out = []
    for _ in range(rng.randint(10, 40)):
        a, b, c = rstr(rng, True), rstr(rng), rstr(rng)
        A = a or b""
        # related arguments
        if rng.random() < .5 and a:
            i = rng.randint(0, len(a))
            j = rng.randint(i, len(a))
            b = rng.choice([a[i:j], a[:i], a[i:], a.swapcase(), a[:i] + b"x", a + b"x"])
        f = rng.choice(["cpy", "ncpy", "eq", "eqci", "eqn", "len", "cat", "catn", "fmt", "onnull", "itoa", "lower", "upper",
                        "tolower", "toupper", "prefix", "suffix", "sub", "substr", "subst", "tok", "tok", "tok", "tok", "tok"])
        if f in ("cpy", "len", "lower", "upper", "tolower", "toupper"):
            out.append(line(f, [a]))
        elif f == "ncpy":
            out.append(line(f, [a], rng.choice([0, 1, len(A), len(A) + 1, 2147483647, rng.randint(0, 50)])))
        elif f in ("eq", "eqci", "cat", "onnull"):
            out.append(line(f, [a, b]))
        elif f in ("prefix", "suffix", "sub"):
            out.append(line(f, [b, a]))
        elif f == "eqn":
            out.append(line(f, [a, b], rng.choice([0, 1, len(A), len(b or b""), rng.randint(0, 50), 2147483647])))
        elif f == "catn":
            out.append(line(f, [rstr(rng) for _ in range(rng.choice([3, 4, 5, 8]))]))
        elif f == "itoa":
            out.append(line(f, [], rng.choice([0, 1, -1, 9, 10, -10, 2147483647, -2147483648, rng.randint(-10**9, 10**9), rng.randint(-99, 99)])))
        elif f == "fmt":
            kinds = rng.choice(["", "s", "d", "c", "ss", "sd", "ds", "dc", "dd", "sss", "sds", "dsd"])
            fmt, args = b"", []
            lit = lambda: rng.choice([b"", b"", b"x", b"%%", b" = ", b"abc\n", b"." * 130])
            for k in kinds:
                fmt += lit() + b"%" + k.encode()
                args.append(str(rng.choice([0, -1, 42, 2147483647, -2147483648])).encode() if k == "d" else
                            (bytes([rng.randint(1, 255)]) if k == "c" else (rstr(rng, True) or b"")))
            out.append(line(f, [fmt + lit()] + args, *([kinds] if kinds else [])))
        elif f == "substr":
            out.append(line(f, [a], rng.choice([0, 1, len(A), len(A) + 1, rng.randint(0, 30)]),
                            rng.choice([0, 1, -1, len(A), -len(A), -len(A) - 1, rng.randint(-30, 30), 2147483647, -2147483648])))
        elif f == "subst":
            out.append(line(f, [a, b if rng.random() < .9 else b"", c]))
        else:
            out.append(line("tok", [a if rng.random() < .25 else None, rng.choice([b",", b", ;", b"", None, b"a", b"\xff\x80"])]))
    return out


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    ex = exhaustive(ck.quick())
    scs = []
    i = 0
    while i < len(ex):
        j = min(len(ex), i + 120)
        while j < len(ex) and ex[j].startswith("tok 2 N"):
            j += 1
        scs.append(ex[i:j])
        i = j
    scs += [random_calls(ck.rng) for _ in range(600 if ck.quick() else 20000)]
    with Scratch() as d:
        r = tlc("StringsMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nINVARIANTS Right Laws\nCHECK_DEADLOCK FALSE\n"
                % (3 if ck.quick() else 4), d, workers=8, timeout=700, heap="8g")
        if not r["ok"]:
            raise Infra("model check of Strings failed:\n" + r["out"][-3000:] + r["err"][-500:])
        if os.environ.get("VERBOSE"):
            log("mc", r["distinct"], r["generated"], time.time() - ck.t0)
        h = compile_lib(tools, d, "strings.c")
        evs = forked(h, scs, d)
        if os.environ.get("VERBOSE"):
            log("ran", len(scs), sum(map(len, evs)), time.time() - ck.t0)
        traces = [{"ev": e} for e in evs]
        acc, st, gen, info = tlc_judge("StringsTrace", CFG, traces, d)
        for j in range(len(scs)):
            if j not in acc:
                e2 = forked(h, [scs[j]], d)[0]
                if tlc_judge("StringsTrace", CFG, [{"ev": e2}], d)[0]:
                    continue
                ck.violation("calls are no behaviour of Strings: " + explain(d, traces[j], "StringsTrace"),
                             {"scenario": scs[j], "events": evs[j]})
                if len(ck.viol) >= 3:
                    break
    cnt = {}
    for e in evs:
        for x in e:
            cnt[x.get("f", x["e"])] = cnt.get(x.get("f", x["e"]), 0) + 1
    ck.cov = {"states": r["distinct"] + st, "transitions": r["generated"] + gen, "model_states": r["distinct"],
              "traces_validated_against_impl": len(acc), "events": cnt, "exhaustive_calls": len(ex),
              "samples": [{"calls": scs[-1][:6], "events": evs[-1][:6]}]}
    ck.assumptions = ["TLC, gcc with AddressSanitizer and the harness under /verif/harness are trusted",
                      "character codes as in the C locale; lengths and positions are not negative where no meaning is documented"]
    return ck.finish()
