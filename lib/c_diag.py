"""P19: messages, counters and exit status (spec/Diagnostics.tla)."""
import os
import re

from core import *
from c_life import explain

CFG = "INIT TInit\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"


def text(rng):
    k = rng.random()
    if k < .1:
        return rng.choice(["x", "@", "a@b", "@@ @", "%d %s", "error:", "100%", "~^ |>", "\x80\xff\xc3"])
    if k < .15:
        return "".join(rng.choice("abc@.:%") for _ in range(rng.choice([105, 109, 110, 115, 116, 117, 130, 400])))
    ws = []
    for _ in range(rng.choice([1, 3, 8, 30, 120, 600 if rng.random() < .2 else 20])):
        ws.append("".join(rng.choice("abcdefghijklmnopqrstuvwxyz'@()%-_,.:;\"\\/") for _ in range(rng.choice([1, 2, 3, 5, 7, 9, 13, 60 if rng.random() < .1 else 4]))))
    s = ""
    for w in ws:
        s += w + rng.choice([" "] * 12 + ["  ", "\t", "\n" if rng.random() < .5 else " ", "\n\n" if rng.random() < .2 else " "])
    return s if rng.random() < .3 else s.strip()


def hx(s):
    return s.encode("latin1").hex() or "-"


def message(rng):
    ty = rng.choice([0, 1, 2, 2, 3, 3])
    head = "%d %d %d %s" % (ty, rng.random() < .7, rng.choice([0, 0, 1, 2]), hx(text(rng)))
    if rng.random() < .5:
        return "msg " + head
    big = rng.random() < .1
    fl = rng.choice([0, 1, 2, 17, 99999, 2147483647 if big else 5])
    fc = rng.choice([0, 1, 2, 3, 10, 77])
    ll = rng.choice([0, fl, fl, fl + 1 if fl < 2147483647 else fl])
    lc = rng.choice([0, fc, fc + 1, fc + 5, 1, 3])
    file = rng.choice(["N", hx("main.c"), hx("dir/a b.c"), hx("x@y")])
    line = "N" if fc == 0 or rng.random() < .4 else hx(rng.choice(["int main(void) {", "x", "    return a@b;", "a  b   c"]))
    return "obj %s %d %d %d %d %s %s" % (head, fl, fc, ll, lc, file, line)


def scenario(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 15])):
        out.append(message(rng) if rng.random() < .75 else "cnt")
        if rng.random() < .12:
            out.append("aoe")
    out.append("cnt")
    k = rng.random()
    if k < .3:
        out.append("aoe")
    elif k < .5:
        out.append("abort")
    elif k < .6:
        out.append("oom %d" % rng.choice([0, 1, 4096, 4294967295]))
    elif k < .67:
        out.append("oom")
    elif k < .74:
        out.append("segv")
    out += ["cnt", "msg 3 1 0 " + hx("late"), "cnt"] if rng.random() < .7 else []
    return out


def raw(h):
    return "" if h == "-" else bytes.fromhex(h).decode("latin1")


def words(s):
    return [w for w in re.split("[ \t\n]+", s) if w]


def convert(evs):
    """printed text -> words; position of the marker under the source line"""
    out, used = [], 0
    for e in evs:
        e = dict(e)
        if e["e"] == "msg":
            o = dict(e["o"])
            src = raw(o["line"])
            o["file"] = raw(o["file"])
            o["line"] = words(src)
            o["fileparts"] = 0
            got = raw(e["out"])
            used += len(got)
            msg = raw(e["text"])
            msg = {0: msg, 1: msg + " -17", 2: "a%" + msg + " z"}[e["how"]]
            under, width = -1, 0
            lines = got.split("\n")
            if src and (" |> " + src) in lines:
                i = len(lines) - 1 - lines[::-1].index(" |> " + src)
                m = re.fullmatch(r"( *)(\^)(~*) *", lines[i + 1]) if i + 1 < len(lines) else None
                if m:
                    under, width = len(m.group(1)) - 4, len(m.group(3))
                    del lines[i + 1]
            outw = words("\n".join(lines))
            if " " in o["file"]:    # one word in the specification
                for k in range(len(outw)):
                    if outw[k] == "-->" and k + 2 < len(outw):
                        outw[k + 1:k + 3] = [outw[k + 1] + " " + outw[k + 2]]
                        break
            out.append({"e": "msg", "type": e["type"], "words": words(msg), "o": o, "out": outw, "under": under, "width": width})
        elif e["e"] == "end":
            out.append({"e": "end", "code": e["code"], "out": words(raw(e["out"])[used:])})
        else:
            out.append(e)
    return out


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    scs = [scenario(ck.rng) for _ in range(3000 if ck.quick() else 40000)]
    with Scratch() as d:
        ms = mg = 0
        for w in (2, 3) if ck.quick() else (1, 2, 3, 4):
            r = tlc("DiagnosticsMC", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d\n MaxChars = %d\n Width = %d\n"
                    "INVARIANTS Counted Exit WordsKept\nCHECK_DEADLOCK FALSE\n" %
                    ((6, 6, w) if ck.quick() else (8, 8, w)), d, workers=8, timeout=700, heap="8g")
            if not r["ok"]:
                raise Infra("model check of Diagnostics failed:\n" + r["out"][-3000:] + r["err"][-500:])
            ms, mg = ms + r["distinct"], mg + r["generated"]
        if os.environ.get("VERBOSE"):
            log("mc", ms, mg, time.time() - ck.t0)
        h = compile_lib(tools, d, "diag.c")
        evs = forked(h, scs, d)
        traces = [{"ev": convert(e)} for e in evs]
        acc, st, gen, info = tlc_judge("DiagnosticsTrace", CFG, traces, d)
        for j in range(len(scs)):
            if j not in acc:
                e2 = forked(h, [scs[j]], d)[0]
                if tlc_judge("DiagnosticsTrace", CFG, [{"ev": convert(e2)}], d)[0]:
                    continue
                ck.violation("messages are no behaviour of Diagnostics: " +
                             explain(d, traces[j], "DiagnosticsTrace", "TInit"),
                             {"scenario": scs[j], "events": evs[j]})
                if len(ck.viol) >= 3:
                    break
    cnt = {}
    for e in evs:
        for x in e:
            cnt[x["e"]] = cnt.get(x["e"], 0) + 1
    ck.cov = {"states": ms + st, "transitions": mg + gen, "model_states": ms,
              "traces_validated_against_impl": len(acc), "events": cnt,
              "samples": [{"scenario": scs[0][:6], "events": traces[0]["ev"][:6]}]}
    ck.assumptions = ["TLC, gcc with AddressSanitizer and the harness under /verif/harness are trusted",
                      "messages contain at least one character that is no line break"]
    return ck.finish()
