"""P24: which texts are read as a specification (spec/Syntax.tla)."""
import dsl
from c_dsl import items, judge, speller
from c_gen import make
from core import *

CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
KEYS = ("args attributes children constructor cycle enum equations inherited mandatory node nodeset nodes pass passes phase phases actions "
        "prefix subphases synthesized this to traversal travdata values info func root start double float int uint int8 int16 int32 int64 "
        "uint8 uint16 uint32 uint64 string bool lifetime disallowed optional allowed false true gate user uid NULL").split()
CWORDS = ("auto break case char const continue default do else extern for goto if inline long register restrict return short signed sizeof "
          "static struct switch typedef union unsigned void volatile while").split()
PUNCT = ["(", ")", "[", "]", "{", "}", ",", "=", ";", "!", "|", "&", "-", ".", "->"]
SPLIT = re.compile(r'"(?:\\.|[^"\\])*"|[A-Za-z]\w*|->|[^\s]')
FREE = set("(){}[],;=|&!")


def tokens(text):
    return SPLIT.findall(text)


def gap(rng, must, wild):
    """what lies between two tokens"""
    some = [" ", " ", "\n", "\t", "  ", "\r\n", "\n\n", "\n    "]
    if wild:
        some += ["/* c */", "/**/", "/***/", "// to the end\n", "//\n", "/* node x {\n * } // */", "/* \"no string */", "// /* no comment\n", "//*\n",
                 "/*/ still */", "\n/* a */ /* b */\n", "/* %s */" % " ".join(["long"] * rng.randint(1, 40)), "/* \u00e9\u00ff */"]
    if not must and rng.random() < .45:
        return ""
    return "".join(rng.choice(some) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def lay(toks, rng, wild=True):
    out, prev = gap(rng, False, wild), None
    for t in toks:
        if prev is not None:
            dot = "." in (prev, t) and not (prev[-1] + t[0]).strip(".-").isdigit()
            out += gap(rng, not (dot or prev[-1] in FREE or t[0] in FREE), wild)
        out += t
        prev = t
    return out + (gap(rng, False, wild) if rng.random() < .8 else "// the end" if wild else "")


def plain(toks):
    return "".join(t + ("\n" if t in ("{", ";") else " ") for t in toks) + "\n"


def enumerators(toks, rng):
    """names of enum values that are words of the language or of C"""
    toks = list(toks)
    i = 0
    while i < len(toks):
        if toks[i] == "values" and i + 1 < len(toks) and toks[i + 1] == "{":
            j = toks.index("}", i)
            if rng.random() < .6:
                words = rng.sample([w for w in KEYS + CWORDS if w != "NULL"], (j - i - 1) // 2)
                if len(words) >= 2 and rng.random() < .5:
                    words[:2] = ["enum", "values"]
                    if len({w.lower() for w in words}) < len(words):
                        words = None
                for k, n in enumerate(range(i + 2, j, 2)):
                    if words and rng.random() < .7 or words and words[0] == "enum" and k < 2:
                        if words[k] not in toks[i + 2:j]:
                            toks[n] = words[k]
            i = j
        i += 1
    return toks


def quote(rng):
    """a string with contents of all kinds"""
    w = ["a", " ", "text", "/*", "*/", "//", "\\\"", "\\\\", "\\n", "{", "};", "root node", "'", "%s", "%d%n", "\t", ",", "#", "\u00e9", "NULL"]
    if rng.random() < .15:
        w.append("\n")
    return '"' + "".join(rng.choice(w) for _ in range(rng.randint(0, 6))) + '"'


def strings(toks, rng):
    return [quote(rng) if t[0] == '"' else t for t in toks]


def mutate(toks, rng):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(toks))
        k = rng.random()
        other = rng.choice([rng.choice(KEYS), rng.choice(PUNCT), rng.choice(CWORDS), rng.choice(PUNCT + [",", ";", "}"]), rng.choice(toks),
                            rng.choice(["abc", "12", "-7", "3.5", "\"text\"", "NULL", "nul", "Node", "i32"])])
        if k < .3:
            del toks[i]
        elif k < .5:
            toks.insert(i, other)
        elif k < .75:
            toks[i] = other
        elif k < .85:
            toks.insert(i, toks[i])
        elif k < .95 and i + 1 < len(toks):
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        else:
            del toks[i + 1:]
        toks = toks or ["{"]
    return toks


def places(toks):
    """of every token: what it stands in, what it follows, what it is and what comes after it, names without their spelling"""
    cls = [t if not t[0].isalnum() and t[0] != '"' or t in KEYS else '"' if t[0] == '"' else "0" if t[0].isdigit() else "x" for t in toks]
    stack, last, out = [], "", []
    for i, t in enumerate(cls):
        if t in ("}", ")") and stack:
            stack.pop()
        out.append(("/".join(stack[-2:]), cls[i - 1] if i else "", t, cls[i + 1] if i + 1 < len(cls) else ""))
        if t in ("{", "("):
            stack.append(last)
        elif t in KEYS:
            last = t
    return out


def edits(all_toks, rng):
    """one edit of every kind at every kind of place"""
    best = {}
    for toks in all_toks:
        for i, (w, a, t, b) in enumerate(places(toks)):
            for k in ((",", w, a, t), (";", w, a, t), ("del", w, a, t, b), ("dup", w, t)):
                best.setdefault(k, []).append((toks, i)) if len(best.get(k, ())) < 3 else None
    out = []
    for k, at in best.items():
        toks, i = min(rng.sample(at, min(2, len(at))), key=lambda x: len(x[0]))
        mid = {"del": [], "dup": [toks[i], toks[i]]}.get(k[0], [k[0], toks[i]])
        out.append(toks[:i] + mid + toks[i + 1:])
    rng.shuffle(out)
    return out


def scar(text, rng):
    """a change of characters"""
    i = rng.randrange(len(text) + 1)
    k = rng.random()
    if k < .2:
        return text[:i]
    if k < .35:
        return text + rng.choice(["/*", "/* no end", "/* * /", "/", "\"", "// end", ";", "x", "/*\n\n*", "\n\n}", "/*/"])
    c = rng.choice(["_", "#", "@", "\"", "'", "/", "\\", "*", "/*", "*/", "//", "?", "%", "$", ":", "<", ">", "+", "\u00e9", "~", "^", "`", "0", "_x", "a",
                    "\n", " ", "-", ".", "\x01", "\x7f"])
    return text[:i] + c + text[i + (rng.random() < .3):]


def options(toks, rng):
    """what makes no difference"""
    toks = list(toks)
    if rng.random() < .3 and toks and toks[-1] == ";":
        toks.pop()
    return toks


def attempt(tools, d, text):
    """-> (end of it, the code)"""
    os.makedirs(d)
    f = os.path.join(d, "s.ccn")
    with open(f, "wb") as h:
        h.write(text.encode("latin1"))
    rc, o, e = cocogen(tools, f, os.path.join(d, "g"))
    code = {}
    if rc == 0:
        for r, _, fs in os.walk(os.path.join(d, "g")):
            for x in fs:
                if x[-2:] in (".c", ".h"):
                    code[os.path.relpath(os.path.join(r, x), d)] = open(os.path.join(r, x), "rb").read()
    shutil.rmtree(d, ignore_errors=True)
    bad = rc == "timeout" or rc < 0 or rc >= 99 or "Sanitizer" in e or "runtime error:" in e
    m = re.search(r"^ --> [^\n]*?:(\d+)(?:[:.](\d+)(?:-\d+)?)?\n(?: \|> ([^\n]*)\n)?", e, re.M)
    return {"e": "abnormal" if bad else "done" if rc == 0 else "failed", "row": int(m.group(1)) if m else 0, "col": int(m.group(2) or 0) if m else 0,
            "syn": "syntax error" in e or "Unexpected token" in e or "Found C-keyword" in e,
            "line": list(m.group(3)) if m and m.group(3) and m.group(3).isascii() and m.group(3).isprintable() else []}, code, e


def run_one(tools, d, job):
    text, toks, valid = job
    end, code, said = attempt(tools, d, text)
    end["same"] = True
    if toks is not None:
        other, code2, _ = attempt(tools, d + "p", plain(toks))
        end["same"] = other["e"] == end["e"] and code == code2
    return {"text": list(text), "valid": valid, "end": end}, said


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    rng = ck.rng
    with Scratch() as d:
        r = tlc("SyntaxMC", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Viable Once Small\nPROPERTY Ends\n" %
                (9 if ck.quick() else 13), d, workers=4, timeout=800, heap="8g")
        if not r["ok"]:
            raise Infra("model check of Syntax failed:\n" + r["out"][-3000:] + r["err"][-500:])
        ns, nv, nt, nc = (30, 3, 16, 7) if ck.quick() else (300, 5, 30, 12)
        pool = [make(rng) for _ in range(ns * 5)]
        jobs, used, whole = [], 0, []
        for S, v in zip(pool, judge(pool, d)):
            if v[0] != "accept" or used == ns:
                continue
            text = dsl.render(items(S, rng, speller(rng, True, S.get("caps", ()))))
            if len(text) > 2600:
                continue
            used += 1
            toks = strings(tokens(text), rng)
            whole.append(toks)
            for _ in range(nv):
                t = options(enumerators(toks, rng), rng)
                jobs.append((lay(t, rng), t, True))
            for _ in range(nt):
                t = mutate(toks if rng.random() < .6 else enumerators(toks, rng), rng)
                jobs.append((lay(t, rng, rng.random() < .4) if rng.random() < .7 else plain(t), t, False))
            for _ in range(nc):
                jobs.append((scar(lay(toks, rng), rng), None, False))
        kinds = edits(whole, rng)
        for t in kinds:
            jobs.append((plain(t), None, False))
        # small ones
        for t in ("", ";", "\n", "/* */", "//", "/*", "start", "node", "{", "\"a", "\"a\\\n\"", "a", "_", "1", "-", "->", "NULL", "while", "phase p {};", "/", "/**", "*/"):
            jobs.append((t, None, False))
        res = pmap(lambda i: run_one(tools, os.path.join(d, "t%d" % i), jobs[i]), range(len(jobs)))
        traces = [x[0] for x in res]
        acc, st, gen, _ = tlc_judge("SyntaxTrace", CFG, traces, d, chunk=max(1, len(traces) // JOBS))
        for j, job in enumerate(jobs):
            if j in acc or len(ck.viol) >= 4:
                continue
            again = run_one(tools, os.path.join(d, "again%d" % j), job)
            _, _, _, _ = rr = tlc_judge("SyntaxTrace", CFG, [again[0]], d)
            if rr[0]:
                continue
            w = tlc("SyntaxTrace", CFG.replace("Accepted", "Where"), d, workers=1, env={"TRACES": write(d, [again[0]])})
            m = re.search(r'<<"AT", (.*?)>>', w["out"])
            ck.violation("a text is not read as Syntax says (%s, valid=%s): %s; %s" %
                         (m.group(1) if m else "?", job[2], {k: v for k, v in again[0]["end"].items() if k != "line"}, again[1][:200].replace("\n", "|")),
                         {"ccn": job[0], "end": again[0]["end"], "spec": m.group(1) if m else None})
    tally = {}
    for x in traces:
        k = ("valid/" if x["valid"] else "") + x["end"]["e"] + ("/syntax" if x["end"]["syn"] else "")
        tally[k] = tally.get(k, 0) + 1
    ck.cov = {"states": r["distinct"] + st, "transitions": r["generated"] + gen, "model_states": r["distinct"],
              "traces_validated_against_impl": len(acc), "texts": len(traces), "specifications": used, "kinds_of_edit": len(kinds), "ends": tally,
              "samples": [{"text": jobs[k][0][:600], "end": {a: b for a, b in traces[k]["end"].items() if a != "line"}} for k in range(0, min(len(jobs), 40), 11)]}
    ck.assumptions = ["TLC is trusted", "no bytes of value zero; columns are counted in bytes",
                      "whether commas after the last part of a node, an empty gate, and ends of lifetimes turned around are sentences is not judged"]
    return ck.finish()


def write(d, traces):
    p = os.path.join(d, "where.json")
    json.dump(traces, open(p, "w"))
    return p
