"""Rendering of abstract specifications (plain dicts) to the coconut DSL."""


def q(s):
    return '"%s"' % s


def setexpr(e):
    """e: ["lit", [names]] | ["ref", name] | [op, l, r] | ["par", e]  (op in | & -)"""
    if e[0] == "lit":
        return "{" + ", ".join(e[1]) + "}"
    if e[0] == "ref":
        return e[1]
    if e[0] == "par":
        return "(" + setexpr(e[1]) + ")"
    return setexpr(e[1]) + " " + e[0] + " " + setexpr(e[2])


def lifetime(l):
    """l: {"kind": allowed|disallowed|mandatory|optional, "lo": [incl, name]|None,
           "hi": [incl, name]|None, "range": bool}"""
    s = l["kind"]
    if not l.get("range", True):
        return s
    lo, hi = l.get("lo"), l.get("hi")
    s += " " + (("[" if lo[0] else "(") + lo[1] if lo else l.get("lo_open", "")) + " -> "
    s += hi[1] + ("]" if hi[0] else ")") if hi else l.get("hi_open", "")
    return s


def opts(o):
    return " { %s }" % ", ".join(o) if o else ""


def child(c):
    o = []
    if c.get("constructor"):
        o.append("constructor")
    o += [lifetime(l) for l in c.get("lifetimes", [])]
    return "%s %s%s" % (c["type"], c["name"], opts(o))


def attr(a):
    o = []
    for k in ("constructor", "inherited", "synthesized"):
        if a.get(k):
            o.append(k)
    o += [lifetime(l) for l in a.get("lifetimes", [])]
    return "%s %s%s" % (a["type"], a["name"], opts(o))


def equation(e):
    """e: {"node": "this"|child, "attr": name, "args": [[where, attr], ...]}"""
    if not e["args"] and e.get("short"):
        return "%s.%s = {}" % (e["node"], e["attr"])
    return "%s.%s = {args = {%s}}" % (e["node"], e["attr"], ", ".join("%s.%s" % (a[0], a[1]) for a in e["args"]))


def node(n):
    body = []
    if n.get("children"):
        body.append("children {\n        %s\n    }" % ",\n        ".join(child(c) for c in n["children"]))
    if n.get("attrs"):
        body.append("attributes {\n        %s\n    }" % ",\n        ".join(attr(a) for a in n["attrs"]))
    if n.get("equations"):
        body.append("equations {\n        %s\n    }" % ",\n        ".join(equation(e) for e in n["equations"]))
    if n.get("lifetimes"):
        body.append("lifetime {\n        %s\n    }" % ",\n        ".join(lifetime(l) for l in n["lifetimes"]))
    return "%snode %s {\n    %s\n}" % ("root " if n.get("root") else "", n["name"], ",\n    ".join(body))


def nodeset(s):
    if s.get("attrs"):
        return "nodeset %s {\n    nodes = %s,\n    attributes {\n        %s\n    }\n}" % (
            s["name"], setexpr(s["expr"]), ",\n        ".join(attr(a) for a in s["attrs"]))
    if s.get("long"):
        return "nodeset %s { nodes = %s }" % (s["name"], setexpr(s["expr"]))
    return "nodeset %s = %s" % (s["name"], setexpr(s["expr"]))


def enum(e):
    b = []
    if e.get("info"):
        b.append("info = " + q(e["info"]))
    b += ["prefix = " + e["prefix"], "values { %s }" % ", ".join(e["values"])]
    return "enum %s { %s }" % (e["name"], ", ".join(b))


def pas(p):
    b = []
    if p.get("info"):
        b.append("info = " + q(p["info"]))
    if p.get("uid"):
        b.append("uid = " + p["uid"])
    if p.get("func"):
        b.append("func = " + p["func"])
    if not b:
        return "pass " + p["name"]
    return "pass %s { %s }" % (p["name"], ", ".join(b))


def trav(t):
    b = []
    if t.get("info"):
        b.append("info = " + q(t["info"]))
    b.append("uid = " + t["uid"])
    if t.get("nodes"):
        b.append("nodes = " + setexpr(t["nodes"]))
    if t.get("data"):
        b.append("travdata { %s }" % ", ".join(
            "%s %s" % (d["type"], d["name"]) for d in t["data"]))
    return "traversal %s { %s }" % (t["name"], ", ".join(b))


def phase(p):
    b = []
    if p.get("info"):
        b.append("info = " + q(p["info"]))
    if p.get("uid"):
        b.append("uid = " + p["uid"])
    if p.get("gate"):
        b.append("gate = " + p["gate"] if isinstance(p["gate"], str) else "gate")
    acts = []
    for a in p["actions"]:
        acts.append("        %s;" % (a if isinstance(a, str) else render_inline(a)))
    b.append("actions {\n%s\n    }" % "\n".join(acts))
    return "%s%s %s {\n    %s\n}" % ("start " if p.get("start") else "", p["kind"], p["name"], ",\n    ".join(b))


def render_inline(a):
    return {"pass": pas, "trav": trav, "phase": phase}[a["inline"]](a)


_K = {"phase": phase, "pass": pas, "trav": trav, "node": node, "nodeset": nodeset, "enum": enum}


def render(spec):
    """spec: list of [kind, dict]"""
    return "".join(_K[k](d) + ";\n\n" for k, d in spec)
