"""P22: generating code when operations on files fail (spec/Output.tla).
System calls of cocogen fail one by one (strace), or the directory holds
something in the way; cocogen runs as an unprivileged user in a directory of
its own."""
import dsl
from c_cli import Cell, code, snapshot
from c_dsl import items, judge, speller
from c_gen import make
from core import *

CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
CALLS = "mkdir,mkdirat,open,openat,creat,read,write,pwrite64,writev,close,rename,renameat,renameat2,unlink,unlinkat,rmdir,fsync,fdatasync," \
        "ftruncate,link,linkat,symlink,symlinkat"
ERRORS = {"mkdir": ["ENOSPC", "EACCES", "EROFS", "EDQUOT"], "open": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EINTR"],
          "read": ["EIO", "EISDIR"], "write": ["ENOSPC", "EIO", "EDQUOT", "EINTR"], "close": ["EIO", "ENOSPC", "EDQUOT"],
          "rename": ["ENOSPC", "EACCES", "EXDEV"], "remove": ["EACCES", "EBUSY"], "sync": ["EIO", "ENOSPC"], "truncate": ["EIO"]}
KIND = {"mkdirat": "mkdir", "openat": "open", "creat": "open", "pwrite64": "write", "writev": "write", "renameat": "rename",
        "renameat2": "rename", "unlink": "remove", "unlinkat": "remove", "rmdir": "remove", "fsync": "sync", "fdatasync": "sync",
        "ftruncate": "truncate"}
LINE = re.compile(r"^(?:\d+ +)?(\w+)\((.*)\)\s+= (-?\d+|\?)(.*)$")


def parse(text, w):
    """-> [{call, nth (of that call), kind, p (below w, or None), ...}] in order"""
    out, count, opened = [], {}, {}
    for ln in text.split("\n"):
        m = LINE.match(ln)
        if not m:
            continue
        call, args, ret, tail = m.groups()
        count[call] = count.get(call, 0) + 1
        kind = KIND.get(call, call)
        paths = []
        # -y gives descriptors with their files: 3</a/b>, results too
        for f in re.findall(r"<(/[^>]*)>", args):
            paths.append(f)
        names = [os.path.join(w, f) for f in re.findall(r'"([^"]*)"', args)] if kind in ("mkdir", "open", "rename", "remove", "link", "linkat", "symlink") else []
        if kind in ("mkdir", "open", "rename", "remove") and names:
            # relative names are relative to the cell (AT_FDCWD)
            paths = names
        # a descriptor stands for the name it was opened by (which may be a link)
        m = re.match(r"(\d+)<", args)
        if m and kind not in ("mkdir", "open", "rename", "remove") and int(m.group(1)) in opened:
            paths = [opened[int(m.group(1))]]
        rel = [os.path.relpath(os.path.normpath(p), w) for p in paths if os.path.normpath(p).startswith(w + "/")]
        ret = -1 if ret == "?" else int(ret)
        if kind == "open" and ret >= 0 and names:
            opened[ret] = names[0]
        if kind == "close" and m:
            opened.pop(int(m.group(1)), None)
        e = {"call": call, "nth": count[call], "kind": kind, "p": rel[0] if rel else None, "q": rel[1] if len(rel) > 1 else "",
             "ret": ret, "err": tail.split()[0] if ret < 0 and tail.split() else "",
             "write": kind == "open" and ("O_WRONLY" in args or "O_RDWR" in args or call == "creat"), "cut": "O_TRUNC" in args or call == "creat"}
        out.append(e)
    return out


def events(calls):
    """what Output is told: operations on files of the directory, and reading the specification"""
    ev, hurt = [], False
    for e in calls:
        if e["p"] is None:
            continue
        k, ok = e["kind"], e["ret"] >= 0
        if not ok and (k == "mkdir" and e["err"] == "EEXIST"):
            ok = True
        x = {"k": k, "ok": ok, "p": e["p"], "q": e["q"], "n": max(0, e["ret"]), "cut": e["cut"]}
        if ok and k == "open" and not e["write"]:
            x["k"] = "look"
        if ok and x["k"] in ("close", "read", "look", "mkdir", "sync"):
            continue            # nothing changes
        if ok and k == "write" and ev and ev[-1]["ok"] and ev[-1]["k"] == "write" and ev[-1]["p"] == e["p"]:
            ev[-1]["n"] += e["ret"]
            continue
        if not ok and hurt:
            continue            # Fail again changes nothing
        hurt = hurt or not ok
        ev.append(x)
    return ev


def stage(cell, name, text, prepare):
    w = os.path.join(cell.d, name)
    os.mkdir(w)
    open(os.path.join(w, "s.ccn"), "w").write(text)
    os.mkdir(os.path.join(w, "g"))
    cell.own(w)
    if prepare:
        prepare(w)
    return w


def invoke(cell, exe, w, inject=None):
    log_ = os.path.join(w, "trace")
    cmd = ["strace", "-f", "-y", "-s", "4096", "-e", "trace=" + CALLS, "-o", log_, "-e", "signal=none"]
    for i in inject or []:
        cmd += ["-e", "inject=" + i]
    rc, o, e = cell.run(cmd + [exe, "--gen-dir", "g/", "s.ccn"], w, timeout=20)
    try:
        tr = parse(re.sub(r'\b(write|pwrite64|read)\((\d+<[^>]*>), ".*?"(\.\.\.)?, ', r"\1(\2, ", open(log_, encoding="latin1").read(1 << 24)), w)
    except FileNotFoundError:
        raise Infra("strace does not run: %s %s" % (rc, e[-300:]))
    return rc, o, e, tr


def lengths(table):
    return [{"p": p, "n": n} for p, n in sorted(table.items())]


def files(w):
    """regular files below g, and those it links to"""
    o = {}
    for r, ds, fs in os.walk(os.path.join(w, "g")):
        for f in fs:
            p = os.path.join(r, f)
            if os.path.isfile(p):
                o[os.path.relpath(p, w)] = open(p, "rb").read()
    return o


def is_code(p):
    return p[-2:] in (".c", ".h")


def attempt(cell, exe, name, text, ref, prepare=None, inject=None):
    w = stage(cell, name, text, prepare)
    old = files(w)
    rc, o, e, tr = invoke(cell, exe, w, inject)
    now = files(w)
    shutil.rmtree(w, ignore_errors=True)
    end = "done" if rc == 0 else "abnormal" if rc == "timeout" or rc < 0 or rc >= 99 or "Sanitizer" in e or "runtime error:" in e else "failed"
    # where messages can not be written either, none is asked for
    dumb = any(x["p"] is None and x["kind"] in ("write", "writev") and x["ret"] < 0 for x in tr)
    return {"want": lengths({p: len(b) for p, b in ref.items()}), "old": lengths({p: len(b) for p, b in old.items()}), "ev": events(tr),
            "end": {"e": end, "told": dumb or bool(e.strip()), "same": all(now.get(p) == b for p, b in ref.items())}}, (rc, o[-200:], e[-400:])


def obstacle(rng, ref):
    """-> (description, what puts it in the way)"""
    p = rng.choice(sorted(ref))
    sub = rng.choice(["g/ccngen", "g/user", "g/log", "g/ag_dot", "g/ccngen/equations"])
    k = rng.choice(["directory", "full", "readonly", "subfile", "closed", "unreadable", "dangling", "old", "old", "longer"])

    def put(w):
        x = os.path.join(w, p)

        def up(d):
            if not os.path.isdir(d):
                up(os.path.dirname(d))
                os.mkdir(d)
                os.chown(d, 65534, 65534)
        if k == "directory":
            up(x)
        elif k == "full":
            up(os.path.dirname(x))
            os.symlink("/dev/full", x)
        elif k == "readonly":
            up(os.path.dirname(x))
            open(x, "w").write("/* old */\n")
            os.chmod(x, 0o444)
            os.chown(x, 0, 0)
        elif k == "subfile":
            up(os.path.dirname(os.path.join(w, sub)))
            open(os.path.join(w, sub), "w").write("in the way\n")
        elif k == "closed":
            up(os.path.join(w, sub))
            os.chmod(os.path.join(w, sub), 0o555)
            os.chown(os.path.join(w, sub), 0, 0)
        elif k == "unreadable":
            os.chmod(os.path.join(w, "s.ccn"), 0)
            os.chown(os.path.join(w, "s.ccn"), 0, 0)
        elif k == "dangling":
            up(os.path.dirname(x))
            os.symlink("nowhere/at/all", x)
        else:
            up(os.path.dirname(x))
            open(x, "wb").write(ref[p][:len(ref[p]) // 2] if k == "old" else ref[p] + b"\n#error left over\n")
            os.chown(x, 65534, 65534)
    return "%s %s %s" % (k, p, sub), put


def plans(rng, tr, k):
    """faults, from the calls of an undisturbed run: every call on files once (of
    writes and reads a part), some of them for good from then on"""
    own = [e for e in tr if e["p"] is not None and e["kind"] in ERRORS]
    few = [e for e in own if e["kind"] not in ("write", "read")]
    rng.shuffle(few)
    writes = [e for e in own if e["kind"] in ("write", "read")]
    # the first and the last write to every file, and some others
    edge, last = [], {}
    for e in writes:
        if e["p"] not in last:
            edge.append(e)
        last[e["p"]] = e
    edge += list(last.values())
    rng.shuffle(edge)
    other = [rng.choice(writes) for _ in range(k // 3)] if writes else []
    out = []
    for e in few[:k // 2] + edge[:k // 3] + other:
        err, on = rng.choice(ERRORS[e["kind"]]), rng.choice(["", "", "+", "+2"])
        # an interrupted call may be repeated for as long as it is interrupted
        out.append(["%s:error=%s:when=%d%s" % (e["call"], err, e["nth"], "" if err == "EINTR" else on)])
    for _ in range(k // 8):     # two faults
        a, b = rng.choice(own), rng.choice(own)
        if a["call"] != b["call"]:
            out.append(["%s:error=%s:when=%d" % (e["call"], rng.choice(ERRORS[e["kind"]]), e["nth"]) for e in (a, b)])
    return out


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo()
    rng = ck.rng
    with Scratch() as d, Cell() as cell:
        r = tlc("OutputMC", "CONSTANTS Pieces = %d\n Tries = %d\n Old = {0, 2, 5}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                "INVARIANTS Honest Reason Whole Spread\nPROPERTY Ends\n" % ((3, 2) if ck.quick() else (6, 4)), d, workers=4, timeout=800, heap="8g")
        if not r["ok"]:
            raise Infra("model check of Output failed:\n" + r["out"][-3000:] + r["err"][-500:])
        exe = os.path.join(cell.d, "cocogen")
        shutil.copy(tools.cocogen, exe)
        os.chmod(exe, 0o755)
        ns, nf, no = (8, 100, 14) if ck.quick() else (60, 360, 40)
        pool = [make(rng) for _ in range(ns * 6)]
        verd = judge(pool, d)
        jobs, refs, texts = [], [], []
        for S, v in zip(pool, verd):
            if v[0] != "accept" or len(refs) == ns:
                continue
            text = dsl.render(items(S, rng, speller(rng, True, S.get("caps", ()))))
            w = stage(cell, "ref%d" % len(refs), text, None)
            rc, o, e, tr = invoke(cell, exe, w)
            ref = {p: b for p, b in files(w).items() if is_code(p)}
            shutil.rmtree(w)
            if rc != 0 or not ref:
                continue
            if not any(x["kind"] == "write" and x["p"] in ref for x in tr):
                raise Infra("no writes seen: %s" % tr[-3:])
            i = len(refs)
            refs.append(ref)
            texts.append(text)
            jobs.append((i, "nothing", None, None))
            for p in plans(rng, tr, nf):
                jobs.append((i, " ".join(p), None, p))
            for _ in range(no):
                what, put = obstacle(rng, ref)
                jobs.append((i, what, put, None))
        if len(refs) < ns // 2:
            raise Infra("only %d specifications were accepted" % len(refs))

        def work(x):
            n, (i, what, put, inj) = x
            return attempt(cell, exe, "w%d" % n, texts[i], refs[i], put, inj)
        got = pmap(work, list(enumerate(jobs)))
        traces = [g[0] for g in got]
        acc, st, gen, _ = tlc_judge("OutputTrace", CFG, traces, d, chunk=max(1, len(traces) // JOBS))
        tried = 0
        for j, (i, what, put, inj) in enumerate(jobs):
            if j in acc or len(ck.viol) >= 4 or tried >= 24:
                continue
            tried += 1
            again = attempt(cell, exe, "again%d" % j, texts[i], refs[i], put, inj)
            if tlc_judge("OutputTrace", CFG, [again[0]], d)[0]:
                continue
            tr = again[0]
            ck.violation("with failing operations (%s) cocogen ends %s, which Output does not allow; it said %s; files that differ in length: %s" %
                         (what, json.dumps(tr["end"]), again[1], [e for e in tr["ev"] if not e["ok"]][:4]),
                         {"ccn": texts[i], "fault": what, "trace": tr, "said": again[1]})
    tally = {}
    for (i, what, put, inj), g in zip(jobs, got):
        k = ("fault" if inj else "obstacle" if put else "nothing") + "/" + g[0]["end"]["e"]
        tally[k] = tally.get(k, 0) + 1
    ck.cov = {"states": r["distinct"] + st, "transitions": r["generated"] + gen, "model_states": r["distinct"],
              "traces_validated_against_impl": len(acc), "specifications": len(refs), "ends": tally,
              "samples": [{"fault": jobs[k][1], "end": got[k][0]["end"]} for k in range(0, min(len(jobs), 40), 9)]}
    ck.assumptions = ["TLC, strace and the kernel are trusted", "faults of memory and of standard output are not injected",
                      "log, drawings and ast.dot are not code"]
    return ck.finish()
