"""P21: the command line of cocogen (spec/CommandLine.tla).  cocogen runs as an
unprivileged user in directories of its own: what it is told to write to may
be anything."""
import itertools
import stat
import tempfile

import dsl
from c_dsl import items, judge, random_base, speller
from core import *

CFG = "INIT Init\nNEXT Next\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n"
NOBODY = 65534


class Cell:
    """a directory of an unprivileged user, outside of /verif (whose path may
    not be open to others)"""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="cell-")
        os.chmod(self.d, 0o755)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def own(self, p):
        for r, ds, fs in os.walk(p):
            for f in [r] + [os.path.join(r, f) for f in fs]:
                os.chown(f, NOBODY, NOBODY, follow_symlinks=False)

    def run(self, cmd, cwd, timeout=20, env=None):
        e = {"PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": ASAN_ENV["ASAN_OPTIONS"], "UBSAN_OPTIONS": "exitcode=99", "HOME": cwd}
        e.update(env or {})
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.getuid() == 0 else {}
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
            return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired:
            return "timeout", "", ""


def snapshot(d):
    o = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            o[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            p = os.path.join(r, x)
            o[os.path.relpath(p, d)] = open(p, "rb").read() if stat.S_ISREG(os.lstat(p).st_mode) else "?"
    return o


def code(snap, d):
    """the generated code below d"""
    n = len(d) + 1
    return {p[n:]: v for p, v in snap.items() if p.startswith(d + "/") and v is not None and p[-2:] in (".c", ".h")}


WORLD = {"a.ccn": "spec", "b.ccn": "spec", "-c.ccn": "spec", "bad.ccn": "bad", "d": "empty", "f": "file", "ccngen": "none", "out": "none",
         "d/n": "none"}


def lay(d, texts):
    for n, t in texts.items():
        open(os.path.join(d, n), "w").write(t)
    os.mkdir(os.path.join(d, "d"))
    open(os.path.join(d, "f"), "w").write("nothing of interest\n")


def one(cell, exe, texts, refs, args, k):
    w = os.path.join(cell.d, "w%d" % k)
    os.mkdir(w)
    lay(w, texts)
    before = snapshot(w)
    cell.own(w)
    rc, o, e = cell.run([exe] + args, w)
    after = snapshot(w)
    shutil.rmtree(w, ignore_errors=True)
    places = sorted(WORLD, key=lambda p: -len(p))
    touched = set()
    for p in set(before) | set(after):
        if before.get(p, 0) != after.get(p, 0):
            touched.add(next((q for q in places if p == q or p.startswith(q + "/")), p.split("/")[0]))
    done = []
    for q in sorted(touched):
        c = code(after, q)
        # code below d/n is not code in d
        c = {p: v for p, v in c.items() if not any(len(r) > len(q) and (q + "/" + p).startswith(r + "/") for r in places)}
        # the last specification named decides which code it is to be
        want = [refs[a] for a in args if a in refs]
        if c and any(c == x for x in want):
            done.append(q)
    end = "done" if rc == 0 else "abnormal" if rc == "timeout" or rc < 0 or rc >= 99 or "Sanitizer" in e or "runtime error:" in e else "failed"
    own = [ln for ln in o.split("\n") if ln.strip() and not ln.startswith(("-----", "Opening: ", "Checking: ", "Found: "))]
    return {"args": args,
            "obs": {"end": end, "usage": o.startswith("Usage:"), "version": "cocogen" in o and len(o.split("\n")) < 6,
                    "structure": "scanAndParse" in o and "semantic" in o and "Generating" not in o, "told": bool(own or e.strip()),
                    "verbose": ">> " in e or "*** " in e and "failed ***" not in e, "tree": bool(re.search(r"^NODE: ", o, re.M)),
                    "touched": sorted(touched), "code": done},
            "said": (o[-300:] + "|" + e[-400:])}


TOKENS = ["-v", "-vv", "-b", "-vb", "-bstartphase.semantic", "-bnothing", "-x", "-", "--", "--help", "--version", "--verbose", "--show-structure",
          "--show-ast", "--consistency-checks", "--gen-dir", "--gen-dir=out", "--gen-dir=", "--gen-dir=d/", "--gen-dir=f", "--gen-dir=no/where",
          "--breakpoint", "--breakpoint=STARTPHASE.Semantic.buildSymbolTable", "--backend", "--backend=dynamic", "--backend=typed",
          "--ag-scheduler-max-iter", "--ag-scheduler-max-iter=100", "--ag-scheduler-max-iter=100x", "--nonsense", "--nonsense=1", "--help=1",
          "--verbose=yes", "a.ccn", "bad.ccn", "no.ccn", "d", "out"]
VALUES = {"--gen-dir": ["out", "d", "d/n", "d/", "out/", "f", "no/x", "ccngen", "", "d/n/", "out//"],
          "--breakpoint": ["nothing", "startphase.nothing", "startphase.scanandparse", "startPhase.scanAndParse", "startphase.semantic", "x.y.z"],
          "--backend": ["dynamic", "Dynamic", "typed", "none", "static", ""],
          "--ag-scheduler-max-iter": ["100", "999", "5000", "x", "", "12x", "0x10", "-4", "1e3"],
          "--dot": ["x", "--help"]}
VALUES["-b"] = VALUES["--breakpoint"]


def random_args(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])):
        k = rng.random()
        if k < .55:
            o = rng.choice(sorted(VALUES))
            good = {"--gen-dir": 5, "--breakpoint": 2, "-b": 2, "--backend": 2, "--ag-scheduler-max-iter": 3, "--dot": 1}[o]
            v = rng.choice(VALUES[o][:good] if rng.random() < .8 else VALUES[o])
            out += [o + "=" + v] if o != "-b" and rng.random() < .5 else [o + v] if o == "-b" and v and rng.random() < .5 else [o, v]
        elif k < .9:
            out.append(rng.choice(["-v", "--verbose", "--show-ast", "--consistency-checks", "-vv", "--profiling", "--breakpoints",
                                   "--serialise", "--inspectpoints", "--debug"]))
        else:
            out.append(rng.choice(TOKENS))
    r = rng.random()
    f = rng.choice(["a.ccn", "b.ccn", "a.ccn", "b.ccn", "bad.ccn", "no.ccn", "f", "d"])
    if r < .75:
        out.insert(rng.choice([0, len(out), len(out), rng.randrange(len(out) + 1)]), f)
    elif r < .85:
        out += ["--", rng.choice(["-c.ccn", f, "--help", "-v"])]
    elif r < .9:
        out += [f, rng.choice(["a.ccn", "--", "out"])]
    return out


def comes_to(tr, d):
    p = os.path.join(d, "one.json")
    json.dump([tr], open(p, "w"))
    r = tlc("CommandLineTrace", CFG.replace("Accepted", "Where"), d, env={"TRACES": p}, timeout=120)
    return (re.findall(r'<<"AT", (.*)>>', r["out"]) or [r["out"][-800:]])[-1]


def main(prop):
    ck = Check(prop, "model_checking")
    tools = build_repo(True)
    rng = ck.rng
    with Scratch() as d, Cell() as cell:
        r = tlc("CommandLineMC", "CONSTANT MaxArgs = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                "INVARIANTS OneReading NothingIgnored LastDir OrderFree Twice Protected Ends\n" % (3 if ck.quick() else 4), d,
                workers=8, timeout=800, heap="8g")
        if not r["ok"]:
            raise Infra("model check of CommandLine failed:\n" + r["out"][-3000:] + r["err"][-500:])
        exe = os.path.join(cell.d, "cocogen")
        shutil.copy(tools.cocogen, exe)
        os.chmod(exe, 0o755)
        nw, nr = (4, 170) if ck.quick() else (24, 900)
        pool = [random_base(rng) for _ in range(60 + nw * 12)]
        verd = judge(pool, d)
        txt = [dsl.render(items(S, rng, speller(rng))) for S in pool]
        good = [t for t, v in zip(txt, verd) if v[0] == "accept"]
        bad = [t for t, v in zip(txt, verd) if v[0] == "reject"]
        while len(bad) < nw:
            bad.append(good[len(bad)].replace("}", "}}", 1))
        jobs, worlds = [], []
        for i in range(nw):
            a, b = good[2 * i], good[2 * i + 1]
            texts = {"a.ccn": a, "b.ccn": b, "-c.ccn": a, "bad.ccn": bad[i]}
            refs = {}
            for n in ("a.ccn", "b.ccn"):
                p = os.path.join(cell.d, "ref%d%s" % (i, n))
                os.mkdir(p)
                open(os.path.join(p, "s.ccn"), "w").write(texts[n])
                cell.own(p)
                rc, o, e = cell.run([exe, "s.ccn"], p)
                refs[n] = code(snapshot(p), "ccngen")
                if rc != 0 or not refs[n]:
                    ck.violation("cocogen s.ccn yields no code in ccngen (exit %s): %s" % (rc, (o + e)[-800:]), {"ccn": texts[n]})
                shutil.rmtree(p)
            refs["-c.ccn"] = refs["a.ccn"]
            worlds.append((texts, refs))
            lists = [random_args(rng) for _ in range(nr)]
            if i == 0:
                lists += [list(x) for k in range(3) for x in itertools.product(TOKENS, repeat=k)]
            jobs += [(i, a) for a in lists]
        runs = pmap(lambda x: one(cell, exe, worlds[x[1][0]][0], worlds[x[1][0]][1], x[1][1], x[0]), list(enumerate(jobs)))
        size = 40
        traces = [{"world": WORLD, "runs": runs[i:i + size]} for i in range(0, len(runs), size)]
        acc, st, gen, _ = tlc_judge("CommandLineTrace", CFG, traces, d, chunk=max(1, len(traces) // JOBS))
        for j, tr in enumerate(traces):
            if j in acc:
                continue
            one_by_one = [{"world": WORLD, "runs": [x]} for x in tr["runs"]]
            a2 = tlc_judge("CommandLineTrace", CFG, one_by_one, d)[0]
            for m in range(len(one_by_one)):
                if m in a2 or len(ck.viol) >= 4:
                    continue
                n = j * size + m
                again = one(cell, exe, worlds[jobs[n][0]][0], worlds[jobs[n][0]][1], jobs[n][1], 10 ** 6 + n)
                tr2 = {"world": WORLD, "runs": [again]}
                if tlc_judge("CommandLineTrace", CFG, [tr2], d)[0]:
                    continue
                says = comes_to(tr2, d)
                ck.violation("cocogen %s does not do what CommandLine says (%s): %s" % (" ".join(map(repr, again["args"])), says, json.dumps(again)),
                             {"files": worlds[jobs[n][0]][0], "run": again, "spec": says})
    tally = {}
    for x in runs:
        o = x["obs"]
        k = o["end"] + ("/usage" if o["usage"] else "/code" if o["code"] else "/version" if o["version"] else "/structure" if o["structure"] else "")
        tally[k] = tally.get(k, 0) + 1
    ck.cov = {"states": r["distinct"] + st, "transitions": r["generated"] + gen, "model_states": r["distinct"],
              "traces_validated_against_impl": len(runs) if len(acc) == len(traces) else len(acc) * size, "ends": tally,
              "samples": [{"args": x["args"], "obs": x["obs"]} for x in runs[:3]]}
    ck.assumptions = ["TLC and the C library's order of reading arguments (options anywhere) are trusted",
                      "shortened names of options, the static backend and small limits of the scheduler are not decided"]
    return ck.finish()
