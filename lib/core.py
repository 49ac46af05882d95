"""Shared plumbing of the checks: building /repo out of tree, running cocogen,
compiling generated compilers, running TLC, evidence and verdicts."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = min(8, os.cpu_count() or 4)


class Infra(Exception):
    """The check itself cannot give an answer (exit 2)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
_CFG = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
        "-DCMAKE_C_FLAGS=-fsanitize=address -fno-omit-frame-pointer"]


class Tools:
    def __init__(self, d):
        self.dir = d
        self.cocogen = os.path.join(d, "cocogen", "cocogen")
        self.palm_asan = None
        for c in ("palm/libpalm.a", "palm/libpalm_static.a"):
            p = os.path.join(d, c)
            if os.path.exists(p):
                self.palm_asan = p
        self.palm = os.path.join(d, "libpalm_plain.a")


_CHECKED = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
            "-DCMAKE_C_FLAGS=-fsanitize=address,undefined -fno-sanitize-recover=undefined -O1 -fno-omit-frame-pointer"]


# requests for memory pass through harness/oom.h
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup"]


def build_repo(checked=False, refusing=False):
    """cocogen (address sanitizer, asserts off) and palm, from REPO's working
    tree, into a directory of /verif that git ignores.  checked: with
    its own assertions, too.  refusing: memory can be refused to it."""
    os.makedirs(BUILD, exist_ok=True)
    tag = hashlib.sha1(REPO.encode()).hexdigest()[:8] + ("c" if checked else "m" if refusing else "")
    d = os.path.join(BUILD, "repo-" + tag)
    with open(os.path.join(BUILD, "lock-" + tag), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "build.ninja")):
            shutil.rmtree(d, ignore_errors=True)
            cfg = _CHECKED if checked else _CFG
            if refusing:
                o = os.path.join(BUILD, "oom-%s.o" % tag)
                subprocess.run(["gcc", "-O1", "-w", "-c", os.path.join(HARNESS, "oom_prog.c"), "-o", o], check=True)
                cfg = cfg + ["-DCMAKE_EXE_LINKER_FLAGS=%s,--wrap=regcomp,--wrap=regexec,--wrap=fopen,--wrap=opendir %s" % (WRAP[0], o)]
            r = subprocess.run(["cmake", "-S", REPO, "-B", d] + cfg,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Infra("cmake failed:\n" + r.stdout[-3000:])
        r = subprocess.run(["ninja", "-C", d], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Infra("build of the repository failed:\n" + r.stdout[-3000:])
        t = Tools(d)
        # palm without sanitizers, for harnesses that count allocations
        od = os.path.join(d, "palm_plain")
        os.makedirs(od, exist_ok=True)
        objs = []
        srcs = sorted(os.path.join(REPO, "palm", "src", f)
                      for f in os.listdir(os.path.join(REPO, "palm", "src")) if f.endswith(".c"))
        procs = []
        for s in srcs:
            o = os.path.join(od, os.path.basename(s) + ".o")
            objs.append(o)
            procs.append(subprocess.Popen(["gcc", "-O0", "-g", "-w", "-c", s, "-o", o,
                                           "-I", os.path.join(REPO, "palm", "include")]))
        if any(p.wait() for p in procs):
            raise Infra("building palm failed")
        if os.path.exists(t.palm):
            os.remove(t.palm)
        subprocess.run(["ar", "rcs", t.palm] + objs, check=True)
        if not os.path.exists(t.cocogen):
            raise Infra("cocogen was not built")
    return t


class Scratch:
    """A scratch directory below build/, removed at the end."""
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


_HUNG = []


def run(cmd, timeout=60, cwd=None, env=None, inp=None):
    """-> (rc, stdout, stderr); rc 'timeout' when it does not end."""
    e = dict(os.environ)
    e.update(env or {})
    if len(_HUNG) >= 6 and cmd[0] not in ("java", "gcc"):         # something is broken: do not wait as long for the rest
        timeout = min(timeout, max(10, timeout / 6))
    try:
        p = subprocess.run(cmd, timeout=timeout, cwd=cwd, env=e, input=inp,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    except subprocess.TimeoutExpired as x:
        _HUNG.append(cmd)
        return "timeout", (x.stdout or b"").decode("latin1"), (x.stderr or b"").decode("latin1")


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS": "exitcode=99"}


def cocogen(tools, ccn_file, gen_dir, extra=(), timeout=20):
    os.makedirs(gen_dir, exist_ok=True)
    return run([tools.cocogen, "--gen-dir", gen_dir.rstrip("/") + "/"] + list(extra) + [ccn_file],
               timeout=timeout, env=ASAN_ENV)


def classify(rc, out, err):
    """accept / reject / abnormal outcome of a cocogen run."""
    if rc == 0:
        return "accept"
    if rc == 1 and "runtime error:" not in err and ("error" in (out + err).lower()):
        return "reject"
    return "abnormal"


def compile_gen(tools, d, harness_c, gen="g", out="h", flags=(), extra_src=(), asan=False, timeout=120):
    """Compile one generated compiler with its harness.  -> (ok, messages)"""
    g = os.path.join(d, gen)
    srcs = sorted(os.path.join(g, f) for f in os.listdir(g) if f.endswith(".c"))
    cp = os.path.join(REPO, "copra", "src")
    cop = sorted(os.path.join(cp, f) for f in os.listdir(cp) if f.endswith(".c"))
    cmd = ["gcc", "-O0", "-w", "-g0", "-o", os.path.join(d, out)] + list(flags)
    if asan:
        cmd += ["-fsanitize=address"]
    cmd += [harness_c] + list(extra_src) + srcs + cop
    cmd += ["-I" + g, "-I" + os.path.join(REPO, "copra"), "-I" + os.path.join(REPO, "palm", "include"),
            "-I" + HARNESS, tools.palm_asan if asan else tools.palm]
    rc, o, e = run(cmd, timeout=timeout, cwd=d)
    return rc == 0, o + e


def pmap(fn, items, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, workers=1, env=None, timeout=600, heap="3g", simulate=None):
    """Run TLC on SPEC/module.tla with cfg text/file.  Returns dict."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    if "\n" in cfg:
        cf_ = os.path.join(meta, "M.cfg")
        open(cf_, "w").write(cfg)
    else:
        cf_ = os.path.join(SPEC, cfg)
    e = dict(env or {})
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(workers, 4)),
           "-Xss64m", "-XX:TieredStopAtLevel=4",
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:" +
           "/opt/veriftools/tla/CommunityModules.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-nowarning",
           "-noGenerateSpecTE", "-config", cf_]
    if simulate:
        cmd += simulate
    cmd += [os.path.join(SPEC, module + ".tla")]
    rc, out, err = run(cmd, timeout=timeout, cwd=meta, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
    m = re.findall(r"([\d]+) states generated[^\d]+([\d]+) distinct", out.replace(",", "")) or m
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = rc == 0 and "Model checking completed. No error has been found" in out
    return {"rc": rc, "ok": ok, "out": out, "err": err, "generated": st[0], "distinct": st[1]}


def tlc_judge(module, cfg, traces, workdir, chunk=None, timeout=600, env=None, heap="3g"):
    """Give every trace to the specification.  A trace module reads the JSON
    array named by env TRACES, starts one behaviour per trace, and prints
    <<"ACCEPT", t>> when the specification explains the whole trace.
    Returns (set of accepted indices, states, transitions, details)"""
    n = len(traces)
    if n == 0:
        return set(), 0, 0, {}
    k = max(1, min(JOBS, (n + 199) // 200)) if chunk is None else max(1, (n + chunk - 1) // chunk)
    parts = [list(range(i, n, k)) for i in range(k)]
    parts = [p for p in parts if p]

    def one(idx):
        fd, path = tempfile.mkstemp(prefix="traces-", suffix=".json", dir=workdir)
        with os.fdopen(fd, "w") as f:
            json.dump([traces[i] for i in idx], f, separators=(",", ":"))
        e = dict(env or {})
        e["TRACES"] = path
        r = tlc(module, cfg, workdir, workers=1, env=e, timeout=timeout, heap=heap)
        os.remove(path)
        return idx, r
    acc, gen, dist, info = set(), 0, 0, {}
    budget = [40]
    while parts:
        again = []
        for idx, r in pmap(one, parts):
            if not r["ok"]:
                # a trace outside the specification's domain of definition
                # (wrong kind of value somewhere): find it by bisection
                evaluation = re.search(r"Error: (The error occurred|Evaluating|TLC threw|In evaluation|Attempted|"
                                       r"The .* was|Cannot|The following)", r["out"])
                budget[0] -= 1
                if not evaluation or r["rc"] == "timeout" or "OutOfMemory" in r["out"] + r["err"] or budget[0] < 0:
                    raise Infra("TLC failed on %s: rc=%s\n...\n%s\n%s\n%s" % (module, r["rc"], r["out"][max(0, r["out"].find("Error:")):][:1500], r["out"][-1500:], r["err"][-1000:]))
                if len(idx) > 1:
                    k = max(1, len(idx) // 8)
                    again += [idx[i:i + k] for i in range(0, len(idx), k)]
                else:
                    info.setdefault(idx[0], []).append(r["out"][-1500:])
                continue
            gen += r["generated"]
            dist += r["distinct"]
            for m in re.finditer(r'<<"ACCEPT", (\d+)>>', r["out"]):
                acc.add(idx[int(m.group(1)) - 1])
        parts = again
    return acc, dist, gen, info


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, level):
        self.prop, self.level, self.tier, self.seed = prop, level, TIER, SEED
        self.t0 = time.time()
        self.viol = []
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.rng = random.Random(SEED * 1000003 + int(prop[1:]))

    def quick(self):
        return self.tier != "thorough"

    def violation(self, what, artefact, key=None):
        """artefact: JSON-able description that suffices to repeat the failure.
        key: identity of the failing input, as listed in KNOWN_FINDINGS.txt."""
        for k, text in known_findings(self.prop):
            if key is not None and k == key:
                if text not in self.known:
                    self.known.append(text)
                return
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "artefact": artefact}, f, indent=1, default=str)
        self.viol.append((what, p))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.viol[:5]:
            log("  " + what[:2000])
            log("VIOLATION property=%s replay=%s" % (self.prop, p))
        log("%s %s: %s in %.1fs" % (self.prop, self.tier, "VIOLATED" if self.viol else "held", time.time() - self.t0))
        return 1 if self.viol else 0


def known_findings(prop):
    """lines `known: property=<id> key=<key> <what fails>` of KNOWN_FINDINGS.txt"""
    out = []
    for ln in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- library harnesses (forked.h)
def compile_lib(tools, d, src, out="h", flags=()):
    rc, o, e = run(["gcc", "-O1", "-g", "-w", "-fsanitize=address", "-o", os.path.join(d, out)] + list(flags) +
                   [os.path.join(HARNESS, src), "-I" + HARNESS, "-I" + os.path.join(REPO, "palm", "include"),
                    tools.palm_asan], timeout=120, cwd=d)
    if rc != 0:
        raise Infra("harness does not build: " + (o + e)[-3000:])
    return os.path.join(d, out)


def forked(binary, scs, d, jobs=JOBS):
    """scs: lists of lines.  -> one list of events per scenario"""
    k = max(1, min(jobs, len(scs)))
    parts = [list(range(i, len(scs), k)) for i in range(k)]
    res = [None] * len(scs)

    def one(x):
        n, idx = x
        i, o = os.path.join(d, "in%d" % n), os.path.join(d, "out%d" % n)
        with open(i, "w") as f:
            for j in idx:
                f.write("S\n" + "".join(ln + "\n" for ln in scs[j]))
        if os.path.exists(o):
            os.remove(o)
        rc, so, se = run([binary, i, o], timeout=600, cwd=d, env=ASAN_ENV)
        bits = open(o, encoding="latin1").read().split("\n@@END\n") if os.path.exists(o) else []
        if rc != 0 or len(bits) != len(idx) + 1:
            raise Infra("harness: rc=%s, %d of %d scenarios %s" % (rc, len(bits) - 1, len(idx), se[-500:]))
        for j, b in zip(idx, bits):
            try:
                res[j] = json.loads(b)["ev"]
            except ValueError:
                lines = b.split("\n")
                evs = []
                for ln in lines:
                    ln = ln.strip()
                    if ln.startswith('{"ev":['):
                        ln = ln[7:]
                    try:
                        evs.append(json.loads(ln.rstrip(",")))
                    except ValueError:
                        pass
                res[j] = evs + [{"e": "died"}]
        os.remove(i)
        os.remove(o)
    # two scenarios directories may not share names: one call at a time per d
    pmap(one, list(enumerate(parts)))
    return res
