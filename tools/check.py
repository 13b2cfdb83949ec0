#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [quick|thorough]"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "gen"))
import gen  # noqa: E402
import profiles  # noqa: E402

LIB = os.path.join(VERIF, "lib")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
# The library's own build uses g++. The checks use clang++ (faster, stricter sanitizers) and turn to
# g++ as a whole if clang refuses something, what g++ accepts too is not reported.
CXX = os.environ.get("VERIF_CXX", "clang++")


def base():
    # large machines need longer fold expressions than clang expects
    more = ["-fbracket-depth=4096"] if CXX == "clang++" else ["-ftemplate-depth=4096"]
    return ["-std=c++17", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", f"-I{LIB}"] + more
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVORS = {
    "asan": dict(flags=["-O0"] + SAN, define=[], env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
                                                    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}),
    "asan-noalloc": dict(flags=["-O0"] + SAN, define=["-DHX_NOALLOC"],
                         env={"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
                              "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}),
    "tsan": dict(flags=["-O0", "-fsanitize=thread"], define=["-DHX_NOALLOC"],
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=99"}),
    "amalgam": dict(flags=["-O0"] + SAN, define=["-DHX_AMALGAM"], env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99",
                                                                     "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}),
    "plain": dict(flags=["-O1"], define=["-DHX_NOALLOC"], env={}),
}


class Error(Exception):
    pass


class OtherCompiler(Exception):
    """clang refuses the library or a machine"""


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf8", "replace")


def compiler(cmd):
    """a compilation; one that fails is repeated, so that an exhausted machine is not taken for an error in the code"""
    for wait in (2, 8, 0):
        rc, o = sh(cmd)
        env = re.search(r"No space left|[Cc]annot allocate|out of memory|Killed|bad_alloc|unable to execute command|Text file busy|"
                        r"Resource temporarily|Input/output error|[Ss]egmentation fault", o[-2000:]) or (rc != "timeout" and rc < 0)
        if rc in (0, "timeout") or (wait == 8 and not env):
            break
        time.sleep(wait)
    if rc not in (0, "timeout") and env and CXX != "clang++":
        raise Error("the compiler could not run: " + o[-1500:])
    return rc, o


def include():
    return [f"-I{REPO}/include"]


def driver(flavor):
    """object file of the monitor; depends on /verif only"""
    f = FLAVORS[flavor]
    h = hashlib.sha256()
    for n in sorted(os.listdir(LIB)):
        h.update(open(os.path.join(LIB, n), "rb").read())
    h.update(repr(f).encode())
    h.update(repr((CXX, base())).encode())
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, f"driver-{flavor}-{h.hexdigest()[:16]}.o")
    if not os.path.exists(out):
        flags = ["-O1" if x == "-O0" else x for x in f["flags"]]
        tmp = out + f".{os.getpid()}"
        rc, o = compiler([CXX] + base() + flags + f["define"] + ["-c", os.path.join(LIB, "driver.cpp"), "-o", tmp])
        if rc != 0:
            raise Error("the monitor does not compile:\n" + o[-3000:])
        os.replace(tmp, out)
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = profiles.PROPS[pid]
        self.flavor = self.spec.get("flavor", "asan")
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{pid}-", dir=BUILD)
        self.replays = os.path.join(VERIF, "replays")
        self.violations = []  # (key, text)
        self.inconclusive = []
        self.known = []
        self.cov = {}
        self.samples = []
        self.tuples = set()
        self.notes = {}
        self.start = time.time()
        self.pchDone = {}
        self.known_keys = load_known(pid)

    # ------------------------------------------------------------------ building
    def pch(self, flavor):
        """precompiled header of the library under test, rebuilt for every check"""
        if flavor in self.pchDone:
            return self.pchDone[flavor]
        f = FLAVORS[flavor]
        if CXX != "clang++":
            rc, self.pchOut = compiler([CXX] + base() + f["flags"] + f["define"] + include() + ["-x", "c++", "-fsyntax-only",
                                 os.path.join(LIB, "hx_machine.h")])
            self.pchDone[flavor] = "" if rc == 0 else None
            return self.pchDone[flavor]
        out = os.path.join(self.dir, f"hx-{flavor}.pch")
        rc, o = compiler([CXX] + base() + f["flags"] + f["define"] + include() + ["-x", "c++-header", os.path.join(LIB, "hx_machine.h"), "-o", out])
        self.pchDone[flavor] = out if rc == 0 else None
        self.pchOut = o
        return self.pchDone[flavor]

    def compile(self, src, flavor, extra=(), pch=True):
        f = FLAVORS[flavor]
        obj = src[:-4] + f"-{flavor}.o"
        cmd = [CXX] + base() + f["flags"] + f["define"] + list(extra) + include()
        if pch and self.pchDone.get(flavor):
            cmd += ["-include-pch", self.pchDone[flavor]]
        rc, o = compiler(cmd + ["-c", src, "-o", obj])
        return rc, o, obj

    def link(self, objs, flavor, exe):
        f = FLAVORS[flavor]
        return compiler([CXX] + f["flags"] + objs + ["-o", exe, "-pthread"])

    def corpus(self):
        """the machines of this run: a fixed part and one that follows the seed"""
        out = []
        for label, kw, nq, nt in self.spec["machines"]:
            n = nq if self.tier == "quick" else nt
            fixed = (n * 2 + 2) // 3
            for i in range(n):
                seed = "fixed" if i < fixed else f"seed{self.seed}"
                name = f"{self.pid}-{label}-{i:02d}-{seed}"
                out.append((name, kw, seed))
        return out

    def violation(self, key, what, cmd=None, source=None):
        for k in self.known_keys:
            if re.fullmatch(k["match"], key):
                line = f"KNOWN-FINDING: property={self.pid} {k['what']}"
                if line not in self.known:
                    self.known.append(line)
                return
        os.makedirs(self.replays, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(self.replays, f"{self.pid}-{n}.txt")
        with open(path, "w") as f:
            f.write(f"property {self.pid}\nkey {key}\n")
            if cmd:
                f.write("run: " + cmd + "\n")
            f.write(what + "\n")
            if source:
                f.write("\n==== definition\n" + source + "\n")
        self.violations.append((key, path, what))

    # ------------------------------------------------------------------ running
    def run_one(self, exe, args, env, name, source, limit=200, wrap=()):
        cmd = list(wrap) + [exe] + args
        for attempt in (0, 1):
            rc, out = sh(cmd, timeout=limit, env=env)
            if rc in (77, "timeout", -9) and attempt == 0:
                continue
            break
        text = " ".join(cmd)
        if rc == 0:
            self.absorb(out)
            return
        if rc == 3:
            raise Error(f"harness: {text}: {out[-500:]}")
        if rc in ("timeout", -9):
            self.inconclusive.append(f"{name}: {rc}")
            return
        m = re.search(r"^VIOL (.*)$", out, re.M)
        if rc == 77:
            key = f"{name}: hang"
        elif m:
            key = f"{name}: {m.group(1)[:160]}"
        else:
            s = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*|ERROR: LeakSanitizer[^\n]*|Assertion[^\n]*failed)", out)
            key = f"{name}: " + (s.group(1) if s else f"exit {rc}")
        self.violation(key, out[:20000], text, source)

    def absorb(self, out):
        m = re.search(r"^COVERAGE (\{.*\})$", out, re.M)
        if not m:
            raise Error("no coverage line: " + out[-300:])
        c = json.loads(m.group(1))
        t = re.search(r"^TUPLES(.*)$", out, re.M)
        self.tuples.update(t.group(1).split())
        c["distinct"] = 0
        for k, v in c.items():
            if k == "samples":
                for s in v:
                    if len(self.samples) < 5:
                        self.samples.append(s)
            elif k in ("maxQueue", "max_bytes"):
                self.cov[k] = max(self.cov.get(k, 0), v)
            else:
                self.cov[k] = self.cov.get(k, 0) + v

    def compile_machines(self, flavor, corpus=None):
        """[(name, object, source text)] of the machines that compile"""
        jobs = []
        for name, kw, seed in corpus or self.corpus():
            src = os.path.join(self.dir, name + ".cpp")
            text = gen.make(name, seed, **kw).emit()
            with open(src, "w") as f:
                f.write(text)
            jobs.append((name, src, text))
        driver(flavor)
        if self.pch(flavor) is None:
            if CXX == "clang++":
                raise OtherCompiler()
            self.violation("the library's header does not compile", self.pchOut[:8000])
            return []

        def work(j):
            name, src, text = j
            rc, o, obj = self.compile(src, flavor)
            if rc == "timeout":
                self.inconclusive.append(f"{name}: compile timeout")
                return None
            if rc != 0:
                if CXX == "clang++":
                    raise OtherCompiler()
                self.violation(f"{name}: valid machine does not compile", o[:8000], source=text)
                return None
            return name, obj, text

        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = [r for r in ex.map(work, jobs) if r]
        self.cov["machines_built"] = self.cov.get("machines_built", 0) + len(objs)
        return objs

    def build_machines(self, flavor, group=1, corpus=None):
        """[(name, program, source text)], each program contains group machines"""
        objs = self.compile_machines(flavor, corpus)
        groups = [objs[i:i + group] for i in range(0, len(objs), group)]

        def work(g):
            name = g[0][0]
            exe = os.path.join(self.dir, f"{name}-{flavor}.exe")
            rc, o = self.link([x[1] for x in g] + [driver(flavor)], flavor, exe)
            for x in g:
                os.unlink(x[1])
            if rc != 0:
                self.violation(f"{name}: valid machines do not link", o[:8000])
                return None
            return name, exe, "\n".join(x[2] for x in g)

        with cf.ThreadPoolExecutor(JOBS) as ex:
            return [r for r in ex.map(work, groups) if r]

    def drive(self, exes, flavor, runs, wrap=()):
        env = FLAVORS[flavor]["env"]
        scale = 1 if self.tier == "quick" else 12
        tasks = []
        for number, (name, exe, text) in enumerate(exes):
            for k, r in enumerate(runs):
                args = r.split()
                have = {a.split("=")[0]: a.split("=")[1] for a in args}
                # long runs are done with some of the machines only
                every = int(have.pop("every", "1"))
                if self.tier == "quick" and number % every:
                    continue
                factor = scale if every == 1 else min(scale, 2)
                base = int(have.get("seed", "1"))
                have["seed"] = str(base + 1000 * self.seed)
                if "rounds" in have:
                    have["rounds"] = str(int(have["rounds"]) * factor)
                else:
                    have["ops"] = str(int(have["ops"]) * factor)
                have["limit"] = str(120 if self.tier == "quick" else 600)
                tasks.append((exe, [f"{a}={b}" for a, b in have.items()], env, name, text,
                              400 if self.tier == "quick" else 1500, wrap))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda t: self.run_one(*t), tasks))

    # ------------------------------------------------------------------ main
    def main(self):
        try:
            special = self.spec.get("special")
            if special:
                import special as sp
                getattr(sp, special)(self)
            else:
                exes = self.build_machines(self.flavor)
                self.drive(exes, self.flavor, self.spec["runs"])
            extras = list(self.spec.get("extras", ()))
            if os.path.exists(os.path.join(VERIF, "probes", self.pid + ".cpp")):
                extras.append("probes")
            for extra in extras:
                import special as sp
                getattr(sp, extra)(self)
            return self.finish()
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.dir, ignore_errors=True)

    def finish(self):
        void = [k for k in self.spec["need"] if not self.cov.get(k)]
        wall = time.time() - self.start
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level_of(self.pid), wall_s=round(wall, 1),
                  violations=len(self.violations))
        cov = dict(evaluations=self.cov.get("events", 0), distinct_nontrivial=len(self.tuples),
                   rule="One evaluation is one event (or other operation) processed by a generated machine while the monitor compares "
                        "callbacks, verdict, configuration, objects, kept events and memory with the reference interpreter. Non-trivial and "
                        "distinct: a combination of machine, configuration before, event, number of kept events (capped at 4), rows taken, "
                        "verdict and configuration after that was not seen before in any run of this check.",
                   samples=self.samples[:5] or ["none"])
        for k, v in self.cov.items():
            if k not in ("events", "distinct", "machines"):
                cov[k] = v
        cov.update(self.notes)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        ev["coverage"] = cov
        ev["assumptions"] = ["reference interpreter lib/ref.h", "compiler, sanitizer run-times and Boost.Hana of this sandbox"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in self.known:
            print(l)
        for key, path, what in self.violations[:10]:
            print(f"VIOLATION property={self.pid} replay={path}")
            print("   " + key)
            for l in [l for l in what.splitlines() if "error" in l][:2]:
                print("   " + l[:300])
        print(f"{self.pid} {self.tier}: {cov['evaluations']} events, {cov['distinct_nontrivial']} distinct reactions, "
              f"{self.cov.get('machines_built', 0)} machines, {wall:.0f} s")
        if self.violations:
            return 1
        if void:
            print("nothing was observed for: " + ", ".join(void), file=sys.stderr)
            return 3
        if self.inconclusive:
            print("inconclusive: " + "; ".join(self.inconclusive[:5]), file=sys.stderr)
            return 3 if len(self.inconclusive) > 3 else 0
        return 0


def level_of(pid):
    return "exploration"


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append(dict(match=m.group(2), what=m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        try:
            rc = Check(pid, tier, seed).main()
        except OtherCompiler:
            global CXX
            CXX = "g++"
            print("clang++ refuses the library or a machine, using g++", file=sys.stderr)
            c = Check(pid, tier, seed)
            c.notes["compiler"] = "g++, clang++ refused"
            rc = c.main()
    except Error as e:
        print(f"error: {e}", file=sys.stderr)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    if sys.argv[1:2] == ["setup"]:
        for fl in FLAVORS:
            driver(fl)
        sys.exit(0)
    main()
