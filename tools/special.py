"""Checks that need more than one machine per program or another way of observing it"""
import concurrent.futures as cf
import os
import re

import check as ck


def threads(c):
    """C15: several machines per program, under ThreadSanitizer"""
    exes = c.build_machines("tsan", group=4)
    c.drive(exes, "tsan", [
        "threads=8 ops=120 rounds=4 recreate=30 move=3 rebind=3",
        "handoff=1 threads=8 sessions=3 ops=1500 rounds=2 recreate=10 move=4 rebind=3 exc=1",
        "sessions=3 ops=500 rounds=2 nest=6 recreate=10 move=3 rebind=3",
        "sessions=4 ops=400 rounds=2 recreate=20 move=5 exc=1",
    ])


def memory(c):
    """C16: address, undefined-behaviour and leak sanitizers, then valgrind for uninitialised reads"""
    corpus = c.corpus()
    exes = c.build_machines("asan-noalloc", corpus=corpus)
    c.drive(exes, "asan-noalloc", c.spec["runs"])
    n = 8 if c.tier == "quick" else 24
    step = max(1, len(corpus) // n)
    exes = c.build_machines("plain", corpus=corpus[::step][:n])
    before = c.cov.get("events", 0)
    c.drive(exes, "plain", ["ops=60 rounds=3 seed=11 recreate=20 move=4 rebind=3 exc=1"],
            wrap=("valgrind", "-q", "--error-exitcode=98", "--leak-check=full", "--errors-for-leak-kinds=definite",
                  "--partial-loads-ok=yes", "--track-origins=no"))
    c.notes["events_under_valgrind"] = c.cov.get("events", 0) - before
    if exes and not c.notes["events_under_valgrind"] and not c.violations:
        raise ck.Error("nothing ran under valgrind")


def amalgam(c):
    """C18: the same programs with both editions must leave the same record"""
    corpus = c.corpus()
    both = {}
    for fl in ("amalgam", "asan"):
        for name, exe, text in c.build_machines(fl, group=2, corpus=corpus):
            both.setdefault(name, {})[fl] = (exe, text)
    scale = 1 if c.tier == "quick" else 10
    tasks = []
    for name, e in both.items():
        if len(e) == 2:
            for k, r in enumerate(("ops=%d recreate=5 move=3 rebind=3" % (900 * scale), "ops=%d rounds=5 exc=1 query=2" % (150 * scale))):
                tasks.append((name, e, r.split() + [f"seed={1000 * c.seed + k + 1}", "log=1", "limit=300"]))

    def work(t):
        name, e, args = t
        got, raw = {}, {}
        for fl in ("amalgam", "asan"):
            rc, out = ck.sh([e[fl][0]] + args, timeout=600, env=ck.FLAVORS[fl]["env"])
            if rc in ("timeout", -9, 3):
                c.inconclusive.append(f"{name} {fl}: {rc}")
                return
            raw[fl] = out
            # addresses and process numbers differ between runs
            out = re.sub(r"0x[0-9a-f]+|==\d+==|\d+ bytes|max_bytes\":\d+", "#", out)
            got[fl] = (rc, out)
        if got["amalgam"] == got["asan"] or (
                got["amalgam"][0] == got["asan"][0] != 0 and record(got["amalgam"][1]) == record(got["asan"][1])):
            if got["asan"][0] == 0:
                c.absorb(raw["asan"])
                c.cov["compared_log_lines"] = c.cov.get("compared_log_lines", 0) + got["asan"][1].count("\n")
            else:
                c.notes.setdefault("both_editions_deviate_alike", []).append(name)
            return
        a, b = got["amalgam"][1].split("\n"), got["asan"][1].split("\n")
        k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        lo = max(0, k - 25)
        c.violation(f"{name}: the two editions behave differently",
                    "exit codes: amalgamated %s, modular %s\n" % (got["amalgam"][0], got["asan"][0])
                    + "---- common record\n" + "\n".join(a[lo:k])
                    + "\n---- amalgamated header\n" + "\n".join(a[k:k + 12])
                    + "\n---- modular headers\n" + "\n".join(b[k:k + 12]),
                    " ".join([e["amalgam"][0]] + args), e["asan"][1])

    with cf.ThreadPoolExecutor(ck.JOBS) as ex:
        list(ex.map(work, tasks))


def record(out):
    """the operations and callbacks, without what a sanitizer prints about a crash"""
    return [l for l in out.split("\n") if re.match(r"( |event|create|destroy|rebind|move|set|VIOL)", l)]



def probes(c):
    """the inputs of the recorded findings, in case one of them behaves in yet another way"""
    src = os.path.join(ck.VERIF, "probes", c.pid + ".cpp")
    exe = os.path.join(c.dir, "probe.exe")
    f = ck.FLAVORS["asan"]
    rc, o = ck.sh([ck.CXX] + ck.base() + f["flags"] + ck.include() + [src, "-o", exe])
    if rc != 0:
        if ck.CXX == "clang++":
            raise ck.OtherCompiler()
        c.violation("probe: valid program does not compile", o[:4000])
        return
    rc, names = ck.sh([exe])
    for n in names.split():
        rc, out = ck.sh([exe, n], timeout=60, env=f["env"])
        c.cov["probes"] = c.cov.get("probes", 0) + 1
        if rc == 0 and "HOLDS" in out:
            continue
        m = re.search(r"OBSERVED (.*)", out) or re.search(r"(Assertion .* failed|runtime error: .*|AddressSanitizer: \S+)", out)
        c.violation(f"probe {n}: " + (m.group(1) if m else f"exit {rc}"), out[:6000], f"probes/{c.pid}.cpp {n}")
