"""What each property's check generates and how it is driven.

machines: list of (label, generator arguments, number in quick, number in thorough)
runs: driver arguments, each machine is driven once per entry
need: coverage counters that must not be zero, otherwise the run is void
"""
ALLN = ("post", "pre", "tuple")
ALLF = ("G", "GV", "L", "F")

FLAT = dict(comps=0, rows=(8, 13))
HIER = dict(comps=(1, 2), depth=2, rows=(9, 13), states=(5, 7))
DEEP = dict(comps=(2, 3), depth=3, rows=(9, 12), states=(5, 7))
# more than 256 combinations of parent and state
BIG = dict(comps=(7, 8), depth=2, states=(32, 34), rows=(44, 48), events=(4, 4), anon=0.05, internal=1, defer=0.02, pseudo=0.1, history=0.1)
BIGDEEP = dict(comps=(9, 10), depth=4, states=(24, 26), rows=(36, 40), events=(3, 3), history=0.1)
WIDE = dict(comps=0, states=(19, 22), rows=(26, 30), events=(3, 4), guards=0.3, defer=0.03)
# many events, rows that compete, actions in a chain, regions
CROWD = dict(comps=(0, 1), events=(8, 10), states=(5, 7), rows=(16, 20), same=0.8, maxsame=6, guards=0.85, maxchain=5, chain=0.7,
             actions=0.8, defer=0.08, handler=0.8)
MANYREG = dict(root_regions=(5, 6), states=(11, 13), rows=(12, 16), events=(3, 4), handler=0.6)
REG9 = dict(root_regions=(9, 10), states=(19, 22), rows=(22, 26), events=(3, 4), handler=0.6)
DEEPEST = dict(comps=(4, 5), depth=6, rows=(12, 15), states=(7, 9), compsrc=0.5, guards=0.7)
MANYEV = dict(comps=(0, 1), events=(18, 20), states=(6, 8), rows=(26, 32), defer=0.06, handler=1.0)
REG = dict(root_regions=(2, 4), rows=(8, 12), states=(5, 8))
REGSUB = dict(comps=1, depth=1, root_regions=1, sub_regions=(2, 3), rows=(8, 12), states=(6, 8))
REGHIER = dict(comps=(1, 2), depth=2, root_regions=2, rows=(9, 12), states=(6, 8))
PSEUDO = dict(comps=(1, 2), depth=2, pseudo=0.6, rows=(9, 13), states=(5, 7), compsrc=0.15)
HIST = dict(comps=(1, 2), depth=1, history=0.6, rows=(9, 12), states=(5, 8))
HISTREG = dict(comps=(1, 2), depth=1, history=0.6, sub_regions=2, rows=(9, 12), states=(6, 8))
ANON = dict(anon=0.35, rows=(9, 13), guards=0.6)
INTERNAL = dict(internal=(3, 6), rows=(7, 10))
DEFER = dict(defer=0.3, events=(3, 4), rows=(8, 12))
CUSTOM = dict(custom=(1, 2), rows=(9, 13), states=(5, 7), handler=0.5)
DEPS = dict(deps=(2, 3), entry=0.5, exit=0.5, handler=1.0, guards=0.6, actions=0.7)


def mix(*ds, **kw):
    o = {}
    for d in ds:
        o.update(d)
    o.update(kw)
    return o


EVERYTHING = [
    ("all-hier", mix(HIER, ANON, INTERNAL, DEFER, pseudo=0.3, deps=(0, 2), notations=ALLN, forms=ALLF,
                     rows=(9, 12), defer=0.12, anon=0.15, internal=(1, 3), history=0.1)),
    ("all-flat", mix(FLAT, ANON, INTERNAL, DEFER, deps=(0, 2), notations=ALLN, forms=ALLF, defer=0.15,
                     anon=0.2, internal=(1, 3))),
    ("all-reg", mix(REGHIER, DEFER, ANON, deps=(0, 2), notations=ALLN, forms=ALLF, defer=0.12, anon=0.15,
                    internal=(0, 2))),
    ("all-regsub", mix(REGSUB, DEFER, deps=(0, 1), notations=ALLN, forms=ALLF, defer=0.08, anon=0.1)),
    ("all-custom", mix(CUSTOM, DEFER, comps=(0, 1), notations=ALLN, forms=ALLF, defer=0.1, internal=(0, 2))),
    ("all-hist", mix(HISTREG, DEFER, deps=(0, 1), notations=ALLN, forms=ALLF, defer=0.08, anon=0.1, internal=(0, 2), pseudo=0.2,
                     compsrc=0.4)),
]


def everything(q, t, **kw):
    out = []
    n = len(EVERYTHING)
    for i, (label, d) in enumerate(EVERYTHING):
        out.append((label, mix(d, **kw), (q + n - 1 - i) // n, (t + n - 1 - i) // n))
    return out


PROPS = {}


def prop(pid, machines, runs, need=(), **kw):
    PROPS[pid] = dict(machines=machines, runs=runs, need=need, **kw)


prop("C01", [("big", BIG, 1, 3), ("bigdeep", BIGDEEP, 0, 3), ("wide", WIDE, 1, 3), ("crowd", CROWD, 1, 8), ("manyev", MANYEV, 1, 4), ("manyreg", MANYREG, 1, 6), ("reg9", REG9, 1, 3), ("deepest", DEEPEST, 1, 3), ("flat", mix(FLAT, same=0.2), 4, 16), ("hier", mix(HIER), 5, 16), ("deep", mix(DEEP), 3, 10),
             ("reg", mix(REG), 3, 8), ("regsub", mix(REGSUB), 2, 6),
             ("reghier", mix(REGHIER), 3, 8)] + everything(9, 40),
     ["ops=4000 recreate=4", "ops=300 rounds=20 seed=7"], ["entered", "left", "rejected", "unexpected", "multiRegion"])
prop("C02", [("flat", mix(FLAT, same=0.7, guards=0.85, actions=0.8), 10, 30),
             ("crowd", CROWD, 3, 9), ("hier", mix(HIER, same=0.6, guards=0.85, actions=0.8), 6, 20),
             ("reg", mix(REG, same=0.6, guards=0.85), 4, 12),
             ("int", mix(FLAT, INTERNAL, internal=(5, 8), guards=0.7, isame=0.7, forms=("G", "GV")), 3, 9),
             ("int-hier", mix(HIER, INTERNAL, internal=(4, 7), guards=0.7, isame=0.6), 3, 9),
             ("pseudo", mix(PSEUDO, same=0.6, guards=0.85), 3, 10)],
     ["ops=5000", "ops=400 rounds=12 seed=5"], ["contested", "rejected", "guards"])
prop("C03", [("flat", mix(FLAT, handler=1.0, guards=0.6), 6, 16), ("hier", mix(HIER, handler=1.0, guards=0.6), 5, 16),
             ("reg", mix(REG, handler=1.0, guards=0.6), 3, 10), ("reghier", mix(REGHIER, handler=1.0, guards=0.6), 3, 8),
             ("regsub", mix(REGSUB, handler=1.0), 2, 6), ("deps", mix(HIER, DEPS), 3, 8),
             ("defer", mix(DEFER, handler=1.0, guards=0.6, root_regions=(1, 2)), 3, 8),
             ("int", mix(HIER, INTERNAL, handler=1.0, guards=0.7, entry=0, exit=0), 3, 9),
             ("manyev", MANYEV, 1, 4), ("nohandler", mix(HIER, handler=0.0), 1, 3)],
     ["ops=4000", "ops=300 rounds=12 seed=3"], ["unexpected", "rejected", "deferred", "recalledUnexpected"])
prop("C04", [("flat", mix(FLAT, entry=0.8, exit=0.8, actions=0.85, chain=0.6, deps=(0, 2), selfp=0.4, forms=ALLF), 8, 24),
             ("hier", mix(HIER, entry=0.8, exit=0.8, actions=0.8, chain=0.5, deps=(0, 2), selfp=0.3), 8, 24),
             ("pseudo", mix(PSEUDO, entry=0.7, exit=0.7, actions=0.8), 4, 12),
             ("reg", mix(REG, entry=0.8, exit=0.8, actions=0.8), 3, 8),
             ("sparse", mix(HIER, entry=0.4, exit=0.4, actions=0.15), 3, 8)],
     ["ops=4000", "ops=300 rounds=10 seed=3"], ["taken", "entered", "compositeTaken"])
prop("C05", [("hier", mix(HIER, compsrc=0.5, guards=0.7, entry=0.5, exit=0.5), 8, 24),
             ("deep", mix(DEEP, compsrc=0.6, guards=0.7), 8, 26), ("deepest", DEEPEST, 2, 6),
             ("reghier", mix(REGHIER, compsrc=0.4), 4, 10), ("regsub", mix(REGSUB, compsrc=0.4), 2, 6)],
     ["ops=5000", "ops=300 rounds=12 seed=3"], ["compositeTaken", "fellThroughOuter", "entered"])
prop("C06", [("pseudo", mix(PSEUDO), 10, 30), ("pseudo-anon", mix(PSEUDO, anon=0.3), 7, 20),
             ("pseudo-regsub", mix(REGSUB, pseudo=0.5), 4, 10), ("pseudo-reg", mix(REGHIER, pseudo=0.5), 3, 10)],
     ["ops=5000", "ops=300 rounds=12 seed=3"], ["pseudoEntry", "pseudoExit"])
prop("C07", [("hist", HIST, 10, 30), ("histreg", HISTREG, 6, 20),
             ("hist-reg", mix(HIST, root_regions=2, states=(6, 8)), 4, 12),
             ("hist-deep", mix(HIST, depth=2, comps=(2, 3)), 4, 12),
             ("hist-mix", mix(HIST, anon=0.15, internal=(1, 3), defer=0.06, pseudo=0.2), 4, 12),
             ("hist-set", mix(HIST, query=True, set=True), 2, 6)],
     ["ops=5000", "ops=300 rounds=12 seed=3", "ops=1500 set=8 move=2 seed=9"], ["history", "historyNonInitial"])
prop("C08", [("anon", ANON, 8, 24), ("anon-hier", mix(HIER, ANON, pseudo=0.25), 8, 24),
             ("anon-reg", mix(REG, ANON), 6, 16), ("anon-defer", mix(ANON, DEFER, defer=0.12), 2, 8)],
     ["ops=5000", "ops=300 rounds=12 seed=3"], ["anonTaken"])
prop("C09", [("manyreg", MANYREG, 2, 8), ("reg9", REG9, 1, 4), ("manyreg-defer", mix(MANYREG, defer=0.1, anon=0.15, internal=(0, 2)), 1, 4), ("reg", REG, 7, 24), ("reghier", REGHIER, 8, 24), ("regsub", REGSUB, 8, 24)],
     ["ops=5000", "ops=300 rounds=12 seed=3"], ["multiRegion", "entered", "left"])
prop("C10", [("int", mix(FLAT, INTERNAL, entry=0.5, exit=0.5), 8, 24), ("int-hier", mix(HIER, INTERNAL, entry=0.5, exit=0.5), 9, 24),
             ("int-values", mix(FLAT, INTERNAL, forms=("GV", "L", "G"), internal=(4, 7)), 4, 10),
             ("int-reg", mix(REG, INTERNAL), 3, 8)],
     ["ops=5000", "ops=300 rounds=12 seed=3"], ["internalTaken"])
prop("C11", [("defer", mix(DEFER, handler=0.8), 8, 24), ("defer-hier", mix(HIER, DEFER, handler=0.8), 6, 18),
             ("defer-reg", mix(REG, DEFER), 4, 12), ("defer-anon", mix(DEFER, ANON, defer=0.25, anon=0.2), 3, 9),
             ("defer-crowd", mix(CROWD, defer=0.25, same=0.4), 1, 6), ("defer-manyev", mix(MANYEV, defer=0.2), 1, 4), ("defer-hist", mix(HIST, DEFER, defer=0.15), 2, 6),
             ("defer-pseudo", mix(PSEUDO, DEFER, defer=0.2), 3, 9)],
     ["ops=5000", "ops=300 rounds=12 seed=3"], ["deferred", "recalled", "redeferred", "recalledUnexpected", "recalledRejected"])
prop("C12", [("data", mix(HIER, shared=0.7, actions=0.9, entry=0.5, exit=0.5, forms=ALLF), 9, 24),
             ("data-deep", mix(DEEP, shared=0.7, actions=0.9, entry=0.5), 4, 12),
             ("data-reg", mix(REGHIER, shared=0.6, actions=0.9), 4, 12),
             ("data-int", mix(HIER, INTERNAL, shared=0.5, actions=0.9, handler=1.0), 4, 12),
             ("data-regsub", mix(REGSUB, shared=0.3, actions=0.9), 2, 6)],
     ["ops=5000", "ops=300 rounds=10 seed=3"], ["taken"])
prop("C13", [("custom", CUSTOM, 10, 30), ("custom-hier", mix(HIER, CUSTOM, comps=1), 6, 18),
             ("custom-reg", mix(REG, CUSTOM), 4, 12), ("custom-defer", mix(CUSTOM, DEFER, defer=0.15), 2, 8)],
     ["ops=4000 recreate=5", "ops=250 rounds=16 seed=3"], ["factory", "reuse"])
prop("C14", [("deps", mix(FLAT, DEPS, forms=ALLF), 7, 20), ("deps-hier", mix(HIER, DEPS, forms=ALLF), 6, 18),
             ("deps-int", mix(HIER, DEPS, INTERNAL), 4, 10), ("deps-reg", mix(REG, DEPS), 3, 8),
             ("deps-anon", mix(ANON, DEPS), 2, 6), ("deps1", mix(FLAT, DEPS, deps=1), 2, 6)],
     ["ops=4000 rebind=10", "ops=300 rounds=10 seed=3 rebind=4 move=3"], ["rebinds", "callbacks"])
prop("C15", everything(10, 24, deps=(1, 2), rows=(8, 10)), [], ["taken"], flavor="tsan", special="threads")
prop("C16", everything(20, 50), ["ops=3000 recreate=10 cfail=8", "ops=200 rounds=20 seed=3 move=6 rebind=3 exc=1 cfail=5"], ["taken", "entered"],
     flavor="asan-noalloc", special="memory")
prop("C17", [("notes", mix(FLAT, ANON, notations=ALLN, forms=ALLF, anon=0.2, deps=(0, 2)), 8, 24),
             ("notes-hier", mix(HIER, notations=ALLN, forms=ALLF, pseudo=0.3, history=0.15, anon=0.15), 9, 24),
             ("notes-twin", mix(FLAT, same=0.8, chain=0.7, guards=0.8, forms=("GV",), notations=ALLN, deps=(0, 1)), 2, 6),
             ("notes-int", mix(HIER, INTERNAL, notations=ALLN, forms=ALLF), 4, 10),
             ("notes-log", mix(HIER, notations=ALLN, forms=ALLF, logs=0.5), 2, 6), ("notes-reg", mix(REG, notations=ALLN, forms=ALLF), 3, 8)],
     ["ops=4000"], ["taken", "rejected"])
prop("C18", everything(22, 60) + [("log", mix(HIER, notations=ALLN, forms=ALLF, logs=0.5), 2, 6)], ["ops=4000"], ["taken"], flavor="amalgam", special="amalgam")
prop("C19", [("set-wide", mix(WIDE, query=True, set=True), 1, 3), ("set-reg9", mix(REG9, query=True, set=True), 1, 3), ("set", mix(FLAT, query=True, set=True), 4, 12), ("set-hier", mix(HIER, query=True, set=True), 6, 18),
             ("set-reg", mix(REG, query=True, set=True), 5, 14), ("set-regsub", mix(REGSUB, query=True, set=True), 4, 10),
             ("set-mix", mix(HIER, query=True, set=True, anon=0.15, defer=0.1, internal=(1, 3), handler=0.8), 3, 9),
             ("set-hist", mix(HIST, query=True, set=True), 2, 6),
             ("set-reghier", mix(REGHIER, query=True, set=True), 5, 14)],
     ["ops=2500 query=2 set=12", "ops=1500 query=2 seed=3"], ["sets", "rejected_sets", "queries", "status_texts"])
prop("C20", [("exc", mix(FLAT, DEFER, entry=0.5, exit=0.5, defer=0.15), 5, 14), ("exc-hier", mix(HIER, entry=0.6, exit=0.6, pseudo=0.2), 6, 16),
             ("exc-reg", mix(REGHIER, entry=0.5, exit=0.5), 4, 12), ("exc-anon", mix(HIER, ANON, entry=0.4, exit=0.4), 3, 8),
             ("exc-custom", mix(CUSTOM, entry=0.4, exit=0.4), 3, 8), ("exc-defer", mix(HIER, DEFER, ANON, anon=0.15, defer=0.2, handler=1.0), 3, 8), ("exc-hist", mix(HISTREG, entry=0.4, exit=0.4), 2, 6),
             ("exc-int", mix(INTERNAL, HIER), 2, 6)],
     ["ops=4000 exc=1", "ops=300 rounds=12 seed=3 exc=1 move=3 rebind=2 cfail=10"], ["exceptions", "thrownGuard", "thrownAction"])
prop("C21", everything(24, 60), ["ops=2500 move=15", "ops=1500 move=10 rebind=5 seed=3"], ["moves"])
prop("C22", everything(20, 50), ["ops=14000 mem=1 rebind=4 cfail=2", "ops=9000 mem=1 seed=3", "ops=70000 mem=1 query=0 seed=5 every=5"], ["memory_samples", "deferred"])
prop("C24", [("log", mix(FLAT, ANON, INTERNAL, anon=0.15, internal=(1, 3), logs=0.8, deps=(0, 2), notations=ALLN, forms=ALLF, handler=0.6), 6, 18),
             ("log-hier", mix(HIER, ANON, pseudo=0.3, anon=0.15, logs=0.8, deps=(0, 2)), 7, 20),
             ("log-reg", mix(REGHIER, logs=0.8), 3, 8), ("log-defer", mix(HIER, DEFER, defer=0.12, logs=0.8), 2, 8),
             ("log-hist", mix(HISTREG, logs=0.8), 2, 6)] + everything(6, 18, logs=0.6),
     ["ops=3000", "ops=300 rounds=10 seed=3 exc=1 move=3 rebind=3"], ["logged", "taken", "rejected"])

# every property also on machines that combine all features
for _pid in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17", "C19", "C20"):
    PROPS[_pid]["machines"] += everything(6, 18, **(dict(query=True, set=True) if _pid == "C19" else dict(entry=0.5, exit=0.5) if _pid in ("C04", "C20") else {}))
for _pid in ("C03", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13"):
    PROPS[_pid]["runs"].append("ops=1500 set=6 move=3 rebind=3 seed=13 every=3")

# machines that run for long: counters of 16 bits wrap
for _pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17"):
    PROPS[_pid]["runs"].append("ops=70000 query=0 seed=11 every=7")
PROPS["C14"]["runs"].append("ops=70000 query=0 rebind=5 seed=11 every=6")
PROPS["C19"]["runs"].append("ops=70000 query=0 set=5 seed=11 every=9")
PROPS["C20"]["runs"].append("ops=70000 query=0 exc=1 seed=11 every=9")
PROPS["C21"]["runs"].append("ops=70000 query=0 move=2 seed=11 every=9")
