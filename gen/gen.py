#!/usr/bin/env python3
"""Seeded generator of state machine definitions.

Every machine is emitted twice in one translation unit: as a machine written with the library's front
end, and as plain data tables for the reference interpreter (lib/ref.h).
"""
import random

NONE = -1
LOG = 100000  # the action hsm::log
ALL_NOTATIONS = ("post", "pre", "tuple")
ALL_FORMS = ("G", "GV", "L", "F")

DEFAULT = dict(
    states=(4, 7), events=(3, 4), rows=(8, 13),
    comps=0, depth=1,            # number of sub machines, nesting depth
    root_regions=1, sub_regions=1,
    guards=0.5, actions=0.6, chain=0.3, entry=0.3, exit=0.3,
    anon=0.0, internal=0, defer=0.0, custom=0, deps=0, handler=0.4,
    pseudo=0.0, history=0.0, shared=0.15, compsrc=0.35, same=0.35, selfp=0.1,
    notations=("post",), forms=("G",), tuple_initial=False,
    query=False, set=False, silent=0.15,
    maxsame=3, maxchain=3, derived=0.3, kinds=0.4, depkind=("own", "own", "same", "const"),
    logs=0.0,                    # rows that log the transition
    isame=0.4,                   # internal rows that compete with each other
    twin=0.4,                    # competing rows that differ in nothing but the values of guards and actions
)


class Row:
    __slots__ = ("parent", "srcKind", "srcParent", "src", "ev", "guard", "actKind", "acts", "tgtKind",
                 "tgtParent", "tgt", "initial", "gform", "aforms", "notation", "chained")


class IRow:
    __slots__ = ("owner", "comp", "ev", "guard", "acts", "gform", "aforms", "notation")


class Comp:
    def __init__(self, idx, enclosing, depth):
        self.idx, self.enclosing, self.depth = idx, enclosing, depth
        self.states = []
        self.regions = []  # partition of the states
        self.init = []
        self.entry = self.exit = False


class Machine:
    def __init__(self, name, rng, **kw):
        self.name = name
        self.rng = rng
        self.p = dict(DEFAULT)
        self.p.update(kw)
        self.nextGuard = self.nextAction = 0
        self.build()

    # ------------------------------------------------------------------ structure
    def pick(self, r):
        return r if isinstance(r, int) else self.rng.randint(*r)

    def chance(self, x):
        return self.rng.random() < x

    def build(self):
        p, rng = self.p, self.rng
        while True:
            self.nextGuard = self.nextAction = 0
            self.nEvents = self.pick(p["events"])
            nc = self.pick(p["comps"])
            self.comps = [Comp(0, -1, 0)]
            for i in range(1, nc + 1):
                cands = [c for c in self.comps if c.depth < p["depth"]]
                enc = rng.choice(cands)
                # prefer deep nesting now and then
                if self.chance(0.5):
                    enc = max(cands, key=lambda c: c.depth)
                if i == 1:
                    enc = self.comps[0]
                self.comps.append(Comp(i, enc.idx, enc.depth + 1))
            rr = self.pick(p["root_regions"])
            self.regionCount = [rr] + [1] * nc
            if rr == 1 and nc:
                leaf1 = [c.idx for c in self.comps[1:] if c.depth == 1 and not any(
                    k.enclosing == c.idx for k in self.comps)]
                sr = self.pick(p["sub_regions"])
                if sr > 1 and leaf1 and all(c.depth <= 1 for c in self.comps):
                    self.regionCount[rng.choice(leaf1)] = sr
                    for c in leaf1:
                        if self.chance(0.3):
                            self.regionCount[c] = self.pick(p["sub_regions"])
            self.maxRegions = max(self.regionCount)
            self.nCustom = self.pick(p["custom"])
            nPlain = max(self.pick(p["states"]), 2)
            need = sum(self.regionCount) + self.nCustom + 1
            nPlain = max(nPlain, need)
            self.nStates = nPlain
            self.custom = [False] * nPlain
            if self.nCustom:
                for s in range(nPlain - self.nCustom, nPlain):
                    self.custom[s] = True
            # distribute the states: one initial state per region first
            ids = list(range(nPlain))
            it = iter(ids)
            for c in self.comps:
                c.regions = []
                for r in range(self.regionCount[c.idx]):
                    s = next(it)
                    c.regions.append([s])
            for s in it:
                c = self.comps[0] if self.custom[s] and self.chance(0.7) else rng.choice(self.comps)
                rng.choice(c.regions).append(s)
            # shared states: one type used in several machines or regions
            for c in self.comps:
                for reg in c.regions:
                    if self.chance(p["shared"]):
                        o = rng.randrange(nPlain)
                        if o not in reg:
                            reg.append(o)
            for c in self.comps:
                c.states = [s for reg in c.regions for s in reg]
                c.init = [reg[0] for reg in c.regions]
                c.entry = self.chance(p["entry"])
                c.exit = self.chance(p["exit"])
            if any(len(set(c.init)) != len(c.init) for c in self.comps):
                continue
            if any(self.custom[s] for c in self.comps for s in c.init):
                continue
            self.comps[0].entry = self.comps[0].exit = False
            self.nDeps = 0 if self.nCustom else self.pick(p["deps"])
            self.handler = self.chance(p["handler"])
            self.sEntry = [self.chance(p["entry"]) for _ in range(nPlain)]
            self.sExit = [self.chance(p["exit"]) for _ in range(nPlain)]
            # initial states of additional regions of sub machines have no entry action
            for c in self.comps[1:]:
                for s in c.init[1:]:
                    self.sEntry[s] = False
            self.defer = [0] * nPlain
            for s in range(nPlain):
                for e in range(self.nEvents):
                    if self.chance(p["defer"]):
                        self.defer[s] |= 1 << e
            self.depKind = rng.choice(p["depkind"])
            self.derive = {}      # state or sub machine -> state it is derived from
            self.deriveEv = {}
            self.rows = []
            self.irows = []
            if self.fillRows() and self.fillInternal() and self.check():
                break
        for r in self.rows + self.irows:
            if isinstance(r, Row) and r.actKind != "NORMAL" or len(r.acts) > 5 or not p["logs"] or not self.chance(p["logs"]):
                continue
            # the first action of a guarded anonymous row ends its loops
            at = rng.randint(1 if r.ev == NONE and r.guard >= 0 and r.acts else 0, len(r.acts))
            r.acts.insert(at, LOG)
            r.aforms.insert(at, "G")

    def multi(self, c):
        return c > 0 and self.regionCount[c] > 1

    def regionOf(self, c, s):
        for i, reg in enumerate(self.comps[c].regions):
            if s in reg:
                return i
        return 0

    def leaf(self, c):
        return not any(k.enclosing == c for k in self.comps)

    def children(self, c):
        return [k.idx for k in self.comps if k.enclosing == c]

    def newGuard(self):
        self.nextGuard += 1
        return self.nextGuard - 1

    def newActs(self, n):
        r = list(range(self.nextAction, self.nextAction + n))
        self.nextAction += n
        return r

    # declaring table of own rows for (comp, state, event)
    def ownTables(self, c, s, e):
        t = set()
        for r in self.rows:
            if r.ev == e and r.src == s:
                if r.srcKind == "PLAIN" and r.parent == c and r.src < self.nStates:
                    t.add(r.parent)
                elif r.srcKind != "PLAIN" and r.srcParent == c:
                    t.add(r.parent)
        return t

    def compRowsOn(self, c, e):
        """rows whose source is the sub machine c"""
        return [r for r in self.rows if r.srcKind == "PLAIN" and r.src == self.nStates + c and r.ev == e]

    def ancestors(self, c):
        out = []
        while c > 0:
            out.append(c)
            c = self.comps[c].enclosing
        return out

    def legal(self, r):
        if r.srcKind != "PLAIN":
            if self.multi(r.srcParent) and self.regionOf(r.srcParent, r.src) != 0:
                return False
            if self.multi(r.srcParent) and sum(r.src in reg for reg in self.comps[r.srcParent].regions) > 1:
                return False
            if self.ownTables(r.srcParent, r.src, r.ev) - {r.parent}:
                return False
            if self.custom[r.src]:
                return False
        elif r.src < self.nStates:
            if self.ownTables(r.parent, r.src, r.ev) - {r.parent}:
                return False
            # inside of a sub machine with several regions nothing competes with leaving it
            if self.multi(r.parent) and (self.compRowsOn(r.parent, r.ev) or r.ev == NONE):
                return False
            if self.multi(r.parent) and any(
                    q.srcKind != "PLAIN" and q.srcParent == r.parent and q.ev == r.ev for q in self.rows):
                return False
        else:
            c = r.src - self.nStates
            if self.multi(c) and any(q.ev == r.ev and (
                    (q.srcKind == "PLAIN" and q.parent == c) or (q.srcKind != "PLAIN" and q.srcParent == c))
                    for q in self.rows):
                return False
        if r.srcKind != "PLAIN" and self.multi(r.srcParent):
            if self.compRowsOn(r.srcParent, r.ev):
                return False
            if any(q.srcKind == "PLAIN" and q.parent == r.srcParent and q.ev == r.ev for q in self.rows):
                return False
        if r.tgtKind in ("ENTRY", "DIRECT"):
            if self.regionOf(r.tgtParent, r.tgt) != 0 or self.custom[r.tgt]:
                return False
            if self.multi(r.tgtParent) and any(r.tgt in reg for reg in self.comps[r.tgtParent].regions[1:]):
                return False
        if r.tgtKind == "HISTORY" and not self.leaf(r.tgtParent):
            return False
        if r.tgtKind == "HISTORY" and any(self.custom[s] for s in self.comps[r.tgtParent].states):
            return False
        if r.ev == NONE:
            if r.guard < 0:
                # cannot form a cycle
                if not (r.srcKind == "PLAIN" and r.src < self.nStates and r.tgtKind == "PLAIN"
                        and r.src < r.tgt):
                    return False
            if r.tgtKind == "PLAIN" and self.custom[r.tgt]:
                return False
            if r.srcKind == "PLAIN" and r.src < self.nStates and self.custom[r.src]:
                return False
            if r.tgtKind == "PLAIN" and r.src == r.tgt and r.guard < 0:
                return False
        if r.tgtKind == "PLAIN" and self.custom[r.tgt] and r.guard >= 0 and r.src != r.tgt:
            return False
        return True

    def makeRow(self, c, src, forceTgt=None, event=None):
        p, rng = self.p, self.rng
        r = Row()
        r.parent, r.initial = c, False
        r.srcKind, r.srcParent, r.src = "PLAIN", 0, src
        comp = self.comps[c]
        isPlain = src is not None and src < self.nStates
        kids = self.children(c)
        # pseudo source
        if src is None:
            k = rng.choice(kids)
            r.srcKind = rng.choice(["EXIT", "EXIT", "DIRECT"])
            r.srcParent = k
            r.src = rng.choice(self.comps[k].states)
        r.ev = rng.randrange(self.nEvents) if event is None else event
        if event is None and self.nEvents > 10 and self.chance(0.7):
            used = {x.ev for x in self.rows}
            r.ev = rng.choice([e for e in range(self.nEvents) if e not in used] or [r.ev])
        anon = event is None and self.chance(p["anon"])
        if anon:
            r.ev = NONE
        # target
        r.tgtParent = 0
        x = rng.random()
        if forceTgt is not None:
            kind, tp, t = forceTgt
            r.tgtKind, r.tgtParent, r.tgt = kind, tp, t
        elif kids and x < 0.45:
            k = rng.choice(kids)
            if x < p["history"] * 0.45:
                r.tgtKind, r.tgtParent, r.tgt = "HISTORY", k, self.comps[k].init[0]
            elif x < (p["history"] + p["pseudo"]) * 0.45:
                r.tgtKind = rng.choice(["ENTRY", "DIRECT"])
                r.tgtParent, r.tgt = k, rng.choice(self.comps[k].states)
            else:
                r.tgtKind, r.tgtParent, r.tgt = "COMPOSITE", k, self.nStates + k
        else:
            pool = comp.states
            if isPlain and len(comp.regions) > 1 and (c > 0 or self.chance(0.85)):
                pool = comp.regions[self.regionOf(c, src)]
            t = rng.choice(pool)
            if isPlain and t == src and not self.chance(p["selfp"]):
                t = rng.choice(pool)
            r.tgtKind, r.tgt = "PLAIN", t
        # guard, actions
        r.guard = -1
        needGuard = anon and not (isPlain and r.tgtKind == "PLAIN" and r.src < r.tgt and self.chance(0.4))
        wantGuard = needGuard or self.chance(p["guards"])
        toCustom = r.tgtKind == "PLAIN" and self.custom[r.tgt]
        if toCustom and r.src != r.tgt:
            wantGuard = False
        if wantGuard:
            r.guard = self.newGuard()
        r.actKind = "NORMAL"
        r.chained = False
        n = 0
        if toCustom:
            y = rng.random()
            if y < 0.5:
                r.actKind, n = "FACTORY", 1
            elif y < 0.8:
                r.actKind, n = "REUSE", 1
        else:
            if self.chance(p["actions"]):
                n = 1
                if self.chance(p["chain"]):
                    n = rng.randint(1, p["maxchain"])
                    r.chained = True
            if anon and r.guard >= 0 and n == 0:
                n = 1
        r.acts = self.newActs(n)
        # notation
        notes = list(p["notations"])
        r.notation = rng.choice(notes)
        plain2plain = (r.srcKind == "PLAIN" and isPlain and r.tgtKind == "PLAIN" and not toCustom
                       and not self.custom[r.src])
        gf = [f for f in p["forms"] if f != "F" or plain2plain]
        r.gform = rng.choice(gf or ["G"])
        r.aforms = [rng.choice(gf or ["G"]) for _ in r.acts]
        if r.actKind == "FACTORY":
            r.aforms = ["G"]
        return r

    def twin(self, r, x):
        """make r a row of the very same types as x, the stored values are all that differs"""
        r.tgtKind, r.tgtParent, r.tgt = x.tgtKind, x.tgtParent, x.tgt
        r.actKind, r.chained = "NORMAL", x.chained
        if r.guard < 0 and x.guard >= 0:
            r.guard = self.newGuard()
        if not x.acts and self.p["actions"]:
            x.acts = self.newActs(1)
        if not x.chained and self.chance(self.p["chain"]):
            x.chained = r.chained = True
        r.acts = self.newActs(len(x.acts))
        form = "GV" if "GV" in self.p["forms"] else "G"
        r.gform = x.gform = form
        r.aforms = [form for _ in r.acts]
        x.aforms = [form for _ in x.acts]

    def add(self, r):
        p = self.p
        if r is None or not self.legal(r):
            return False
        # not too many rows with the same source and event in one table
        same = [q for q in self.rows if q.src == r.src and q.ev == r.ev and q.parent == r.parent
                and q.srcKind == r.srcKind]
        if len(same) >= p["maxsame"]:
            return False
        if any(q.tgtKind == r.tgtKind and q.tgt == r.tgt and q.srcParent == r.srcParent and q.guard < 0
               and r.guard < 0 and not q.acts and not r.acts for q in same):
            return False
        self.rows.append(r)
        return True

    def fillRows(self):
        p, rng = self.p, self.rng
        target = self.pick(p["rows"])
        perComp = {c.idx: [] for c in self.comps}
        start = len(self.rows)
        # connectivity: each state of a region is reachable, each initial state has a row
        for c in self.comps:
            for reg in c.regions:
                known = [reg[0]]
                for s in reg[1:]:
                    for _ in range(30):
                        src = rng.choice(known)
                        if self.custom[src] and self.chance(0.5):
                            continue
                        ev = rng.randrange(self.nEvents)
                        r = self.makeRow(c.idx, src, ("PLAIN", 0, s), event=ev)
                        if self.custom[s] and r.actKind != "FACTORY":
                            continue
                        if self.add(r):
                            break
                    else:
                        return False
                    known.append(s)
                # a way back
                if len(reg) > 1:
                    for _ in range(30):
                        r = self.makeRow(c.idx, rng.choice(reg[1:]), ("PLAIN", 0, reg[0]),
                                         event=rng.randrange(self.nEvents))
                        if self.add(r):
                            break
                else:
                    for _ in range(30):
                        r = self.makeRow(c.idx, reg[0], event=rng.randrange(self.nEvents))
                        if self.add(r):
                            break
                    else:
                        return False
            # each sub machine is entered and left
            for k in self.children(c.idx):
                for _ in range(30):
                    src = rng.choice([s for s in c.states if not self.custom[s]])
                    kind = "COMPOSITE"
                    if p["history"] and self.chance(0.2) and self.leaf(k):
                        kind = "HISTORY"
                    t = self.nStates + k if kind == "COMPOSITE" else self.comps[k].init[0]
                    if self.add(self.makeRow(c.idx, src, (kind, k, t), event=rng.randrange(self.nEvents))):
                        break
                else:
                    return False
                if p["history"] and self.leaf(k):
                    for _ in range(10):
                        src = rng.choice([s for s in c.states if not self.custom[s]])
                        if self.add(self.makeRow(c.idx, src, ("HISTORY", k, self.comps[k].init[0]),
                                                 event=rng.randrange(self.nEvents))):
                            break
                for _ in range(30):
                    r = self.makeRow(c.idx, self.nStates + k, event=rng.randrange(self.nEvents))
                    if r.tgtKind == "PLAIN" and not self.custom[r.tgt] and self.add(r):
                        break
                else:
                    return False
        tries = 0
        while len(self.rows) - start < target and tries < 200:
            tries += 1
            c = rng.choice(self.comps)
            kids = self.children(c.idx)
            if kids and self.chance(p["pseudo"]):
                src = None
            elif kids and self.chance(p["compsrc"]):
                src = self.nStates + rng.choice(kids)
            else:
                src = rng.choice(c.states)
            r = self.makeRow(c.idx, src)
            # compete with an existing row
            if self.chance(p["same"]) and r.ev != NONE:
                q = [x for x in self.rows if x.parent == c.idx and x.srcKind == "PLAIN" and x.ev != NONE]
                if q:
                    x = rng.choice(q)
                    r = self.makeRow(c.idx, x.src, event=x.ev)
                    if self.chance(p["twin"]) and x.actKind == "NORMAL":
                        self.twin(r, x)
            self.add(r)
        rng.shuffle(self.rows)
        # unguarded rows shadow everything declared before them: move most of them to the front
        self.rows.sort(key=lambda r: (r.parent, 0 if r.guard < 0 and rng.random() < 0.8 else 1))
        # initial states are marked at their first row, in region order
        for c in self.comps:
            own = [r for r in self.rows if r.parent == c.idx]
            firsts = []
            for s in c.init:
                f = next((r for r in own if r.srcKind == "PLAIN" and r.src == s), None)
                if f is None:
                    return False
                firsts.append(f)
            for f in firsts:
                f.initial = True
            # regions are numbered in the order of the marked rows
            order = sorted(range(len(firsts)), key=lambda i: own.index(firsts[i]))
            c.regions = [c.regions[i] for i in order]
            c.init = [c.init[i] for i in order]
        for c in self.comps[1:]:
            for s in c.init[1:]:
                self.sEntry[s] = False
        return len(self.rows) <= 90

    def fillInternal(self):
        p, rng = self.p, self.rng
        n = self.pick(p["internal"])
        rootInit = set(self.comps[0].init)
        tries = 0
        while len(self.irows) < n and tries < 100:
            tries += 1
            r = IRow()
            r.owner = r.comp = -1
            if self.chance(0.5):
                r.comp = rng.choice(self.comps).idx
            else:
                cand = [s for s in range(self.nStates) if s not in rootInit]
                if not cand:
                    continue
                r.owner = rng.choice(cand)
            r.ev = rng.randrange(self.nEvents)
            if self.irows and self.chance(p["isame"]):
                # compete with an existing row
                x = rng.choice(self.irows)
                r.owner, r.comp, r.ev = x.owner, x.comp, x.ev
            if not self.internalLegal(r):
                continue
            r.guard = self.newGuard() if self.chance(max(p["guards"], 0.4)) else -1
            k = rng.choice([0, 1, 1, 1, 2]) if self.chance(p["actions"] + 0.3) else 0
            r.acts = self.newActs(k)
            forms = [f for f in p["forms"] if f in ("G", "GV", "L")] or ["G"]
            r.gform = rng.choice(forms)
            r.aforms = [rng.choice(forms) for _ in r.acts]
            r.notation = "tuple" if "tuple" in p["notations"] and self.chance(0.3) else "post"
            self.irows.append(r)
        return True

    def internalScope(self, r):
        """(comp, state) pairs an internal row applies to"""
        if r.owner >= 0:
            return [(c.idx, r.owner) for c in self.comps if r.owner in self.mentioned(c.idx)]
        return [(r.comp, s) for s in self.mentioned(r.comp)]

    def mentioned(self, c):
        out = []
        for r in self.rows:
            if r.srcKind == "PLAIN":
                if r.parent == c and r.src < self.nStates and r.src not in out:
                    out.append(r.src)
            elif r.srcParent == c and r.src not in out:
                out.append(r.src)
            if r.tgtKind == "PLAIN" and r.parent == c and r.tgt not in out:
                out.append(r.tgt)
            if r.tgtKind in ("ENTRY", "DIRECT") and r.tgtParent == c and r.tgt not in out:
                out.append(r.tgt)
        return out

    def internalLegal(self, r):
        scope = self.internalScope(r)
        if not scope:
            return False
        for c, s in scope:
            for a in self.ancestors(c):
                if self.compRowsOn(a, r.ev):
                    return False
            if self.multi(c):
                if any(q.srcKind != "PLAIN" and q.srcParent == c and q.ev == r.ev for q in self.rows):
                    return False
            for q in self.irows:
                if q.ev != r.ev:
                    continue
                if (q.owner >= 0) != (r.owner >= 0) and set(self.internalScope(q)) & set(scope):
                    return False
                if q.owner >= 0 and r.owner >= 0 and q.owner != r.owner:
                    continue
        return True

    def check(self):
        # a state that is only mentioned by pseudo states of the enclosing table is not part of the machine
        for c in self.comps:
            inTable = set()
            for r in self.rows:
                if r.parent == c.idx:
                    if r.srcKind == "PLAIN" and r.src < self.nStates:
                        inTable.add(r.src)
                    if r.tgtKind == "PLAIN":
                        inTable.add(r.tgt)
            if set(c.states) - inTable or set(self.mentioned(c.idx)) - inTable:
                return False
        used = {r.ev for r in self.rows} | {r.ev for r in self.irows}
        if any(e not in used for e in range(self.nEvents)):
            return False
        if self.nextGuard > 250:
            return False
        for r in self.rows:
            if not self.legalFinal(r):
                return False
        return True

    def legalFinal(self, r):
        saved = self.rows
        self.rows = [q for q in saved if q is not r]
        try:
            return self.legal(r)
        finally:
            self.rows = saved

    def pickDerived(self):
        """types that are derived from each other are still different states and events"""
        p, rng = self.p, self.rng
        owners = {r.owner for r in self.irows}
        plain = [s for s in range(self.nStates) if not (self.custom[s] or self.sEntry[s] or self.sExit[s]
                                                        or self.defer[s] or s in owners)]
        for s in range(self.nStates + len(self.comps)):
            base = [b for b in plain if b < s]
            if base and not (s < self.nStates and self.custom[s]) and self.chance(p["derived"]):
                self.derive[s] = rng.choice(base)
        for e in range(1, self.nEvents):
            if self.chance(p["derived"]):
                self.deriveEv[e] = rng.randrange(e)

    # ------------------------------------------------------------------ how much of it can be exercised
    def quality(self):
        """static estimate: rows that can be taken, configurations from which the start can be reached again"""
        live, edges = set(), {}
        todo = [(0, s) for s in self.comps[0].init]
        start = list(todo)
        seen = set(todo)
        recallable = set()

        def targets(r):
            if r.tgtKind == "PLAIN":
                return [(r.parent, r.tgt)]
            if r.tgtKind == "COMPOSITE":
                return [(r.tgtParent, s) for s in self.comps[r.tgtParent].init]
            return [(r.tgtParent, r.tgt)]

        def candidates(c, s, e):
            out = [r for r in self.rows if r.ev == e and r.src == s and (
                (r.srcKind == "PLAIN" and r.parent == c) or (r.srcKind != "PLAIN" and r.srcParent == c))][::-1]
            ext = len(out)
            if not any(r.guard < 0 for r in out):
                out += [r for r in self.irows if r.ev == e and (r.owner == s or (r.owner < 0 and r.comp == c))][::-1]
            for a in self.ancestors(c):
                out += self.compRowsOn(a, e)[::-1]
            k = next((i for i, r in enumerate(out) if r.guard < 0), len(out) - 1)
            return out[:k + 1]

        while todo:
            c, s = todo.pop()
            evs = [NONE] + list(range(self.nEvents))
            if any(r.guard < 0 for r in candidates(c, s, NONE)):
                evs = [NONE]
            nxt = edges.setdefault((c, s), set())
            for e in evs:
                if e >= 0 and self.defer[s] >> e & 1:
                    continue
                for r in candidates(c, s, e):
                    live.add(r)
                    if isinstance(r, IRow):
                        continue
                    for t in targets(r):
                        nxt.add(t)
                        if t not in seen:
                            seen.add(t)
                            todo.append(t)
                        for d in range(self.nEvents):
                            if self.defer[s] >> d & 1 and not self.defer[t[1]] >> d & 1:
                                recallable.add((s, d, bool(candidates(t[0], t[1], d))))
        # configurations from which an initial state can be reached again
        back = set(start)
        while True:
            more = {x for x, n in edges.items() if x not in back and n & back}
            if not more:
                break
            back |= more
        total = len(self.rows) + len(self.irows)
        score = 2.0 * len(live) / total + 1.5 * len(back & seen) / len(seen)
        p = self.p

        def feature(x, n, want=2):
            return 0.6 * min(n, want) / want if x else 0
        ext = [r for r in live if isinstance(r, Row)]
        score += feature(p["anon"], sum(r.ev == NONE for r in ext))
        score += feature(p["pseudo"], sum(r.tgtKind in ("ENTRY", "DIRECT") for r in ext))
        score += feature(p["pseudo"], sum(r.srcKind == "EXIT" for r in ext))
        score += feature(p["pseudo"], sum(r.srcKind == "DIRECT" for r in ext), 1)
        score += feature(p["history"], sum(r.tgtKind == "HISTORY" for r in ext))
        score += feature(p["custom"], sum(r.actKind == "FACTORY" for r in ext))
        score += feature(p["custom"], sum(r.actKind == "REUSE" for r in ext), 1)
        score += feature(p["internal"], sum(isinstance(r, IRow) for r in live), 3)
        score += feature(p["defer"], sum(x[2] for x in recallable), 3)
        score += feature(p["defer"], sum(not x[2] for x in recallable), 1)
        score += feature(p["comps"], sum(r.src >= self.nStates for r in ext))
        return score

    # ------------------------------------------------------------------ output
    def st(self, s):
        return f"hsm::state<S{s}>" if s < self.nStates else f"hsm::state<C{s - self.nStates}>"

    def typ(self, s):
        return f"S{s}" if s < self.nStates else f"C{s - self.nStates}"

    def gtext(self, r, srcT=None, tgtT=None):
        g, f = r.guard, r.gform
        if f == "GV":
            return f"hx::GV {{ {g} }}"
        if f == "L":
            return (f"[](auto& e, auto& s, auto& t, auto&... d) {{ return hx::cb(hx::K_GUARD, {g}, false, e, s, t, d...); }}")
        if f == "F":
            return f"&gf<{g}, {self.evT(r.ev)}, {srcT}, {tgtT}{self.depT()}>"
        return f"hx::G<{g}> {{}}"

    def evT(self, e):
        return "hsm::noneEvent" if e == NONE else f"E{e}"

    def depT(self):
        k = {"own": "hx::Dep{}", "same": "hx::DepBase", "const": "const hx::Dep{}"}[self.depKind]
        return "".join(", " + k.format(i) for i in range(self.nDeps))

    def atext(self, a, f, touch, r, srcT=None, tgtT=None):
        if a == LOG:
            return "hsm::log"
        if not touch:
            if f == "L":
                return f"[](auto& e, auto& s, auto& t, auto&... d) {{ hx::cb(hx::K_ACTION, {a}, false, e, s, t, d...); }}"
            return f"hx::AW {{ {a} }}"
        if f == "GV":
            return f"hx::AV {{ {a} }}"
        if f == "L":
            return f"[](auto& e, auto& s, auto& t, auto&... d) {{ hx::cb(hx::K_ACTION, {a}, true, e, s, t, d...); }}"
        if f == "F":
            return f"&af<{a}, {self.evT(r.ev)}, {srcT}, {tgtT}{self.depT()}>"
        return f"hx::A<{a}> {{}}"

    def rowText(self, r):
        srcT = self.typ(r.src)
        if r.srcKind == "PLAIN":
            src = self.st(r.src)
        else:
            src = f"hsm::{r.srcKind.lower()}<C{r.srcParent}, S{r.src}>"
        if r.tgtKind == "PLAIN":
            tgt, tgtT = f"hsm::state<S{r.tgt}>", f"S{r.tgt}"
        elif r.tgtKind == "COMPOSITE":
            tgt, tgtT = f"hsm::state<C{r.tgtParent}>", None
        elif r.tgtKind == "HISTORY":
            tgt, tgtT = f"hsm::history<C{r.tgtParent}>", None
        else:
            tgt, tgtT = f"hsm::{r.tgtKind.lower()}<C{r.tgtParent}, S{r.tgt}>", None
        g = self.gtext(r, srcT, tgtT) if r.guard >= 0 else None
        touch = r.tgtKind != "HISTORY"
        a = None
        if r.actKind == "FACTORY":
            a = f"hsm::create_state(hx::Factory<S{r.tgt}> {{ {r.acts[0]} }})"
        elif r.actKind == "REUSE":
            a = f"hsm::reuse_state({self.atext(r.acts[0], r.aforms[0], True, r, srcT, tgtT)})"
        elif len(r.acts) == 1 and not r.chained:
            a = self.atext(r.acts[0], r.aforms[0], touch, r, srcT, tgtT)
        elif r.acts:
            fn = "hsm::chain" if r.acts[0] % 2 else "hsm::chain_actions"
            a = fn + "(" + ", ".join(
                self.atext(x, f, touch, r, srcT, tgtT) for x, f in zip(r.acts, r.aforms)) + ")"
        ev = None if r.ev == NONE else f"hsm::event<E{r.ev}>"
        if r.notation == "tuple":
            if r.initial:
                src = f"hsm::initial<S{r.src}>" if r.src % 2 else f"*{src}"
            return (f"hsm::transition({src}, {ev or 'hsm::none {}'}, {g or 'hsm::noGuard {}'}, "
                    f"{a or 'hsm::noAction {}'}, {tgt})")
        if r.initial:
            if r.srcKind == "PLAIN" and r.src < self.nStates and (r.src + len(r.acts)) % 3 == 0:
                src = f"hsm::initial<S{r.src}>"
            elif ev is None and (g or a):
                src = f"(*{src})"
            else:
                src = f"*{src}"
        left = src
        if ev:
            left += f" + {ev}"
        if g:
            left += f" [{g}]" if not g.startswith("[") else f" [({g})]"
        if a:
            left += f" / {a}"
        if r.notation == "pre":
            return f"{tgt} <= {left}"
        return f"{left} = {tgt}"

    def pickKinds(self):
        """states and events of other than the usual type properties"""
        rng = random.Random(self.name + "/kinds")
        self.kind, self.kindEv = {}, {}
        bases = set(self.derive.values())
        for o in range(self.nStates + len(self.comps)):
            if o not in self.derive and o not in bases and not (o < self.nStates and self.custom[o]):
                if rng.random() < self.p["kinds"]:
                    self.kind[o] = rng.choice(["Triv", "Triv", "Pinned", "Big", "Aligned", "Virtual"])
        bases = set(self.deriveEv.values())
        for e in range(self.nEvents):
            if e not in self.deriveEv and e not in bases and rng.random() < self.p["kinds"]:
                self.kindEv[e] = rng.choice(["Triv", "Triv", "Big"])

    def objHead(self, w, name, o):
        if o in self.kind:
            w(f"struct {name}{' final' if o % 2 else ''} : hx::{self.kind[o]}Obj<{o}> {{")
        elif o in self.derive:
            b = f"S{self.derive[o]}"
            w(f"struct {name} : {b} {{")
            w(f"    {name}() : {b}({o}) {{}}")
            w(f"    explicit {name}(int id) : {b}(id) {{}}")
        else:
            w(f"struct {name} : hx::Obj<{o}> {{")
            if o in self.derive.values():
                w(f"    {name}() = default;")
                w(f"    explicit {name}(int id) : Obj(id) {{}}")

    def irowText(self, r):
        g = self.gtext(r) if r.guard >= 0 else None
        a = None
        if len(r.acts) == 1:
            a = self.atext(r.acts[0], r.aforms[0], True, r)
        elif r.acts:
            a = "hsm::chain(" + ", ".join(self.atext(x, f, True, r) for x, f in zip(r.acts, r.aforms)) + ")"
        ev = f"hsm::event<E{r.ev}>"
        if r.notation == "tuple":
            return f"hsm::internal_transition({ev}, {g or 'hsm::noGuard {}'}, {a or 'hsm::noAction {}'})"
        t = ev
        if g:
            t += f" [{g}]" if not g.startswith("[") else f" [({g})]"
        if a:
            t += f" / {a}"
        return f"+ ({t})"

    def emit(self):
        self.pickDerived()
        self.pickKinds()
        o = []
        w = o.append
        nS = self.nStates
        w(f"// generated: {self.name}")
        w('#include "hx_machine.h"')
        w("namespace {")
        for e in range(self.nEvents):
            if e in self.deriveEv:
                b = f"E{self.deriveEv[e]}"
                w(f"struct E{e} : {b} {{ explicit E{e}(uint64_t s, int id = {e}) : {b}(s, id) {{}} }};")
            elif e in self.deriveEv.values():
                w(f"struct E{e} : hx::Ev<{e}> {{ explicit E{e}(uint64_t s, int id = {e}) : Ev(s, id) {{}} }};")
            else:
                w(f"using E{e} = hx::{self.kindEv.get(e, '')}Ev<{e}>;")
        w("template <int ID, class E, class S, class T, class... D> bool gf(E& e, S& s, T& t, D&... d) { return hx::cb(hx::K_GUARD, ID, false, e, s, t, d...); }")
        w("template <int ID, class E, class S, class T, class... D> void af(E& e, S& s, T& t, D&... d) { hx::cb(hx::K_ACTION, ID, true, e, s, t, d...); }")
        for s in range(nS):
            if self.custom[s]:
                base = "CopyableCustomObj" if s % 2 else "CustomObj"
                w(f"struct S{s} : hx::{base}<{s}> {{")
                w(f"    explicit S{s}(int x) : {base}(x) {{}}")
            else:
                self.objHead(w, f"S{s}", s)
            if self.sEntry[s]:
                w(f"    static constexpr auto on_entry() {{ return hx::Entry {{ {s} }}; }}")
            if self.sExit[s]:
                w(f"    static constexpr auto on_exit() {{ return hx::Exit {{ {s} }}; }}")
            if self.defer[s]:
                ev = ", ".join(f"E{e}" for e in range(self.nEvents) if self.defer[s] >> e & 1)
                w(f"    static constexpr auto defer_events() {{ return hsm::events<{ev}>; }}")
            ir = [r for r in self.irows if r.owner == s]
            if ir:
                w("    static constexpr auto make_internal_transition_table() { return hsm::transition_table(")
                w(",\n".join("        " + self.irowText(r) for r in ir) + "); }")
            w("};")
        for c in sorted(self.comps, key=lambda c: -c.idx):
            self.objHead(w, f"C{c.idx}", nS + c.idx)
            w("    static constexpr auto make_transition_table() { return hsm::transition_table(")
            w(",\n".join("        " + self.rowText(r) for r in self.rows if r.parent == c.idx) + "); }")
            if c.entry:
                w(f"    static constexpr auto on_entry() {{ return hx::Entry {{ {nS + c.idx} }}; }}")
            if c.exit:
                w(f"    static constexpr auto on_exit() {{ return hx::Exit {{ {nS + c.idx} }}; }}")
            ir = [r for r in self.irows if r.comp == c.idx]
            if ir:
                w("    static constexpr auto make_internal_transition_table() { return hsm::transition_table(")
                w(",\n".join("        " + self.irowText(r) for r in ir) + "); }")
            if c.idx == 0 and self.handler:
                w("    static constexpr auto on_unexpected_event() { return hx::Handler {}; }")
            w("};")
        deps = self.depT()[2:]
        sm = f"hsm::sm<C0{', ' + deps if deps else ''}>"
        darg = ", ".join(f"*d.d{i}" for i in range(self.nDeps))
        w(f"using Sm = {sm};")
        w("struct M final : hx::MachineBase<Sm, M> {")
        w(f"    M(uint8_t fill, const hx::DepSet& d) {{ (void)d; h.make(fill{', ' + darg if darg else ''}); }}")
        w("    bool process(int ev, uint64_t serial, bool lvalue) override {")
        w("        switch (ev) {")
        for e in range(self.nEvents):
            w(f"        case {e}: return dispatch<E{e}>(serial, lvalue);")
        w("        default: return false; }")
        w("    }")
        known = [(c.idx, s) for c in self.comps for s in self.mentioned(c.idx)]
        full = known
        if self.p["query"] and len(self.comps) * nS <= 120:
            full = [(c.idx, s) for c in self.comps for s in range(nS)]
        w("    bool is3(int r, int c, int s) override {")
        w(f"        switch (c * {nS} + s) {{")
        for c, s in full:
            w(f"        case {c * nS + s}: return sm().is(static_cast<uint8_t>(r), hsm::state<C{c}>, hsm::state<S{s}>);")
        w("        default: return false; }")
        w("    }")
        if self.p["query"]:
            w(f"    bool is2(int c, int s) override {{ switch (c * {nS} + s) {{")
            for c, s in full:
                w(f"        case {c * nS + s}: return sm().is(hsm::state<C{c}>, hsm::state<S{s}>);")
            w("        default: return false; } }")
            w("    bool is1(int s) override { switch (s) {")
            for s in range(nS):
                w(f"        case {s}: return sm().is(hsm::state<S{s}>);")
            w("        default: return false; } }")
            w("    bool parentIs(int c) override { switch (c) {")
            for c in self.comps:
                w(f"        case {c.idx}: return sm().parent_is(hsm::state<C{c.idx}>);")
            w("        default: return false; } }")
        if self.p["set"]:
            w(f"    void set3(int r, int c, int s) override {{ switch (c * {nS} + s) {{")
            for c, s in known:
                w(f"        case {c * nS + s}: sm().set(static_cast<uint8_t>(r), hsm::state<C{c}>, hsm::state<S{s}>); break;")
            w("        default: break; } }")
            w(f"    void set2(int c, int s) override {{ switch (c * {nS} + s) {{")
            for c, s in known:
                w(f"        case {c * nS + s}: sm().set(hsm::state<C{c}>, hsm::state<S{s}>); break;")
            w("        default: break; } }")
            w("    void set1(int s) override { switch (s) {")
            for c, s in known:
                if c == 0:
                    w(f"        case {s}: sm().set(hsm::state<S{s}>); break;")
            w("        default: break; } }")
        if self.nDeps:
            w(f"    void rebind(const hx::DepSet& d) override {{ sm().set_dependency({darg}); }}")
        else:
            w("    void rebind(const hx::DepSet&) override {}")
        w("};")
        # tables
        T = {"PLAIN": "hx::TGT_PLAIN", "COMPOSITE": "hx::TGT_COMPOSITE", "ENTRY": "hx::TGT_ENTRY",
             "DIRECT": "hx::TGT_DIRECT", "HISTORY": "hx::TGT_HISTORY"}
        S = {"PLAIN": "hx::SRC_PLAIN", "EXIT": "hx::SRC_EXIT", "DIRECT": "hx::SRC_DIRECT"}
        A = {"NORMAL": "hx::ACT_NORMAL", "FACTORY": "hx::ACT_FACTORY", "REUSE": "hx::ACT_REUSE"}
        arr = lambda v, n=6: "{ " + ", ".join(map(str, v + [0] * (n - len(v)))) + " }"
        w("const hx::Row rows[] = {")
        for r in self.rows:
            w(f"    {{ {r.parent}, {S[r.srcKind]}, {r.srcParent}, {r.src}, {r.ev}, {r.guard}, {A[r.actKind]}, "
              f"{len(r.acts)}, {arr(r.acts)}, {T[r.tgtKind]}, {r.tgtParent}, {r.tgt} }},")
        w("};")
        w("const hx::IRow irows[] = {")
        for r in self.irows:
            w(f"    {{ {r.owner}, {r.comp}, {r.ev}, {r.guard}, {len(r.acts)}, {arr(r.acts)} }},")
        w("    { -1, -1, -2, -1, 0, { 0 } } };")
        b = lambda x: "true" if x else "false"
        w("const hx::StateD states[] = {")
        for s in range(nS):
            w(f"    {{ {b(self.sEntry[s])}, {b(self.sExit[s])}, {self.defer[s]}u, {b(self.custom[s])}, {b(self.kind.get(s) == 'Triv')} }},")
        w("};")
        w("const hx::CompD comps[] = {")
        for c in self.comps:
            w(f"    {{ {nS + c.idx}, {c.enclosing}, {len(c.init)}, {arr(c.init, 12)}, {b(c.entry)}, {b(c.exit)}, {b(self.kind.get(nS + c.idx) == 'Triv')} }},")
        w("};")
        types = [f"&typeid({self.typ(o)})" for o in range(nS + len(self.comps))]
        types += ["&typeid(hsm::noneEvent)"] + [f"&typeid(E{e})" for e in range(self.nEvents)]
        w("const std::type_info* const types[] = { " + ", ".join(types) + " };")
        w(f'const hx::MDesc desc = {{ "{self.name}", {nS}, {len(self.comps)}, {self.nEvents}, {self.nDeps}, {sum(1 << e for e, k in self.kindEv.items() if k == "Triv")}u, '
          f'{b(self.handler)}, {b(self.p["query"])}, {b(self.p["set"])}, {len(self.rows)}, rows, {len(self.irows)}, irows, states, comps, types }};')
        w("hx::IMachine* create(uint8_t fill, const hx::DepSet& d) { return new M(fill, d); }")
        w("hx::Registrar reg { { &desc, &create } };")
        w("}")
        return "\n".join(o) + "\n"


def make(name, seed, **kw):
    """the most exercisable of some random machines"""
    best, score = None, -1
    for k in range(20):
        m = Machine(name, random.Random(f"{name}/{seed}/{k}"), **kw)
        q = m.quality()
        if q > score:
            best, score = m, q
    return best


if __name__ == "__main__":
    import sys
    print(make(sys.argv[1], sys.argv[2], **eval("dict(" + (sys.argv[3] if len(sys.argv) > 3 else "") + ")")).emit())
