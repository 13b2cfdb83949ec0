// Reference interpreter: what the declaration of a machine prescribes. Independent of the library.
#pragma once
#include "hx_api.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <set>

namespace hx {

struct RefThrow {};

struct Cand {
    const Row* row = nullptr; // external
    const IRow* irow = nullptr; // internal
    bool viaComposite = false;
    int level = 0;
};

struct Model {
    const MDesc& d;
    int maxRegions = 1;
    bool parallel = false;
    bool hasHistory = false, hasAnon = false, hasDefer = false;
    std::set<int> fuelActions; // first actions of guarded anonymous rows
    std::map<int, std::pair<const Row*, const IRow*>> guardRow;
    // cands[(comp*nStates+state)*(nEvents+1)+ev+1]
    std::vector<std::vector<Cand>> cands;
    std::vector<std::vector<int>> compStates; // plain states mentioned in each composite

    explicit Model(const MDesc& d) : d(d)
    {
        for (int c = 0; c < d.nComps; c++)
            maxRegions = std::max(maxRegions, d.comps[c].nInit);
        parallel = maxRegions > 1;
        compStates.resize(d.nComps);
        auto mention = [&](int c, int s) {
            if (s >= d.nStates)
                return;
            auto& v = compStates[c];
            if (std::find(v.begin(), v.end(), s) == v.end())
                v.push_back(s);
        };
        for (int i = 0; i < d.nRows; i++) {
            const Row& r = d.rows[i];
            if (r.srcKind == SRC_PLAIN)
                mention(r.parent, r.src);
            else
                mention(r.srcParent, r.src);
            if (r.tgtKind == TGT_PLAIN)
                mention(r.parent, r.tgt);
            if (r.tgtKind == TGT_ENTRY || r.tgtKind == TGT_DIRECT)
                mention(r.tgtParent, r.tgt);
            if (r.tgtKind == TGT_HISTORY)
                hasHistory = true;
            if (r.ev == NONE_EVENT) {
                hasAnon = true;
                if (r.guard >= 0 && r.nact > 0 && r.act[0] != LOG_ACTION)
                    fuelActions.insert(r.act[0]);
            }
            if (r.guard >= 0)
                guardRow[r.guard] = { &r, nullptr };
        }
        for (int i = 0; i < d.nIRows; i++)
            if (d.irows[i].guard >= 0)
                guardRow[d.irows[i].guard] = { nullptr, &d.irows[i] };
        for (int s = 0; s < d.nStates; s++)
            if (d.states[s].deferMask)
                hasDefer = true;
        cands.resize(size_t(d.nComps) * d.nStates * (d.nEvents + 1));
        for (int c = 0; c < d.nComps; c++)
            for (int s = 0; s < d.nStates; s++)
                for (int e = -1; e < d.nEvents; e++)
                    build(c, s, e);
    }
    size_t idx(int c, int s, int e) const { return (size_t(c) * d.nStates + s) * (d.nEvents + 1) + e + 1; }
    const std::vector<Cand>& at(int c, int s, int e) const { return cands[idx(c, s, e)]; }
    void build(int c, int s, int e)
    {
        auto& v = cands[idx(c, s, e)];
        // own rows, the one declared last first
        for (int i = d.nRows - 1; i >= 0; i--) {
            const Row& r = d.rows[i];
            if (r.ev != e || r.src != s)
                continue;
            if ((r.srcKind == SRC_PLAIN && r.parent == c) || (r.srcKind != SRC_PLAIN && r.srcParent == c))
                v.push_back({ &r, nullptr, false, 0 });
        }
        // rows of the enclosing submachines, inner before outer
        int level = 1;
        for (int k = c; k > 0; k = d.comps[k].enclosing, level++)
            for (int i = d.nRows - 1; i >= 0; i--) {
                const Row& r = d.rows[i];
                if (r.ev == e && r.srcKind == SRC_PLAIN && r.src == d.comps[k].obj)
                    v.push_back({ &r, nullptr, true, level });
            }
        // internal rows
        for (int i = d.nIRows - 1; i >= 0; i--) {
            const IRow& r = d.irows[i];
            if (r.ev == e && (r.owner == s || r.comp == c))
                v.push_back({ nullptr, &r, false, 0 });
        }
    }
};

struct Exp {
    Rec r; // touches and serials filled in
    bool srcCopyOk = false;
};

struct RefObj {
    uint64_t serial = 0; // 0: does not exist
    uint64_t touches = 0;
};

struct Slot {
    int c, s;
    bool operator==(const Slot& o) const { return c == o.c && s == o.s; }
};
struct DefEv {
    int ev;
    uint64_t serial;
};

enum Outcome { OC_UNEXPECTED, OC_REJECTED, OC_PROCESSED, OC_DEFERRED };

struct Stats {
    uint64_t steps = 0, taken = 0, internalTaken = 0, anonTaken = 0, rejected = 0, unexpected = 0,
             deferred = 0, recalled = 0, redeferred = 0, recalledUnexpected = 0, recalledRejected = 0,
             compositeTaken = 0, entered = 0, left = 0, pseudoEntry = 0, pseudoExit = 0, history = 0,
             historyNonInitial = 0, multiRegion = 0, contested = 0, maxQueue = 0, factory = 0, reuse = 0,
             thrownGuard = 0, thrownAction = 0, fellThroughOuter = 0, logged = 0;
    void add(const Stats& o)
    {
        auto* a = reinterpret_cast<uint64_t*>(this);
        auto* b = reinterpret_cast<const uint64_t*>(&o);
        uint64_t mq = std::max(maxQueue, o.maxQueue);
        for (size_t i = 0; i < sizeof(Stats) / sizeof(uint64_t); i++)
            a[i] += b[i];
        maxQueue = mq;
    }
};

constexpr int INTERNAL_ROWS = 5000, ROWS_PER_REGION = 10000;

struct Ref {
    const Model* m;
    std::vector<Slot> slots;
    int active = 1, rootRegions = 1;
    std::vector<std::vector<int>> hist;
    std::deque<DefEv> q;
    std::vector<RefObj> objs;
    uint64_t depSerial[MAXDEP] = { 0, 0, 0 };
    // decisions of the environment for the current step
    uint64_t guardBits[4] = { 0, 0, 0, 0 };
    int fuel = 0;
    int throwGuard = -1; // guard id that throws
    int throwAt = -1; // index of the callback that throws
    int cbCount = 0;
    bool illegal = false; // the step would use a custom target that does not exist
    std::function<uint64_t()> factorySerial;
    std::vector<Exp> out;
    std::vector<int> takenRows;
    std::set<int>* rowCov = nullptr;
    Stats* st = nullptr;

    explicit Ref(const Model& model) : m(&model)
    {
        const MDesc& d = m->d;
        rootRegions = d.comps[0].nInit;
        active = rootRegions;
        slots.assign(m->maxRegions, Slot { 0, 0 });
        for (int r = 0; r < rootRegions; r++)
            slots[r] = { 0, d.comps[0].init[r] };
        for (int r = rootRegions; r < m->maxRegions; r++)
            slots[r] = { -1, -1 };
        hist.resize(d.nComps);
        for (int c = 0; c < d.nComps; c++)
            for (int r = 0; r < m->maxRegions; r++)
                hist[c].push_back(d.comps[c].nInit == 0 ? -1 : d.comps[c].init[r < d.comps[c].nInit ? r : 0]);
        objs.resize(d.nStates + d.nComps);
    }

    // each event has its own outcomes
    bool guardTrue(int g, bool anon, uint64_t evSerial)
    {
        if (g == throwGuard) {
            if (st)
                st->thrownGuard++;
            throw RefThrow {};
        }
        bool b = (guardBits[((g >> 6) + evSerial) & 3] >> (g & 63)) & 1;
        if (!anon)
            return b;
        return b && fuel > 0;
    }
    bool defers(int ev) const
    {
        for (int r = 0; r < active; r++)
            if (m->d.states[slots[r].s].deferMask >> ev & 1)
                return true;
        return false;
    }
    void emit(Kind k, int id, int ev, uint64_t evSerial, int src, int tgt, bool touchTgt)
    {
        const MDesc& d = m->d;
        if (k == K_ACTION && id == LOG_ACTION) {
            Exp e;
            e.r = Rec {};
            e.r.kind = K_LOG;
            e.r.ev = ev;
            e.r.src = src;
            e.r.tgt = tgt;
            out.push_back(e);
            if (st)
                st->logged++;
            return;
        }
        Exp e;
        Rec& r = e.r;
        r.kind = k;
        r.id = id;
        r.ev = ev;
        r.evSerial = evSerial;
        r.src = src;
        RefObj& so = objs[src];
        if (!so.serial)
            illegal = true;
        r.srcSerial = so.serial;
        r.srcTouches = so.touches;
        r.tgt = tgt;
        r.tgtSerial = r.tgtTouches = 0;
        if (tgt >= 0) {
            if (!objs[tgt].serial)
                r.tgt = OBJ_NULL;
            else {
                r.tgtSerial = objs[tgt].serial;
                r.tgtTouches = objs[tgt].touches;
            }
        }
        r.nd = k == K_FACTORY ? 0 : d.nDeps;
        for (int i = 0; i < MAXDEP; i++)
            r.dep[i] = i < r.nd ? depSerial[i] : 0;
        out.push_back(e);
        // a guarded anonymous transition uses up fuel when its first action runs, guards stay pure
        if (k == K_ACTION && ev == NONE_EVENT && m->fuelActions.count(id))
            fuel--;
        if (cbCount++ == throwAt) {
            if (st)
                st->thrownAction++;
            throw RefThrow {};
        }
        so.touches++;
        if (touchTgt && tgt >= 0 && tgt != src && objs[tgt].serial)
            objs[tgt].touches++;
    }
    int initState(int c) const { return m->d.comps[c].init[0]; }

    // returns true if region 0 entered or left a submachine
    bool take(int r, const Cand& c, int ev, uint64_t evSerial)
    {
        const MDesc& d = m->d;
        if (c.irow) {
            int s = slots[r].s;
            if (rowCov)
                rowCov->insert(INTERNAL_ROWS + int(c.irow - d.irows));
            takenRows.push_back(INTERNAL_ROWS + int(c.irow - d.irows) + r * ROWS_PER_REGION);
            if (st)
                st->internalTaken++;
            for (int i = 0; i < c.irow->nact; i++)
                emit(K_ACTION, c.irow->act[i], ev, evSerial, s, s, true);
            return false;
        }
        const Row& row = *c.row;
        if (rowCov)
            rowCov->insert(int(&row - d.rows));
        takenRows.push_back(int(&row - d.rows) + r * ROWS_PER_REGION);
        const int prevParent = slots[r].c;
        const bool enter = row.tgtKind != TGT_PLAIN;
        for (int k = 0; k < active; k++)
            hist[slots[k].c][k] = slots[k].s;
        Slot n;
        int tgtObj;
        switch (row.tgtKind) {
        case TGT_PLAIN:
            n = { row.parent, row.tgt };
            tgtObj = row.tgt;
            break;
        case TGT_COMPOSITE:
            n = { row.tgtParent, initState(row.tgtParent) };
            tgtObj = n.s;
            break;
        case TGT_ENTRY:
        case TGT_DIRECT:
            n = { row.tgtParent, row.tgt };
            tgtObj = row.tgt;
            break;
        default:
            n = { row.tgtParent, hist[row.tgtParent][r] };
            tgtObj = OBJ_WILD;
            if (st) {
                st->history++;
                if (n.s != d.comps[n.c].init[r < d.comps[n.c].nInit ? r : 0])
                    st->historyNonInitial++;
            }
        }
        slots[r] = n;
        bool left = false;
        if (r == 0) {
            if (enter)
                for (int k = rootRegions; k < d.comps[n.c].nInit; k++)
                    slots[k] = { n.c, row.tgtKind == TGT_HISTORY ? hist[n.c][k] : d.comps[n.c].init[k] };
            active = std::max(rootRegions, d.comps[n.c].nInit);
            left = enter || prevParent != n.c;
        }
        if (st) {
            if (c.viaComposite)
                st->compositeTaken++;
            if (enter)
                st->entered++;
            if (prevParent != n.c)
                st->left++;
            if (row.tgtKind == TGT_ENTRY || row.tgtKind == TGT_DIRECT)
                st->pseudoEntry++;
            if (row.srcKind != SRC_PLAIN)
                st->pseudoExit++;
        }
        // callbacks
        const int src = row.src;
        const bool touch = row.tgtKind != TGT_HISTORY;
        if (row.srcKind == SRC_PLAIN) {
            bool has = src < d.nStates ? d.states[src].exit : d.comps[src - d.nStates].exit;
            if (has)
                emit(K_EXIT, src, ev, evSerial, src, tgtObj, false);
        } else if (row.srcKind == SRC_EXIT && d.comps[row.srcParent].exit) {
            emit(K_EXIT, d.comps[row.srcParent].obj, ev, evSerial, src, tgtObj, false);
        }
        if (row.actKind == ACT_FACTORY) {
            emitFactory(row, ev, evSerial, src);
        } else {
            if (row.actKind == ACT_REUSE) {
                if (!objs[tgtObj].serial)
                    illegal = true;
                if (st)
                    st->reuse++;
            }
            for (int i = 0; i < row.nact; i++)
                emit(K_ACTION, row.act[i], ev, evSerial, src, tgtObj, touch);
        }
        if (row.tgtKind == TGT_PLAIN) {
            if (d.states[row.tgt].entry)
                emit(K_ENTRY, row.tgt, ev, evSerial, src, tgtObj, true);
        } else if (row.tgtKind == TGT_COMPOSITE) {
            if (d.comps[row.tgtParent].entry)
                emit(K_ENTRY, d.comps[row.tgtParent].obj, ev, evSerial, src, tgtObj, true);
            if (d.states[tgtObj].entry)
                emit(K_ENTRY, tgtObj, ev, evSerial, src, tgtObj, true);
        }
        if (row.tgtKind == TGT_PLAIN && d.states[row.tgt].custom && !objs[row.tgt].serial)
            illegal = true;
        return left;
    }
    // a factory builds the new target object from the event and the source
    void emitFactory(const Row& row, int ev, uint64_t evSerial, int src)
    {
        if (!objs[src].serial)
            illegal = true;
        uint64_t serial = factorySerial ? factorySerial() : ~0ull;
        Exp e;
        Rec& r = e.r;
        r = Rec {};
        r.kind = K_FACTORY;
        r.id = row.act[0];
        r.ev = ev;
        r.evSerial = evSerial;
        r.src = src;
        r.srcSerial = objs[src].serial;
        r.srcTouches = objs[src].touches;
        r.tgt = row.tgt;
        r.tgtSerial = serial;
        r.tgtTouches = 0;
        r.nd = 0;
        out.push_back(e);
        if (st)
            st->factory++;
        if (cbCount++ == throwAt) {
            if (st)
                st->thrownAction++;
            throw RefThrow {};
        }
        objs[src].touches++;
        objs[row.tgt].serial = serial;
        objs[row.tgt].touches = 1;
    }

    // tries the candidates of one region; returns 0: none, 1: rejected, 2: taken (3: taken and left)
    int offer(int r, int ev, uint64_t evSerial)
    {
        const auto& cs = m->at(slots[r].c, slots[r].s, ev);
        if (cs.empty())
            return 0;
        int tried = 0;
        for (const Cand& c : cs) {
            int g = c.row ? c.row->guard : c.irow->guard;
            if (g >= 0 && !guardTrue(g, ev == NONE_EVENT, evSerial)) {
                tried++;
                continue;
            }
            if (st) {
                st->taken++;
                if (cs.size() > 1)
                    st->contested++;
                if (c.viaComposite && tried)
                    st->fellThroughOuter++;
            }
            Cand copy = c;
            return take(r, copy, ev, evSerial) ? 3 : 2;
        }
        return 1;
    }
    void completion()
    {
        if (!m->hasAnon)
            return;
        for (int guard = 0; guard < 5000; guard++) {
            bool any = false;
            int regions = active;
            for (int r = 0; r < regions; r++) {
                int o = offer(r, NONE_EVENT, 0);
                if (o == 0) {
                    // known finding (see known-findings): the round ends at the first region whose
                    // state has no anonymous transition; the existing tests pin this
                    return;
                }
                if (o >= 2) {
                    any = true;
                    if (st)
                        st->anonTaken++;
                }
                if (o == 3)
                    regions = rootRegions;
            }
            if (!any)
                return;
        }
        illegal = true;
    }
    Outcome one(int ev, uint64_t serial)
    {
        if (defers(ev)) {
            q.push_back({ ev, serial });
            return OC_DEFERRED;
        }
        bool expected = false, taken = false;
        int regions = active, nTaken = 0;
        for (int r = 0; r < regions; r++) {
            int o = offer(r, ev, serial);
            expected |= o != 0;
            taken |= o >= 2;
            nTaken += o >= 2;
            if (o == 3)
                regions = rootRegions;
        }
        if (st && nTaken > 1)
            st->multiRegion++;
        if (!expected)
            return OC_UNEXPECTED;
        if (!taken)
            return OC_REJECTED;
        completion();
        return OC_PROCESSED;
    }
    void handler(int ev, uint64_t serial)
    {
        if (!m->d.handler)
            return;
        int s = slots[0].s;
        emit(K_HANDLER, 0, ev, serial, s, OBJ_NULL, false);
    }
    bool step(int ev, uint64_t serial)
    {
        out.clear();
        takenRows.clear();
        cbCount = 0;
        illegal = false;
        if (st)
            st->steps++;
        switch (one(ev, serial)) {
        case OC_UNEXPECTED:
            if (st)
                st->unexpected++;
            handler(ev, serial);
            return false;
        case OC_REJECTED:
            if (st)
                st->rejected++;
            return false;
        case OC_DEFERRED:
            if (st) {
                st->deferred++;
                st->maxQueue = std::max<uint64_t>(st->maxQueue, q.size());
            }
            return false;
        default:
            break;
        }
        // recall the oldest event that is not deferred anymore until none is left
        for (int guard = 0; guard < 10000; guard++) {
            auto it = std::find_if(q.begin(), q.end(), [&](const DefEv& d) { return !defers(d.ev); });
            if (it == q.end())
                break;
            if (st && it != q.begin())
                st->redeferred++;
            DefEv d = *it;
            q.erase(it);
            if (st)
                st->recalled++;
            Outcome o = one(d.ev, d.serial);
            if (o == OC_UNEXPECTED) {
                if (st)
                    st->recalledUnexpected++;
                handler(d.ev, d.serial);
            }
            if (o == OC_REJECTED && st)
                st->recalledRejected++;
        }
        return true;
    }
    void force(int r, int c, int s)
    {
        slots[r] = { c, s };
        if (r == 0) {
            for (int k = rootRegions; k < m->d.comps[c].nInit; k++)
                if (slots[k].c != c)
                    slots[k] = { c, m->d.comps[c].init[k] };
            active = std::max(rootRegions, m->d.comps[c].nInit);
        }
    }
};
}
