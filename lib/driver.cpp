// The monitor: drives generated machines with steered random workloads and compares everything
// observable with the reference interpreter after every single operation.
#include "ref.h"

#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <malloc.h>
#include <memory>
#include <mutex>
#include <new>
#include <sstream>
#include <sys/time.h>
#include <thread>
#include <cxxabi.h>
#include <iostream>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace hx;

// ------------------------------------------------------------------ live byte accounting
namespace {
thread_local int tlTrack = 0;
thread_local int64_t* tlBytes = nullptr;
thread_local int64_t tlFailIn = 0; // the how manyth tracked allocation from now on fails
thread_local int64_t tlAllocations = 0;
struct Track {
    int64_t* old;
    int oldT;
    Track(int64_t* b)
        : old(tlBytes)
        , oldT(tlTrack)
    {
        tlBytes = b;
        tlTrack = 1;
    }
    ~Track()
    {
        tlBytes = old;
        tlTrack = oldT;
    }
};
struct NoTrack {
    int oldT;
    NoTrack()
        : oldT(tlTrack)
    {
        tlTrack = 0;
    }
    ~NoTrack() { tlTrack = oldT; }
};
}
#ifndef HX_NOALLOC
namespace {
struct Head {
    int64_t* owner;
    uint64_t size;
};
static_assert(sizeof(Head) == 16, "");
void* allocTracked(std::size_t n)
{
    if (tlTrack) {
        tlAllocations++;
        if (tlFailIn && --tlFailIn == 0)
            throw std::bad_alloc();
    }
    auto* h = static_cast<Head*>(std::malloc(n + sizeof(Head)));
    if (!h)
        std::abort();
    h->owner = tlTrack ? tlBytes : nullptr;
    h->size = n;
    if (h->owner && __atomic_add_fetch(h->owner, int64_t(n), __ATOMIC_RELAXED) > (int64_t(1) << 29)) {
        static const char msg[] = "VIOL key=memory a machine holds more than 512 MB\n";
        ssize_t r = write(1, msg, sizeof msg - 1);
        (void)r;
        _exit(1);
    }
    return h + 1;
}
void freeTracked(void* p)
{
    if (!p)
        return;
    auto* h = static_cast<Head*>(p) - 1;
    if (h->owner)
        __atomic_fetch_sub(h->owner, int64_t(h->size), __ATOMIC_RELAXED);
    std::free(h);
}
}
void* operator new(std::size_t n) { return allocTracked(n); }
void* operator new[](std::size_t n) { return allocTracked(n); }
void operator delete(void* p) noexcept { freeTracked(p); }
void operator delete[](void* p) noexcept { freeTracked(p); }
void operator delete(void* p, std::size_t) noexcept { freeTracked(p); }
void operator delete[](void* p, std::size_t) noexcept { freeTracked(p); }
#endif

// ------------------------------------------------------------------ context of one instance
namespace {
struct Ctx {
    const Model* model = nullptr;
    std::vector<Rec> recs;
    std::vector<std::vector<uint64_t>> live; // serials of live state objects per id
    std::unordered_map<uint64_t, const void*> address; // of the state objects seen in callbacks
    uint64_t trivBorn = 0;
    int64_t liveEvents = 0;
    uint64_t eventCopies = 0;
    int64_t bytes = 0;
    uint64_t guardBits[4] = { 0, 0, 0, 0 };
    int fuel = 0;
    int throwGuard = -1, throwAt = -1, cbCount = 0;
    int64_t bornFailIn = 0, born = 0; // the how manyth state object from now on cannot be constructed
    bool mute = false; // a second machine is driven, nothing is compared
    const void* directAddr = nullptr;
    uint64_t directSerial = 0;
    int64_t returnedTouches = -1; // of the caller's event, if it was passed as an lvalue and no exception was thrown
    std::string fail;
    uint64_t nGuardRecs = 0;
    void bad(const std::string& m)
    {
        if (fail.empty())
            fail = m;
    }
};
thread_local Ctx* cur = nullptr;
// operations on other instances that are done while a callback of this one runs
thread_local std::function<void()>* nested = nullptr;
std::atomic<uint64_t> gSerial { 1 };
std::vector<MachineType>& types()
{
    static std::vector<MachineType> t;
    return t;
}
std::string payloadFor(uint64_t serial, int id)
{
    return "payload-of-event-" + std::to_string(id) + "-with-serial-" + std::to_string(serial);
}
const char* kindName(int k)
{
    static const char* n[] = { "guard", "exit", "action", "entry", "handler", "factory", "log" };
    return k < 7 ? n[k] : "?";
}
std::string str(const Rec& r)
{
    std::ostringstream o;
    o << kindName(r.kind) << " " << r.id << " ev=" << r.ev << "#" << r.evSerial << " src=" << r.src
      << "#" << r.srcSerial << "t" << r.srcTouches << " tgt=" << r.tgt << "#" << r.tgtSerial << "t"
      << r.tgtTouches << " deps=[";
    for (int i = 0; i < r.nd && i < MAXDEP; i++)
        o << (i ? "," : "") << r.dep[i];
    o << "]";
    return o.str();
}
}

namespace hx {
uint64_t newSerial() { return gSerial.fetch_add(1, std::memory_order_relaxed); }
void registerMachine(const MachineType& t) { types().push_back(t); }

static void objBorn(ObjHead* o)
{
    NoTrack nt;
    if (!cur)
        return;
    cur->trivBorn += !o->heavy;
    cur->born++;
    if (cur->bornFailIn && --cur->bornFailIn == 0)
        throw CallbackThrow { 3 };
    if (size_t(o->id) >= cur->live.size())
        cur->live.resize(o->id + 1);
    cur->live[o->id].push_back(o->serial);
}
TrivObjBase::TrivObjBase(int i)
    : ObjHead { MAGIC, false, i, newSerial(), 0 }
{
    objBorn(this);
}
ObjBase::ObjBase(int i)
    : ObjHead { MAGIC, true, i, newSerial(), 0 }
    , blob("the data of state " + std::to_string(i) + " are kept on the heap")
{
    objBorn(this);
}
ObjBase::ObjBase(const ObjBase& o)
    : ObjHead { MAGIC, true, o.id, newSerial(), o.touches }
    , blob(o.blob)
{
    objBorn(this);
}
ObjBase& ObjBase::operator=(const ObjBase& o)
{
    if (cur)
        cur->bad("a state object was assigned to");
    touches = o.touches;
    return *this;
}
ObjBase::~ObjBase()
{
    NoTrack nt;
    if (magic != MAGIC) {
        if (cur)
            cur->bad("a state object was destroyed twice");
        return;
    }
    magic = 0xdeadbeef;
    if (!cur)
        return;
    if (size_t(id) < cur->live.size()) {
        auto& v = cur->live[id];
        auto it = std::find(v.begin(), v.end(), serial);
        if (it != v.end()) {
            v.erase(it);
            return;
        }
    }
    cur->bad("a state object of another machine was destroyed");
}
static uint64_t checkFor(uint64_t serial, int id) { return serial * 0x9e3779b97f4a7c15ull + uint64_t(id); }
TrivEvBase::TrivEvBase(int i, uint64_t s)
    : EvHead { MAGIC, false, i, s, 0, checkFor(s, i) }
{
}
EvBase::EvBase(int i, uint64_t s)
    : EvHead { MAGIC, true, i, s, 0, checkFor(s, i) }
{
    {
        NoTrack nt;
        payload = payloadFor(s, i);
    }
    if (cur)
        cur->liveEvents++;
}
EvBase::EvBase(const EvBase& o)
    : EvHead { MAGIC, true, o.id, o.serial, o.touches, o.check }
    , payload(o.payload)
{
    if (o.magic != MAGIC && cur)
        cur->bad("a destroyed event was copied");
    if (cur) {
        cur->liveEvents++;
        cur->eventCopies++;
    }
}
EvBase::EvBase(EvBase&& o)
    : EvHead { MAGIC, true, o.id, o.serial, o.touches, o.check }
    , payload(std::move(o.payload))
{
    if (o.magic != MAGIC && cur)
        cur->bad("a destroyed event was moved");
    o.payload.clear();
    if (cur)
        cur->liveEvents++;
}
EvBase::~EvBase()
{
    if (magic != MAGIC) {
        if (cur)
            cur->bad("an event was destroyed twice");
        return;
    }
    magic = 0xdeadbeef;
    if (cur)
        cur->liveEvents--;
}
void setCurrentEvent(const void* a, uint64_t s)
{
    if (cur) {
        cur->directAddr = a;
        cur->directSerial = s;
    }
}
static bool intact(const EvHead& e)
{
    return e.check == checkFor(e.serial, e.id) && (!e.heavy || static_cast<const EvBase&>(e).payload == payloadFor(e.serial, e.id));
}
void eventReturned(const EvHead& e)
{
    NoTrack nt;
    if (!cur || cur->mute)
        return;
    if (e.magic != EvHead::MAGIC || !intact(e))
        cur->bad("the content of the caller's event was taken");
    cur->returnedTouches = int64_t(e.touches);
}

bool note(
    Kind kind,
    int id,
    const EvHead* ev,
    ObjHead* src,
    ObjHead* tgt,
    bool touchTgt,
    DepBase* const* deps,
    int nd)
{
    NoTrack nt;
    Ctx& c = *cur;
    Rec r {};
    r.kind = kind;
    r.id = id;
    if (ev) {
        if (ev->magic != EvBase::MAGIC)
            c.bad("callback got a destroyed event");
        r.ev = ev->id;
        r.evSerial = ev->serial;
        r.evTouches = ev->touches;
        if (kind != K_GUARD)
            const_cast<EvHead*>(ev)->touches++;
        if (!intact(*ev))
            c.bad("callback got an event whose content was changed");
        if (!c.mute && ev->serial == c.directSerial && static_cast<const void*>(ev) != c.directAddr)
            c.bad("callback got a copy instead of the processed event");
    } else {
        r.ev = NONE_EVENT;
        r.evSerial = 0;
    }
    auto obj = [&](ObjHead* o, int& oid, uint64_t& serial, uint64_t& touches) {
        if (!o) {
            oid = OBJ_NULL;
            serial = touches = 0;
            return;
        }
        if (o->magic != ObjBase::MAGIC)
            c.bad("callback got a destroyed state object");
        else if (o->heavy && static_cast<ObjBase*>(o)->blob.compare(0, 18, "the data of state ") != 0)
            c.bad("the data of a state object were changed");
        oid = o->id;
        serial = o->serial;
        touches = o->touches;
        if (c.address.emplace(serial, o).first->second != o)
            c.bad("callback got a copy of a state object");
    };
    obj(src, r.src, r.srcSerial, r.srcTouches);
    obj(tgt, r.tgt, r.tgtSerial, r.tgtTouches);
    r.nd = nd;
    for (int i = 0; i < nd && i < MAXDEP; i++) {
        if (deps[i]->magic != DepBase::MAGIC)
            c.bad("callback got a destroyed dependency");
        if (deps[i]->slot != i)
            c.bad("callback got the dependencies in another order");
        r.dep[i] = deps[i]->serial;
        deps[i]->uses++;
    }
    c.recs.push_back(r);
    if (c.recs.size() > 200000) {
        std::printf("VIOL machine=%s key=runaway one event ran more than 200000 callbacks\n", c.model->d.name);
        std::fflush(stdout);
        _exit(1);
    }
    if (c.mute) {
        if (kind == K_GUARD)
            return (c.guardBits[(id >> 6) & 3] >> (id & 63) & 1) && (ev || c.fuel > 0);
        if (kind == K_ACTION && !ev && c.model->fuelActions.count(id))
            c.fuel--;
        return true;
    }
    if (nested) {
        (*nested)();
        cur = &c;
    }
    if (kind == K_GUARD) {
        c.nGuardRecs++;
        if (id == c.throwGuard)
            throw CallbackThrow { 1 };
        bool b = c.guardBits[((id >> 6) + r.evSerial) & 3] >> (id & 63) & 1;
        return b && (ev || c.fuel > 0);
    }
    if (kind == K_ACTION && !ev && c.model->fuelActions.count(id))
        c.fuel--;
    if (c.cbCount++ == c.throwAt)
        throw CallbackThrow { 2 };
    if (src)
        src->touches++;
    if (touchTgt && tgt && tgt != src)
        tgt->touches++;
    return true;
}
}

// ------------------------------------------------------------------ what hsm::log prints
namespace {
std::string demangle(const std::type_info& t)
{
    int status = 0;
    char* p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &status);
    std::string s = status == 0 ? p : t.name();
    std::free(p);
    return s;
}
// Collects the lines that are written to std::cout and records them among the callbacks
struct LogLines : std::streambuf {
    std::string text;
    std::map<const Model*, std::map<std::string, int>> names;
    int lookup(const std::string& s)
    {
        auto& n = names[cur->model];
        const MDesc& d = cur->model->d;
        const int objects = d.nStates + d.nComps;
        if (n.empty())
            for (int i = 0; i < objects + 1 + d.nEvents; i++)
                n[demangle(*d.types[i])] = i;
        auto it = n.find(s);
        if (it == n.end() && s.size() > 6 && s.compare(0, 5, "type<") == 0 && s.back() == '>')
            it = n.find(s.substr(5, s.size() - 6));
        return it == n.end() ? -1000 : it->second;
    }
    void parse()
    {
        auto plus = text.find(" + "), equals = text.find(" = ");
        if (plus == std::string::npos || equals == std::string::npos || equals < plus) {
            cur->bad("not a line that describes a transition: " + text);
            return;
        }
        const int objects = cur->model->d.nStates + cur->model->d.nComps;
        Rec r {};
        r.kind = K_LOG;
        r.src = lookup(text.substr(0, plus));
        r.ev = lookup(text.substr(plus + 3, equals - plus - 3)) - objects - 1;
        r.tgt = lookup(text.substr(equals + 3));
        if (r.src < 0 || r.src >= objects || r.tgt < 0 || r.tgt >= objects || r.ev < NONE_EVENT)
            cur->bad("a line of the log names other types: " + text);
        cur->recs.push_back(r);
    }
    int overflow(int c) override
    {
        NoTrack nt;
        if (!cur || cur->mute || c == EOF)
            return 0;
        if (c != '\n')
            text += char(c);
        else {
            parse();
            text.clear();
        }
        return c;
    }
    int sync() override
    {
        NoTrack nt;
        if (cur && !text.empty())
            cur->bad("only a part of a line was logged: " + text);
        return 0;
    }
};
}

// ------------------------------------------------------------------ random numbers
namespace {
struct Rng {
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
    bool chance(int percent) { return below(100) < percent; }
};

struct Options {
    int machine = -1;
    uint64_t seed = 1;
    int ops = 2000;
    int sessions = 1; // instances per machine
    int rounds = 1;
    int threads = 0;
    int exc = 0, move = 0, set = 0, query = 1, rebind = 0, recreate = 0, mem = 0, log = 0, nest = 0, handoff = 0, cfail = 0;
};
Options opt;

struct Failure {
    std::string what;
};

struct Coverage {
    Stats st;
    std::map<int, std::set<int>> rows; // machine -> rows taken
    std::unordered_set<uint64_t> tuples; // distinct (machine, configuration, event, pending, reaction)
    std::map<int, std::set<std::string>> configs;
    uint64_t steps = 0, callbacks = 0, guards = 0, queries = 0, sets = 0, moves = 0, rebinds = 0,
             exceptions = 0, machines = 0, instances = 0, statusTexts = 0, memSamples = 0,
             rejectedSets = 0, eventCopies = 0, recreations = 0, nestedOps = 0, handoffs = 0, failedConstructions = 0;
    int64_t maxBytes = 0;
    std::vector<std::string> samples;
    void merge(const Coverage& o)
    {
        st.add(o.st);
        for (auto& kv : o.rows)
            rows[kv.first].insert(kv.second.begin(), kv.second.end());
        for (auto& kv : o.configs)
            configs[kv.first].insert(kv.second.begin(), kv.second.end());
        tuples.insert(o.tuples.begin(), o.tuples.end());
        steps += o.steps;
        callbacks += o.callbacks;
        guards += o.guards;
        queries += o.queries;
        sets += o.sets;
        moves += o.moves;
        rebinds += o.rebinds;
        exceptions += o.exceptions;
        machines += o.machines;
        instances += o.instances;
        statusTexts += o.statusTexts;
        memSamples += o.memSamples;
        rejectedSets += o.rejectedSets;
        eventCopies += o.eventCopies;
        recreations += o.recreations;
        nestedOps += o.nestedOps;
        handoffs += o.handoffs;
        failedConstructions += o.failedConstructions;
        maxBytes = std::max(maxBytes, o.maxBytes);
        for (auto& s : o.samples)
            if (samples.size() < 6)
                samples.push_back(s);
    }
};

std::vector<std::unique_ptr<Model>> models; // filled before any thread starts
const Model& modelOf(int i)
{
    return *models[i];
}

std::string cfg(const Ref& r)
{
    std::ostringstream o;
    for (int k = 0; k < r.active; k++)
        o << (k ? " " : "") << "C" << r.slots[k].c << ".S" << r.slots[k].s;
    return o.str();
}
uint64_t hashStr(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

struct DepHolder {
    std::unique_ptr<Dep0> d0;
    std::unique_ptr<Dep1> d1;
    std::unique_ptr<Dep2> d2;
    DepHolder()
        : d0(new Dep0(newSerial()))
        , d1(new Dep1(newSerial()))
        , d2(new Dep2(newSerial()))
    {
    }
    DepSet set() const { return { d0.get(), d1.get(), d2.get() }; }
};

// One machine instance together with its reference
struct Session {
    int type;
    const Model& model;
    const MDesc& d;
    Rng rng;
    Ctx ctx;
    std::unique_ptr<DepHolder> deps;
    IMachine* m = nullptr;
    Ref ref;
    std::set<int> rowCov;
    Coverage& cov;
    std::vector<std::string> log;
    std::map<std::string, std::string>& statusToCfg;
    std::map<std::string, std::string>& cfgToStatus;
    int64_t memWarm = -1;
    uint64_t memCount = 0;
    int stuck = 0;
    int zombieAge = 0;
    size_t queueCap = 12; // pending events this instance gets at most
    uint8_t fills[4] = { 0x00, 0xff, 0xa5, 0x01 };

    Session(int type, uint64_t seed, Coverage& cov, std::map<std::string, std::string>& a, std::map<std::string, std::string>& b)
        : type(type)
        , model(modelOf(type))
        , d(model.d)
        , rng { seed }
        , ref(model)
        , cov(cov)
        , statusToCfg(a)
        , cfgToStatus(b)
    {
        ctx.model = &model;
        static const size_t caps[] = { 3, 12, 12, 40, 300 };
        queueCap = caps[rng.below(5)];
    }
    void line(const std::string& s)
    {
        log.push_back(s);
        if (opt.log) {
            std::printf("%s\n", s.c_str());
            std::fflush(stdout);
        }
        if (log.size() > 4000)
            log.erase(log.begin(), log.begin() + 2000);
    }
    [[noreturn]] void fail(const std::string& s) { throw Failure { s }; }
    void checkFail()
    {
        if (!ctx.fail.empty())
            fail(ctx.fail);
    }
    uint8_t fill() { return fills[rng.below(4)]; }
    int nObjs() const { return d.nStates + d.nComps; }
    bool triv(int id) const { return id < d.nStates ? d.states[id].triv : d.comps[id - d.nStates].triv; }
    bool custom(int id) const { return id < d.nStates && d.states[id].custom; }

    void create()
    {
        cur = &ctx;
        deps = std::make_unique<DepHolder>();
        uint8_t f = fill();
        line("create fill=" + std::to_string(f));
        {
            Track t(&ctx.bytes);
            m = types()[type].create(f, deps->set());
        }
        checkFail();
        if (!ctx.recs.empty())
            fail("construction ran callbacks: " + str(ctx.recs[0]));
        ref = Ref(model);
        setDepSerials();
        ctx.live.resize(nObjs());
        ctx.address.clear();
        for (int i = 0; i < nObjs(); i++) {
            size_t n = ctx.live[i].size();
            if (custom(i)) {
                if (n != 0)
                    fail("an object of custom state " + std::to_string(i) + " exists before it was created");
            } else if (n != 1)
                fail("construction made " + std::to_string(n) + " objects of state " + std::to_string(i) + " instead of one");
            else
                ref.objs[i].serial = ctx.live[i][0];
        }
        cov.instances++;
        memWarm = -1;
        memCount = 0;
        verify("create");
    }
    void setDepSerials()
    {
        ref.depSerial[0] = deps->d0->serial;
        ref.depSerial[1] = deps->d1->serial;
        ref.depSerial[2] = deps->d2->serial;
    }
    void destroy()
    {
        cur = &ctx;
        line("destroy");
        {
            Track t(&ctx.bytes);
            delete m;
            m = nullptr;
        }
        checkFail();
        if (!ctx.recs.empty())
            fail("destruction ran callbacks");
        for (int i = 0; i < nObjs(); i++)
            if (triv(i))
                ctx.live[i].clear();
            else if (!ctx.live[i].empty())
                fail("destruction left " + std::to_string(ctx.live[i].size()) + " objects of state " + std::to_string(i));
        if (ctx.liveEvents != 0)
            fail("destruction left " + std::to_string(ctx.liveEvents) + " events");
#ifndef HX_NOALLOC
        if (ctx.bytes != 0)
            fail("destruction left " + std::to_string(ctx.bytes) + " bytes");
#endif
    }
    ~Session()
    {
        // after a failure the machine is abandoned
    }

    // --------------------------------------------------------------- checks at quiescence
    void verify(const char* when)
    {
        checkFail();
        if (!ctx.recs.empty())
            fail(std::string(when) + " ran a callback: " + str(ctx.recs[0]));
        for (int r = 0; r < ref.active; r++) {
            const Slot x = ref.slots[r];
            cov.queries++;
            if (x.s >= 0 && !m->is3(r, x.c, x.s))
                fail(std::string("after ") + when + ": is(region " + std::to_string(r) + ", C" + std::to_string(x.c) + ", S"
                     + std::to_string(x.s) + ") is false, expected configuration " + cfg(ref));
        }
        if (opt.query) {
            int questions = 0;
            for (int c = 0; c < d.nComps; c++)
                questions += int(model.compStates[c].size()) * model.maxRegions;
            for (int r = 0; r < model.maxRegions; r++)
                for (int c = 0; c < d.nComps; c++)
                    for (int s = 0; s < d.nStates; s++) {
                        bool mentioned = std::find(model.compStates[c].begin(), model.compStates[c].end(), s)
                            != model.compStates[c].end();
                        if (!mentioned && !(opt.query > 1 && rng.chance(10)))
                            continue;
                        if (questions > 90 && rng.below(questions) > 60)
                            continue;
                        bool want = r < ref.active && ref.slots[r] == Slot { c, s };
                        cov.queries++;
                        if (m->is3(r, c, s) != want)
                            fail(
                                std::string("after ") + when + ": is(region " + std::to_string(r) + ", C"
                                + std::to_string(c) + ", S" + std::to_string(s) + ") is "
                                + (want ? "false" : "true") + ", expected configuration " + cfg(ref));
                    }
        }
        if (opt.query > 1 && d.caps_query) {
            for (int c = 0; c < d.nComps; c++) {
                cov.queries++;
                if (m->parentIs(c) != (ref.slots[0].c == c))
                    fail(std::string("after ") + when + ": parent_is(C" + std::to_string(c) + ") is wrong, expected " + cfg(ref));
                for (int s = 0; s < d.nStates; s++) {
                    cov.queries++;
                    if (m->is2(c, s) != (ref.slots[0] == Slot { c, s }))
                        fail(std::string("after ") + when + ": is(C" + std::to_string(c) + ", S" + std::to_string(s)
                             + ") is wrong, expected " + cfg(ref));
                }
            }
            for (int s = 0; s < d.nStates; s++) {
                cov.queries++;
                if (m->is1(s) != (ref.slots[0].s == s))
                    fail(std::string("after ") + when + ": is(S" + std::to_string(s) + ") is wrong, expected " + cfg(ref));
            }
            std::string st, st2;
            st = m->status();
            st2 = m->status();
            if (st != st2)
                fail("status text changed between two calls: '" + st + "' and '" + st2 + "'");
            if (st.empty())
                fail("status text is empty");
            for (unsigned char ch : st)
                if ((ch < 32 && ch != '\n' && ch != '\t') || ch > 126)
                    fail("status text contains the unprintable character " + std::to_string(int(ch)));
            std::string c = cfg(ref);
            auto i1 = statusToCfg.emplace(st, c);
            if (!i1.second && i1.first->second != c)
                fail("status text '" + st + "' stands for two configurations: " + i1.first->second + " and " + c);
            auto i2 = cfgToStatus.emplace(c, st);
            if (!i2.second && i2.first->second != st)
                fail("configuration " + c + " has two status texts: '" + i2.first->second + "' and '" + st + "'");
            cov.statusTexts = statusToCfg.size();
            // the queries changed nothing
            for (int r = 0; r < ref.active; r++)
                if (!m->is3(r, ref.slots[r].c, ref.slots[r].s))
                    fail("a query or status() changed the configuration " + c);
        }
        if (!ctx.recs.empty())
            fail("a query ran callbacks: " + str(ctx.recs[0]));
        if (!m->hasZombie()) {
            for (int i = 0; i < nObjs(); i++) {
                if (triv(i))
                    continue;
                auto& v = ctx.live[i];
                size_t want = ref.objs[i].serial ? 1 : 0;
                if (v.size() != want)
                    fail(std::string("after ") + when + ": " + std::to_string(v.size()) + " objects of state " + std::to_string(i)
                         + " exist instead of " + std::to_string(want));
                if (want && v[0] != ref.objs[i].serial)
                    fail(std::string("after ") + when + ": the object of state " + std::to_string(i) + " was exchanged");
            }
            int64_t pending = 0;
            for (auto& q : ref.q)
                pending += !(d.trivEvents >> q.ev & 1);
            if (ctx.liveEvents != pending)
                fail(std::string("after ") + when + ": " + std::to_string(ctx.liveEvents) + " events are kept instead of "
                     + std::to_string(pending));
            memory(when);
        }
        checkFail();
    }
    void memory(const char* when)
    {
#ifndef HX_NOALLOC
        cov.maxBytes = std::max(cov.maxBytes, ctx.bytes);
        if (!opt.mem || !ref.q.empty())
            return;
        int customs = 0;
        for (int i = 0; i < d.nStates; i++)
            if (custom(i) && ref.objs[i].serial)
                customs++;
        int64_t held = ctx.bytes - customs * int64_t(sizeof(ObjBase) + 128);
        memCount++;
        cov.memSamples++;
        if (memCount == 400)
            memWarm = held;
        else if (memCount > 400 && held > memWarm) {
            // allow for storage that is kept for later and for the spread of object sizes
            int64_t slack = 1024 + 512 * int64_t(maxQ) + customs * 256;
            if (held > memWarm + slack)
                fail(std::string("after ") + when + ": the machine holds " + std::to_string(held) + " bytes, "
                     + std::to_string(memWarm) + " after the warm up");
        }
#endif
        (void)when;
    }
    size_t maxQ = 0;

    // --------------------------------------------------------------- one event
    struct Plan {
        int ev;
        uint64_t bits[4];
        int fuel, throwGuard, throwAt;
        bool lvalue;
        uint64_t serial;
    };
    Plan plan(int ev)
    {
        Plan p {};
        p.ev = ev;
        p.serial = newSerial();
        static const int density[] = { 0, 1, 2, 2, 3 };
        int dens = density[rng.below(5)];
        for (auto& b : p.bits) {
            switch (dens) {
            case 0:
                b = rng.next() & rng.next();
                break;
            case 1:
                b = rng.next();
                break;
            case 2:
                b = rng.next() | rng.next();
                break;
            default:
                b = ~0ull;
            }
        }
        p.fuel = rng.below(250) == 0 ? 300 + rng.below(700) : rng.chance(4) ? 8 + rng.below(60) : rng.below(7);
        p.lvalue = rng.chance(50);
        p.throwGuard = p.throwAt = -1;
        if (opt.exc && rng.chance(35)) {
            if (rng.chance(30) && !model.guardRow.empty())
                p.throwGuard = std::next(model.guardRow.begin(), rng.below(int(model.guardRow.size())))->first;
            else
                p.throwAt = rng.below(rng.chance(50) ? 3 : 8);
        }
        return p;
    }
    static void load(Ref& r, const Plan& p)
    {
        for (int i = 0; i < 4; i++)
            r.guardBits[i] = p.bits[i];
        r.fuel = p.fuel;
        r.throwGuard = p.throwGuard;
        r.throwAt = p.throwAt;
    }
    bool rowsFor(int ev)
    {
        for (int r = 0; r < ref.active; r++)
            if (!model.at(ref.slots[r].c, ref.slots[r].s, ev).empty())
                return true;
        return false;
    }
    void stepEvent()
    {
        // choose an event, prefer one that takes rows which were rarely taken
        Plan best {};
        int bestScore = -1;
        int tries = rng.chance(70) ? 4 : 1;
        for (int t = 0; t < tries * 4; t++) {
            if (t >= tries && bestScore >= 0)
                break;
            int ev = rng.below(d.nEvents);
            if (rng.chance(75))
                for (int k = 0; k < 8 && !rowsFor(ev); k++)
                    ev = rng.below(d.nEvents);
            Plan p = plan(ev);
            Ref trial = ref;
            trial.st = nullptr;
            trial.rowCov = nullptr;
            trial.factorySerial = nullptr;
            load(trial, p);
            try {
                trial.step(p.ev, p.serial);
            } catch (const RefThrow&) {
            }
            if (trial.illegal)
                continue;
            if (ref.q.size() >= queueCap && trial.q.size() > ref.q.size())
                continue;
            int score = 0;
            for (int row : trial.takenRows)
                score += rowCov.count(row % ROWS_PER_REGION) ? 1 : 8;
            if (score > 12)
                score = 12 + rng.below(4);
            if (trial.q.size() < ref.q.size())
                score += 3;
            if (queueCap > 12 && trial.q.size() > ref.q.size())
                score += 5;
            if (score > bestScore) {
                bestScore = score;
                best = p;
            }
        }
        if (bestScore < 0) {
            stuck++;
            return;
        }
        stuck = 0;
        run(best);
    }
    void run(const Plan& p)
    {
        cur = &ctx;
        const uint64_t serial = p.serial;
        for (int i = 0; i < 4; i++)
            ctx.guardBits[i] = p.bits[i];
        ctx.fuel = p.fuel;
        ctx.throwGuard = p.throwGuard;
        ctx.throwAt = p.throwAt;
        ctx.cbCount = 0;
        ctx.recs.clear();
        ctx.returnedTouches = -1;
        {
            std::ostringstream o;
            o << "event " << p.ev << "#" << serial << (p.lvalue ? " lvalue" : "") << " in " << cfg(ref) << " pending "
              << ref.q.size() << " guards " << std::hex << p.bits[0] << std::dec << " fuel " << p.fuel;
            if (p.throwGuard >= 0)
                o << " throwGuard " << p.throwGuard;
            if (p.throwAt >= 0)
                o << " throwAt " << p.throwAt;
            line(o.str());
        }
        std::vector<RefObj> before = ref.objs;
        const std::string cfgBefore = cfg(ref);
        const size_t qBefore = ref.q.size();
        std::vector<uint64_t> known { serial };
        for (auto& q : ref.q)
            known.push_back(q.serial);
        const uint64_t trivBefore = ctx.trivBorn;
        bool ret = false;
        int thrown = 0;
        {
            Track t(&ctx.bytes);
            try {
                ret = m->process(p.ev, serial, p.lvalue);
            } catch (const CallbackThrow& e) {
                thrown = e.what;
            }
        }
        ctx.throwGuard = ctx.throwAt = -1;
        if (ctx.trivBorn != trivBefore)
            ctx.bad("processing an event constructed a state object");
        cov.steps++;
        cov.callbacks += ctx.recs.size();
        // reference
        std::vector<uint64_t> made;
        for (auto& r : ctx.recs)
            if (r.kind == K_FACTORY)
                made.push_back(r.tgtSerial);
        size_t next = 0;
        ref.factorySerial = [&]() -> uint64_t { return next < made.size() ? made[next++] : ~0ull; };
        ref.rowCov = &rowCov;
        ref.st = &cov.st;
        load(ref, p);
        ref.throwGuard = p.throwGuard;
        bool wantRet = false, wantThrow = false;
        try {
            wantRet = ref.step(p.ev, serial);
        } catch (const RefThrow&) {
            wantThrow = true;
        }
        ref.factorySerial = nullptr;
        maxQ = std::max(maxQ, ref.q.size());
        {
            std::ostringstream o;
            o << "  -> " << (thrown ? "throws" : ret ? "true" : "false") << " expected " << cfg(ref) << " callbacks " << ctx.recs.size();
            line(o.str());
            for (auto& r : ctx.recs)
                if (log.size() < 3900)
                    line("     " + str(r));
        }
        checkFail();
        checkEvents(serial);
        compareTrace();
        if (bool(thrown) != wantThrow)
            fail(wantThrow ? "an exception of a callback did not reach the caller" : "an exception reached the caller unexpectedly");
        if (thrown)
            cov.exceptions++;
        if (!thrown && ret != wantRet)
            fail(std::string("process_event returned ") + (ret ? "true" : "false") + " instead of " + (wantRet ? "true" : "false"));
        checkGuards(before, known);
        ctx.recs.clear();
        verify("event");
        // coverage
        std::ostringstream o;
        o << d.name << "|" << cfgBefore << "|e" << p.ev << "|q" << std::min<size_t>(qBefore, 4) << "|";
        for (int r : ref.takenRows)
            o << r << ",";
        o << (thrown ? "throw" : ret ? "true" : "false") << "|" << cfg(ref);
        if (cov.tuples.insert(hashStr(o.str())).second && cov.samples.size() < 6 && ref.takenRows.size() > 1)
            cov.samples.push_back(o.str());
        cov.configs[type].insert(cfg(ref));
    }
    static bool same(const Rec& a, const Rec& e)
    {
        if (a.kind == K_LOG && e.kind == K_LOG)
            return a.ev == e.ev && a.src == e.src && (a.tgt == e.tgt || e.tgt == OBJ_WILD);
        if (a.kind != e.kind || a.id != e.id || a.ev != e.ev || a.evSerial != e.evSerial || a.src != e.src
            || a.srcSerial != e.srcSerial || a.srcTouches != e.srcTouches || a.nd != e.nd)
            return false;
        for (int i = 0; i < a.nd && i < MAXDEP; i++)
            if (a.dep[i] != e.dep[i])
                return false;
        if (e.tgt == OBJ_WILD)
            return true;
        return a.tgt == e.tgt && a.tgtSerial == e.tgtSerial && a.tgtTouches == e.tgtTouches;
    }
    // each callback gets the event itself: what earlier callbacks did to it is still there
    void checkEvents(uint64_t serial)
    {
        std::map<uint64_t, uint64_t> had;
        for (auto& a : ctx.recs) {
            if (a.ev == NONE_EVENT || a.kind == K_LOG)
                continue;
            uint64_t& n = had[a.evSerial];
            if (a.evTouches != n)
                fail("callback got another object than earlier callbacks of the same event: " + str(a));
            if (a.kind != K_GUARD)
                n++;
        }
        if (ctx.returnedTouches >= 0 && uint64_t(ctx.returnedTouches) != had[serial])
            fail("the callbacks did not have the caller's event but a copy");
        ctx.returnedTouches = -1;
    }
    void compareTrace()
    {
        size_t k = 0;
        for (auto& a : ctx.recs) {
            if (a.kind == K_GUARD)
                continue;
            if (k >= ref.out.size())
                fail("unexpected callback: " + str(a));
            if (!same(a, ref.out[k].r))
                fail("callback: " + str(a) + "\n    expected: " + str(ref.out[k].r));
            k++;
        }
        if (k < ref.out.size())
            fail("missing callback: " + str(ref.out[k].r));
    }
    void checkGuards(const std::vector<RefObj>& before, const std::vector<uint64_t>& known)
    {
        for (auto& a : ctx.recs) {
            if (a.kind != K_GUARD)
                continue;
            cov.guards++;
            auto it = model.guardRow.find(a.id);
            if (it == model.guardRow.end())
                fail("unknown guard: " + str(a));
            const Row* row = it->second.first;
            const IRow* irow = it->second.second;
            auto objOk = [&](int id, uint64_t serial) {
                return serial == ref.objs[id].serial || serial == before[id].serial || custom(id);
            };
            int ev = row ? row->ev : irow->ev;
            bool ok = a.ev == ev && a.nd == d.nDeps;
            if (ev != NONE_EVENT)
                ok = ok && std::find(known.begin(), known.end(), a.evSerial) != known.end();
            for (int i = 0; i < d.nDeps; i++)
                ok = ok && a.dep[i] == ref.depSerial[i];
            if (row) {
                ok = ok && a.src == row->src && objOk(a.src, a.srcSerial);
                int tgt = row->tgtKind == TGT_COMPOSITE ? d.comps[row->tgtParent].init[0] : row->tgt;
                if (row->tgtKind != TGT_HISTORY)
                    ok = ok && a.tgt == tgt && objOk(a.tgt, a.tgtSerial);
            } else {
                ok = ok && a.src == a.tgt && a.srcSerial == a.tgtSerial && a.src >= 0 && a.src < d.nStates;
                if (ok && irow->owner >= 0)
                    ok = a.src == irow->owner;
                else if (ok)
                    ok = std::find(model.compStates[irow->comp].begin(), model.compStates[irow->comp].end(), a.src)
                        != model.compStates[irow->comp].end();
                ok = ok && objOk(a.src, a.srcSerial);
            }
            if (!ok)
                fail("guard got wrong arguments: " + str(a));
        }
    }

    // --------------------------------------------------------------- other operations
    void opRebind()
    {
        cur = &ctx;
        line("rebind");
        auto fresh = std::make_unique<DepHolder>();
        {
            Track t(&ctx.bytes);
            m->rebind(fresh->set());
        }
        deps = std::move(fresh); // destroys the old ones
        setDepSerials();
        cov.rebinds++;
        verify("rebinding");
    }
    void dropZombie()
    {
        Track t(&ctx.bytes);
        m->destroyZombie();
    }
    void opMove()
    {
        cur = &ctx;
        cov.moves++;
        int kind = rng.below(5);
        ctx.recs.clear();
        if (kind <= 1) {
            bool keep = kind == 1;
            line(keep ? "move construct, keep the old one" : "move construct");
            uint8_t f = fill();
            {
                Track t(&ctx.bytes);
                m->moveConstruct(f, keep);
            }
            zombieAge = 0;
            verify("move construction");
        } else if (kind == 2 && m->hasZombie()) {
            line("move back");
            {
                Track t(&ctx.bytes);
                m->moveBack();
            }
            verify("move assignment to a moved-from machine");
        } else if (kind == 3 && m->hasZombie()) {
            line("destroy moved-from machine");
            dropZombie();
            verify("destruction of a moved-from machine");
        } else {
            // assign to another machine that has a life of its own
            if (m->hasZombie())
                dropZombie();
            line("move assign");
            IMachine* other;
            auto otherDeps = std::make_unique<DepHolder>();
            {
                Track t(&ctx.bytes);
                other = types()[type].create(fill(), otherDeps->set());
            }
            ctx.mute = true;
            int n = rng.below(6);
            if (model.d.nStates > 0 && !anyCustom())
                for (int i = 0; i < n; i++) {
                    for (auto& b : ctx.guardBits)
                        b = rng.next() | rng.next();
                    ctx.fuel = 3;
                    Track t(&ctx.bytes);
                    other->process(rng.below(d.nEvents), newSerial(), false);
                }
            ctx.mute = false;
            ctx.recs.clear();
            {
                Track t(&ctx.bytes);
                m->moveAssignInto(*other);
            }
            IMachine* old = m;
            m = other;
            if (rng.chance(50)) {
                line("destroy the assigned-from machine");
                {
                    Track t(&ctx.bytes);
                    delete old;
                }
                otherDeps.reset();
                verify("move assignment");
            } else {
                // use the new one while the old one still exists
                Plan p;
                bool have = false;
                for (int t = 0; t < 8 && !have; t++) {
                    p = plan(rng.below(d.nEvents));
                    Ref trial = ref;
                    trial.st = nullptr;
                    trial.rowCov = nullptr;
                    load(trial, p);
                    try {
                        trial.step(p.ev, p.serial);
                    } catch (const RefThrow&) {
                    }
                    have = !trial.illegal;
                }
                skipCounts = true;
                if (have)
                    runWhileOther(p);
                skipCounts = false;
                {
                    Track t(&ctx.bytes);
                    delete old;
                }
                verify("move assignment and later destruction of the source");
            }
        }
        checkFail();
    }
    bool skipCounts = false;
    // An exception between leaving the source and creating the target makes a state active whose object
    // does not exist, no further event can be given to it (known finding, see probes/)
    bool orphaned()
    {
        for (int r = 0; r < ref.active; r++) {
            int st = ref.slots[r].s;
            if (st >= 0 && custom(st) && !ref.objs[st].serial)
                return true;
        }
        return false;
    }
    bool anyCustom() const
    {
        for (int i = 0; i < d.nStates; i++)
            if (d.states[i].custom)
                return true;
        return false;
    }
    // drives the machine while another one shares the context: only trace and verdict are compared
    void runWhileOther(const Plan& p)
    {
        const uint64_t serial = p.serial;
        for (int i = 0; i < 4; i++)
            ctx.guardBits[i] = p.bits[i];
        ctx.fuel = p.fuel;
        ctx.throwGuard = p.throwGuard;
        ctx.throwAt = p.throwAt;
        ctx.cbCount = 0;
        ctx.recs.clear();
        line("event " + std::to_string(p.ev) + "#" + std::to_string(serial) + " while the source still exists");
        bool ret = false;
        bool thrown = false;
        {
            Track t(&ctx.bytes);
            try {
                ret = m->process(p.ev, serial, p.lvalue);
            } catch (const CallbackThrow&) {
                thrown = true;
            }
        }
        std::vector<uint64_t> made;
        for (auto& r : ctx.recs)
            if (r.kind == K_FACTORY)
                made.push_back(r.tgtSerial);
        size_t next = 0;
        ref.factorySerial = [&]() -> uint64_t { return next < made.size() ? made[next++] : ~0ull; };
        ref.rowCov = &rowCov;
        ref.st = &cov.st;
        load(ref, p);
        bool want = false, wantThrow = false;
        try {
            want = ref.step(p.ev, serial);
        } catch (const RefThrow&) {
            wantThrow = true;
        }
        ref.factorySerial = nullptr;
        ctx.throwGuard = ctx.throwAt = -1;
        checkFail();
        checkEvents(serial);
        compareTrace();
        if (thrown != wantThrow || (!thrown && ret != want))
            fail("wrong verdict after move assignment");
        ctx.recs.clear();
    }
    void opSet()
    {
        cur = &ctx;
        ctx.recs.clear();
        cov.sets++;
        if (rng.chance(15)) {
            int r = model.maxRegions + rng.below(4);
            if (rng.chance(20))
                r = 255;
            line("set region " + std::to_string(r));
            bool threw = false;
            try {
                m->set3(r, 0, d.comps[0].init[0]);
            } catch (const std::exception&) {
                threw = true;
            }
            if (!threw)
                fail("set accepted the region " + std::to_string(r) + " which does not exist");
            cov.rejectedSets++;
            verify("a rejected set");
            return;
        }
        auto pickState = [&](int c) {
            auto& v = model.compStates[c];
            for (int k = 0; k < 20; k++) {
                int s = v[rng.below(int(v.size()))];
                if (!custom(s) || ref.objs[s].serial)
                    return s;
            }
            return -1;
        };
        int c = rng.below(d.nComps);
        int s = pickState(c);
        if (s < 0)
            return;
        int form = rng.below(3);
        if (form == 2 && c != 0)
            form = 1;
        line("set form " + std::to_string(form) + " C" + std::to_string(c) + " S" + std::to_string(s));
        if (form == 0)
            m->set3(0, c, s);
        else if (form == 1)
            m->set2(c, s);
        else
            m->set1(s);
        ref.force(0, c, s);
        // the other regions, those of the root keep what they had unless they are set
        int base = ref.rootRegions;
        for (int r = 1; r < ref.active; r++) {
            int rc = r < base ? (rng.chance(70) ? 0 : -1) : c;
            if (rc < 0)
                continue;
            int rs = pickState(rc);
            if (rs < 0)
                rs = d.comps[rc].init[r];
            line("set region " + std::to_string(r) + " C" + std::to_string(rc) + " S" + std::to_string(rs));
            m->set3(r, rc, rs);
            ref.force(r, rc, rs);
        }
        verify("set");
    }

    // another instance whose construction fails half way leaves nothing behind
    void opFailingConstruction()
    {
        cur = &ctx;
        if (m->hasZombie())
            return;
        auto otherDeps = std::make_unique<DepHolder>();
        const int64_t bytes = ctx.bytes;
        int64_t objects = 0, allocations = 0;
        {
            ctx.born = 0;
            Track t(&ctx.bytes);
            tlAllocations = 0;
            IMachine* other = types()[type].create(fill(), otherDeps->set());
            allocations = tlAllocations;
            objects = ctx.born;
            delete other;
        }
        bool memory = allocations > 0 && rng.chance(60);
        const int64_t at = 1 + int64_t(rng.next() % uint64_t(memory ? allocations : std::max<int64_t>(objects, 1)));
        line(std::string("construct another instance, ") + (memory ? "allocation " : "state object ") + std::to_string(at) + " fails");
        (memory ? tlFailIn : ctx.bornFailIn) = at;
        int threw = 0;
        IMachine* other = nullptr;
        {
            Track t(&ctx.bytes);
            try {
                other = types()[type].create(fill(), otherDeps->set());
            } catch (const CallbackThrow& e) {
                threw = 1;
            } catch (const std::bad_alloc&) {
                threw = 2;
            }
        }
        const bool hit = !(memory ? tlFailIn : ctx.bornFailIn);
        tlFailIn = ctx.bornFailIn = 0;
        if (hit && threw != (memory ? 2 : 1))
            fail("an exception during construction did not reach the caller");
        if (other) {
            Track t(&ctx.bytes);
            delete other;
        }
#ifndef HX_NOALLOC
        if (ctx.bytes != bytes)
            fail("a construction that failed left " + std::to_string(ctx.bytes - bytes) + " bytes");
#endif
        cov.failedConstructions += hit;
        verify("a construction of another instance that failed"); // counts the objects
    }

    void op()
    {
        cur = &ctx;
        if (opt.cfail && int(rng.below(1000)) < opt.cfail)
            opFailingConstruction();
        int x = rng.below(100);
        if (opt.rebind && x < opt.rebind)
            opRebind();
        else if (opt.move && x < opt.rebind + opt.move)
            opMove();
        else if (opt.set && d.caps_set && x < opt.rebind + opt.move + opt.set)
            opSet();
        else if ((opt.recreate && rng.below(1000) < opt.recreate) || stuck > 3 || orphaned()) {
            stuck = 0;
            cov.recreations++;
            destroy();
            create();
        } else
            stepEvent();
        if (m && m->hasZombie() && ++zombieAge > 6) {
            dropZombie();
            verify("destruction of a moved-from machine");
        }
    }
};

std::atomic<bool> failed { false };
std::mutex outMutex;

void report(Session& s, const std::string& what)
{
    std::lock_guard<std::mutex> l(outMutex);
    failed = true;
    std::printf("VIOL machine=%s %s\n", s.d.name, what.c_str());
    std::printf("---- last operations\n");
    size_t from = s.log.size() > 60 ? s.log.size() - 60 : 0;
    for (size_t i = from; i < s.log.size(); i++)
        std::printf("%s\n", s.log[i].c_str());
    std::printf("---- end\n");
    std::fflush(stdout);
}

// several instances of several types driven in turns by one thread
bool drive(const std::vector<int>& typesToRun, uint64_t seed, Coverage& cov)
{
    std::map<int, std::pair<std::map<std::string, std::string>, std::map<std::string, std::string>>> status;
    Rng rng { seed };
    for (int round = 0; round < opt.rounds; round++) {
        std::vector<std::unique_ptr<Session>> ss;
        for (int t : typesToRun)
            for (int i = 0; i < opt.sessions; i++)
                ss.push_back(std::make_unique<Session>(t, rng.next(), cov, status[t].first, status[t].second));
        Session* at = nullptr;
        // while a callback of one instance runs, others are driven, constructed and destroyed
        std::vector<Session*> busy;
        std::function<void()> nest = [&] {
            if (busy.size() > 3 || int(rng.below(100)) >= opt.nest)
                return;
            Session* s = ss[rng.below(int(ss.size()))].get();
            if (std::find(busy.begin(), busy.end(), s) != busy.end())
                return;
            Ctx* outer = cur;
            busy.push_back(s);
            cov.nestedOps++;
            try {
                s->op();
            } catch (const Failure& f) {
                at = s;
                outer->bad("while a callback of another instance ran: " + f.what);
            }
            busy.pop_back();
            cur = outer;
        };
        try {
            for (auto& s : ss) {
                at = s.get();
                s->create();
            }
            if (opt.nest)
                nested = &nest;
            for (int i = 0; i < opt.ops * int(ss.size()); i++) {
                at = ss[rng.below(int(ss.size()))].get();
                busy.assign(1, at);
                at->op();
                if (failed)
                    break;
            }
            nested = nullptr;
            for (auto& s : ss) {
                at = s.get();
                if (opt.move || s->m->hasZombie()) {
                    cur = &s->ctx;
                    s->dropZombie();
                }
                s->destroy();
                cov.eventCopies += s->ctx.eventCopies;
            }
        } catch (const Failure& f) {
            nested = nullptr;
            report(*at, f.what);
            for (auto& s : ss)
                s.release(); // abandoned on purpose
            return false;
        } catch (const std::exception& e) {
            report(*at, std::string("exception ") + e.what());
            for (auto& s : ss)
                s.release();
            return false;
        }
        for (auto& s : ss)
            cov.rows[s->type].insert(s->rowCov.begin(), s->rowCov.end());
        cur = nullptr;
    }
    return true;
}

// a pool of instances whose owner changes: every operation may run on another thread than the one before
bool handoff(const std::vector<int>& typesToRun, uint64_t seed, Coverage& total)
{
    struct Item {
        std::mutex mutex;
        Coverage cov;
        std::map<std::string, std::string> a, b;
        std::unique_ptr<Session> s;
        std::thread::id last;
        bool dead = false;
    };
    Rng rng { seed };
    for (int round = 0; round < opt.rounds; round++) {
        std::vector<std::unique_ptr<Item>> items;
        for (int t : typesToRun)
            for (int i = 0; i < opt.sessions; i++) {
                items.push_back(std::make_unique<Item>());
                auto& it = *items.back();
                it.s = std::make_unique<Session>(t, rng.next(), it.cov, it.a, it.b);
            }
        std::atomic<bool> good { true };
        std::vector<std::thread> ts;
        for (int i = 0; i < opt.threads; i++) {
            uint64_t own = rng.next();
            ts.emplace_back([&, own] {
                Rng r { own };
                for (int k = 0; k < opt.ops && good; k++) {
                    Item& it = *items[r.below(int(items.size()))];
                    std::lock_guard<std::mutex> l(it.mutex);
                    if (it.last != std::this_thread::get_id()) {
                        it.last = std::this_thread::get_id();
                        it.cov.handoffs++;
                    }
                    try {
                        if (!it.s->m)
                            it.s->create();
                        it.s->op();
                    } catch (const Failure& f) {
                        report(*it.s, f.what);
                        good = false;
                    } catch (const std::exception& e) {
                        report(*it.s, std::string("exception ") + e.what());
                        good = false;
                    }
                    cur = nullptr;
                }
            });
        }
        for (auto& t : ts)
            t.join();
        if (!good) {
            for (auto& it : items)
                it.release(); // abandoned on purpose
            return false;
        }
        for (auto& it : items) {
            if (it->s->m) {
                try {
                    cur = &it->s->ctx;
                    it->s->dropZombie();
                    it->s->destroy();
                } catch (const Failure& f) {
                    report(*it->s, f.what);
                    return false;
                }
                cur = nullptr;
            }
            it->cov.rows[it->s->type].insert(it->s->rowCov.begin(), it->s->rowCov.end());
            total.merge(it->cov);
        }
    }
    return true;
}

void onHang(int)
{
    static const char msg[] = "HANG the run used up its processor time\n";
    ssize_t r = write(1, msg, sizeof msg - 1);
    (void)r;
    _exit(77);
}

std::string quote(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            o += '\\';
        o += c;
    }
    return o + "\"";
}
}

int main(int argc, char** argv)
{
    int limit = 120;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto eq = a.find('=');
        std::string k = a.substr(0, eq), v = eq == std::string::npos ? "1" : a.substr(eq + 1);
        long long n = std::atoll(v.c_str());
        if (k == "machine")
            opt.machine = int(n);
        else if (k == "seed")
            opt.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "ops")
            opt.ops = int(n);
        else if (k == "sessions")
            opt.sessions = int(n);
        else if (k == "rounds")
            opt.rounds = int(n);
        else if (k == "threads")
            opt.threads = int(n);
        else if (k == "exc")
            opt.exc = int(n);
        else if (k == "move")
            opt.move = int(n);
        else if (k == "set")
            opt.set = int(n);
        else if (k == "query")
            opt.query = int(n);
        else if (k == "rebind")
            opt.rebind = int(n);
        else if (k == "recreate")
            opt.recreate = int(n);
        else if (k == "mem")
            opt.mem = int(n);
        else if (k == "log")
            opt.log = int(n);
        else if (k == "cfail")
            opt.cfail = int(n);
        else if (k == "nest")
            opt.nest = int(n);
        else if (k == "handoff")
            opt.handoff = int(n);
        else if (k == "limit")
            limit = int(n);
        else if (k == "list") {
            for (size_t t = 0; t < types().size(); t++)
                std::printf("%zu %s\n", t, types()[t].desc->name);
            return 0;
        } else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    if (types().empty()) {
        std::fprintf(stderr, "no machines\n");
        return 3;
    }
    // registration order depends on the link order, make it stable
    std::sort(types().begin(), types().end(), [](const MachineType& a, const MachineType& b) {
        return std::strcmp(a.desc->name, b.desc->name) < 0;
    });
    static LogLines logLines;
    if (opt.threads == 0 && !opt.handoff)
        std::cout.rdbuf(&logLines);
    std::signal(SIGVTALRM, onHang);
    struct itimerval tv {};
    tv.it_value.tv_sec = limit;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);

    for (auto& t : types())
        models.push_back(std::make_unique<Model>(*t.desc));
    std::vector<int> run;
    for (size_t t = 0; t < types().size(); t++)
        if (opt.machine < 0 || int(t) == opt.machine)
            run.push_back(int(t));
    Coverage cov;
    bool ok = true;
    if (opt.handoff) {
        ok = handoff(run, opt.seed * 7919 + 29, cov);
    } else if (opt.threads > 0) {
        std::vector<std::thread> ts;
        std::vector<Coverage> covs(opt.threads);
        std::atomic<int> ready { 0 };
        std::atomic<bool> good { true };
        for (int i = 0; i < opt.threads; i++)
            ts.emplace_back([&, i] {
                Rng r { opt.seed * 1000003 + uint64_t(i) };
                std::vector<int> mine = run;
                for (size_t k = mine.size(); k > 1; k--)
                    std::swap(mine[k - 1], mine[r.below(int(k))]);
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < opt.threads)
                    std::this_thread::yield();
                for (int t : mine)
                    if (!drive({ t }, r.next(), covs[i])) {
                        good = false;
                        break;
                    }
            });
        for (auto& t : ts)
            t.join();
        for (auto& c : covs)
            cov.merge(c);
        ok = good;
    } else
        ok = drive(run, opt.seed * 7919 + 17, cov);
    size_t nrows = 0, hit = 0;
    for (int t : run) {
        nrows += types()[t].desc->nRows + types()[t].desc->nIRows;
        hit += cov.rows[t].size();
    }
    size_t configs = 0;
    for (auto& kv : cov.configs)
        configs += kv.second.size();
    const Stats& s = cov.st;
    std::ostringstream o;
    o << "COVERAGE {\"machines\":" << run.size() << ",\"instances\":" << cov.instances << ",\"events\":" << cov.steps
      << ",\"distinct\":" << cov.tuples.size() << ",\"configurations\":" << configs << ",\"rows\":" << nrows
      << ",\"rows_taken\":" << hit << ",\"callbacks\":" << cov.callbacks << ",\"guards\":" << cov.guards
      << ",\"queries\":" << cov.queries << ",\"sets\":" << cov.sets << ",\"rejected_sets\":" << cov.rejectedSets
      << ",\"moves\":" << cov.moves << ",\"rebinds\":" << cov.rebinds << ",\"exceptions\":" << cov.exceptions
      << ",\"status_texts\":" << cov.statusTexts << ",\"memory_samples\":" << cov.memSamples << ",\"max_bytes\":" << cov.maxBytes
      << ",\"event_copies\":" << cov.eventCopies << ",\"recreations\":" << cov.recreations
      << ",\"nested_operations\":" << cov.nestedOps << ",\"handoffs\":" << cov.handoffs << ",\"failed_constructions\":" << cov.failedConstructions;
#define S(x) o << ",\"" #x "\":" << s.x
    S(taken);
    S(internalTaken);
    S(anonTaken);
    S(rejected);
    S(unexpected);
    S(deferred);
    S(recalled);
    S(redeferred);
    S(recalledUnexpected);
    S(recalledRejected);
    S(compositeTaken);
    S(entered);
    S(left);
    S(pseudoEntry);
    S(pseudoExit);
    S(history);
    S(historyNonInitial);
    S(multiRegion);
    S(contested);
    S(maxQueue);
    S(factory);
    S(reuse);
    S(thrownGuard);
    S(thrownAction);
    S(fellThroughOuter);
    S(logged);
#undef S
    o << ",\"samples\":[";
    for (size_t i = 0; i < cov.samples.size(); i++)
        o << (i ? "," : "") << quote(cov.samples[i]);
    o << "]}";
    std::printf("%s\nTUPLES", o.str().c_str());
    for (uint64_t h : cov.tuples)
        std::printf(" %llx", (unsigned long long)h);
    std::printf("\n");
    std::fflush(stdout);
    return ok ? 0 : 1;
}
