// Interface between generated machines (the code under test) and the monitor.
// This header knows nothing about the library under test.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <typeinfo>
#include <vector>

namespace hx {

enum Kind : uint8_t { K_GUARD = 0, K_EXIT, K_ACTION, K_ENTRY, K_HANDLER, K_FACTORY, K_LOG };

constexpr int NONE_EVENT = -1;
constexpr int OBJ_WILD = -2; // target object is not specified for this callback
constexpr int OBJ_NULL = -3; // custom target that has not been created yet
constexpr int MAXDEP = 3;
constexpr int LOG_ACTION = 100000; // hsm::log

// ------------------------------------------------------------------ definition tables
enum SrcKind : uint8_t { SRC_PLAIN = 0, SRC_EXIT, SRC_DIRECT };
enum TgtKind : uint8_t { TGT_PLAIN = 0, TGT_COMPOSITE, TGT_ENTRY, TGT_DIRECT, TGT_HISTORY };
enum ActKind : uint8_t { ACT_NORMAL = 0, ACT_FACTORY, ACT_REUSE };

struct Row {
    int parent; // composite index of the table this row is declared in
    SrcKind srcKind;
    int srcParent; // composite index for pseudo sources
    int src; // object id
    int ev; // NONE_EVENT for anonymous rows
    int guard; // -1 or guard id
    ActKind actKind;
    int nact;
    int act[6];
    TgtKind tgtKind;
    int tgtParent; // composite index for pseudo targets and composites
    int tgt; // object id (composites: their object)
};

struct IRow { // internal row
    int owner; // object id of the plain state, or -1
    int comp; // composite index, or -1
    int ev;
    int guard;
    int nact;
    int act[6];
};

struct StateD {
    bool entry, exit;
    uint32_t deferMask;
    bool custom; // not default constructible
    bool triv; // trivially copyable
};

struct CompD {
    int obj; // object id
    int enclosing; // composite index, -1 for the root
    int nInit;
    int init[12];
    bool entry, exit;
    bool triv;
};

struct MDesc {
    const char* name;
    int nStates; // plain states: object ids 0..nStates-1
    int nComps; // composites: object ids nStates..nStates+nComps-1, composite 0 is the root
    int nEvents;
    int nDeps;
    uint32_t trivEvents; // trivially copyable ones
    bool handler;
    bool caps_query; // is1/is2/parent_is available
    bool caps_set; // set available
    int nRows;
    const Row* rows;
    int nIRows;
    const IRow* irows;
    const StateD* states;
    const CompD* comps;
    const std::type_info* const* types; // of the objects, hsm::noneEvent, the events
};

// ------------------------------------------------------------------ runtime objects
// State objects and events of all kinds start with these heads.
struct ObjHead {
    static constexpr uint32_t MAGIC = 0x0b5ec7ed;
    uint32_t magic;
    bool heavy; // has data on the heap and counts its copies
    int id;
    uint64_t serial;
    uint64_t touches;
};
struct ObjBase : ObjHead {
    std::string blob; // heap data, so that stale or copied objects are noticed
    explicit ObjBase(int id);
    ObjBase(const ObjBase&);
    ObjBase& operator=(const ObjBase&);
    ~ObjBase();
};
struct TrivObjBase : ObjHead { // trivially copyable: copies are noticed by their address
    explicit TrivObjBase(int id);
};

struct EvHead {
    static constexpr uint32_t MAGIC = 0xe7e27ab1;
    uint32_t magic;
    bool heavy;
    int id;
    uint64_t serial;
    uint64_t touches; // callbacks that had this event, so that a copy is noticed wherever it is made
    uint64_t check; // a function of serial and id
};
struct EvBase : EvHead {
    std::string payload;
    EvBase(int id, uint64_t serial);
    EvBase(const EvBase& o);
    EvBase(EvBase&& o);
    EvBase& operator=(const EvBase&) = default;
    EvBase& operator=(EvBase&&) = default;
    ~EvBase();
};
struct TrivEvBase : EvHead {
    TrivEvBase(int id, uint64_t serial);
};

struct DepBase {
    static constexpr uint32_t MAGIC = 0xde9de9de;
    uint32_t magic;
    int slot;
    uint64_t serial;
    uint64_t uses;
    DepBase(int slot, uint64_t serial)
        : magic(MAGIC), slot(slot), serial(serial), uses(0) {}
    DepBase(const DepBase&) = delete;
    DepBase& operator=(const DepBase&) = delete;
    ~DepBase() { magic = 0; }
};
struct Dep0 : DepBase { explicit Dep0(uint64_t s) : DepBase(0, s) {} };
struct Dep1 : DepBase { explicit Dep1(uint64_t s) : DepBase(1, s) {} };
struct Dep2 : DepBase { explicit Dep2(uint64_t s) : DepBase(2, s) {} };
struct DepSet {
    Dep0* d0;
    Dep1* d1;
    Dep2* d2;
};

struct Rec {
    uint8_t kind;
    int id;
    int ev;
    uint64_t evSerial;
    uint64_t evTouches; // before this callback
    int src;
    uint64_t srcSerial;
    uint64_t srcTouches; // before this callback
    int tgt;
    uint64_t tgtSerial;
    uint64_t tgtTouches;
    uint64_t dep[MAXDEP];
    int nd;
};

struct CallbackThrow {
    int what;
};

// Called by every callback of a generated machine (implemented by the monitor).
bool note(
    Kind kind,
    int id,
    const EvHead* ev, // nullptr for anonymous
    ObjHead* src,
    ObjHead* tgt,
    bool touchTgt,
    DepBase* const* deps,
    int nd);
uint64_t newSerial();

// Machine instance as driven by the monitor
struct IMachine {
    virtual ~IMachine() = default;
    virtual bool process(int ev, uint64_t serial, bool lvalue) = 0;
    virtual bool is3(int region, int comp, int state) = 0;
    virtual bool is2(int comp, int state) = 0;
    virtual bool is1(int state) = 0;
    virtual bool parentIs(int comp) = 0;
    virtual void set3(int region, int comp, int state) = 0;
    virtual void set2(int comp, int state) = 0;
    virtual void set1(int state) = 0;
    virtual std::string status() = 0;
    virtual void rebind(const DepSet&) = 0;
    // Moves the machine into new storage, the old one is destroyed at once or kept alive (zombie)
    virtual void moveConstruct(uint8_t fill, bool keepZombie) = 0;
    // Moves this machine into the machine `into` holds (same type), into's former content is gone
    virtual void moveAssignInto(IMachine& into) = 0;
    virtual void destroyZombie() = 0;
    virtual bool hasZombie() = 0;
    // Moves the machine back into the moved-from object that was kept
    virtual void moveBack() = 0;
    virtual size_t objSize() = 0;
};

struct MachineType {
    const MDesc* desc;
    IMachine* (*create)(uint8_t fill, const DepSet&);
};
const MachineType* machineTypes(int& n); // implemented by the generated translation units
void registerMachine(const MachineType& t);
struct Registrar {
    explicit Registrar(const MachineType& t) { registerMachine(t); }
};

void setCurrentEvent(const void* addr, uint64_t serial);
void eventReturned(const EvHead& e);
}
