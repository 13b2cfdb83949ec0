// Building blocks of generated machines: states, events, guards and actions that report to the monitor.
#pragma once
#ifdef HX_AMALGAM
#include "hsm/gen/hsm.h"
#else
#include "hsm/hsm.h"
#endif
#include "hx_api.h"

#include <cstring>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

namespace hx {

template <int ID> struct Ev : EvBase {
    explicit Ev(uint64_t serial) : EvBase(ID, serial) {}
    Ev(uint64_t serial, int id) : EvBase(id, serial) {} // for events that are derived from this one
};

template <int ID> struct Obj : ObjBase {
    Obj() : ObjBase(ID) {}
    explicit Obj(int id) : ObjBase(id) {} // for states that are derived from this one
};
// other kinds of types
template <int ID> struct TrivEv : TrivEvBase {
    explicit TrivEv(uint64_t serial) : TrivEvBase(ID, serial) {}
    TrivEv(uint64_t serial, int id) : TrivEvBase(id, serial) {}
};
template <int ID> struct BigEv : EvBase {
    char room[200] {};
    explicit BigEv(uint64_t serial) : EvBase(ID, serial) {}
    BigEv(uint64_t serial, int id) : EvBase(id, serial) {}
};
template <int ID> struct TrivObj : TrivObjBase {
    TrivObj() : TrivObjBase(ID) {}
    explicit TrivObj(int id) : TrivObjBase(id) {}
};
template <int ID> struct PinnedObj : ObjBase {
    PinnedObj() : ObjBase(ID) {}
    PinnedObj(const PinnedObj&) = delete;
    PinnedObj& operator=(const PinnedObj&) = delete;
};
template <int ID> struct BigObj : ObjBase {
    char room[700] {};
    BigObj() : ObjBase(ID) {}
};
template <int ID> struct alignas(64) AlignedObj : ObjBase {
    AlignedObj() : ObjBase(ID) {}
};
template <int ID> struct VirtualObj : ObjBase {
    VirtualObj() : ObjBase(ID) {}
    virtual ~VirtualObj() = default;
};
template <int ID> struct CustomObj : ObjBase {
    explicit CustomObj(int) : ObjBase(ID) {}
    CustomObj(const CustomObj&) = delete;
    CustomObj& operator=(const CustomObj&) = delete;
};
template <int ID> struct CopyableCustomObj : ObjBase {
    explicit CopyableCustomObj(int) : ObjBase(ID) {}
};

inline const EvHead* evOf(const EvHead& e) { return &e; }
inline const EvHead* evOf(const hsm::noneEvent&) { return nullptr; }
inline ObjHead* objOf(ObjHead& o) { return &o; }
inline ObjHead* objOf(const ObjHead& o) { return const_cast<ObjHead*>(&o); }
template <class T, class = std::enable_if_t<!std::is_base_of<ObjHead, T>::value>> ObjHead* objOf(const T&)
{
    return nullptr; // library's own state types, e.g. History<...>: callbacks are instantiated for them, never called
}
template <class T> ObjHead* objOf(const std::shared_ptr<std::unique_ptr<T>>& p)
{
    return p ? static_cast<ObjHead*>(p->get()) : nullptr;
}

inline DepBase* depOf(const DepBase& d) { return const_cast<DepBase*>(&d); }

template <class E, class S, class T, class... D>
bool cb(Kind k, int id, bool touchT, E& e, S& s, T& t, D&... d)
{
    DepBase* deps[sizeof...(D) + 1] = { depOf(d)..., nullptr };
    return note(k, id, evOf(e), objOf(s), objOf(t), touchT, deps, int(sizeof...(D)));
}

// Guards and actions in the forms the front ends accept: types that carry their identity ...
template <int ID> struct G {
    template <class E, class S, class T, class... D>
    bool operator()(E& e, S& s, T& t, D&... d) const { return cb(K_GUARD, ID, false, e, s, t, d...); }
};
template <int ID> struct A {
    template <class E, class S, class T, class... D>
    auto operator()(E& e, S& s, T& t, D&... d) const
    {
        cb(K_ACTION, ID, true, e, s, t, d...);
        if constexpr (ID % 3 == 0)
            return false; // what an action returns has no meaning
    }
};
// ... types that carry it as a stored value ...
struct GV {
    int id;
    template <class E, class S, class T, class... D>
    int operator()(E& e, S& s, T& t, D&... d) const { return cb(K_GUARD, id, false, e, s, t, d...) ? 256 : 0; }
};
struct AV {
    int id;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... d) const { cb(K_ACTION, id, true, e, s, t, d...); }
};
// ... without touching the target
struct AW {
    int id;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... d) const { cb(K_ACTION, id, false, e, s, t, d...); }
};
struct Entry {
    int id;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... d) const { cb(K_ENTRY, id, true, e, s, t, d...); }
};
struct Exit {
    int id;
    bool touch = true;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... d) const { cb(K_EXIT, id, false, e, s, t, d...); }
};
struct Handler {
    template <class E, class S, class... D> void operator()(E& e, S& s, D&... d) const
    {
        DepBase* deps[sizeof...(D) + 1] = { depOf(d)..., nullptr };
        note(K_HANDLER, 0, evOf(e), objOf(s), nullptr, false, deps, int(sizeof...(D)));
    }
};
template <class S2> struct Factory {
    int id;
    template <class E, class S> std::unique_ptr<S2> operator()(E& e, S& s) const
    {
        auto p = std::make_unique<S2>(0);
        note(K_FACTORY, id, evOf(e), objOf(s), p.get(), true, nullptr, 0);
        return p;
    }
};

template <class Sm> struct Holder {
    unsigned char* raw = nullptr;
    Sm* sm = nullptr;
    template <class... A> void make(uint8_t fill, A&&... a)
    {
        static_assert(alignof(Sm) <= __STDCPP_DEFAULT_NEW_ALIGNMENT__, "alignment");
        raw = static_cast<unsigned char*>(::operator new(sizeof(Sm)));
        std::memset(raw, fill, sizeof(Sm));
        sm = new (raw) Sm(std::forward<A>(a)...);
    }
    void destroy()
    {
        if (sm)
            sm->~Sm();
        if (raw)
            ::operator delete(raw);
        sm = nullptr;
        raw = nullptr;
    }
};

// Sm: the library's machine type; Impl: the generated switches over events and states
template <class Sm, class Impl> struct MachineBase : IMachine {
    Holder<Sm> h;
    Holder<Sm> zombie;
    ~MachineBase() override
    {
        zombie.destroy();
        h.destroy();
    }
    Sm& sm() { return *h.sm; }
    template <class E> bool dispatch(uint64_t serial, bool lvalue)
    {
        E e(serial);
        setCurrentEvent(static_cast<const EvHead*>(&e), serial);
        if (!lvalue)
            return sm().process_event(std::move(e));
        const bool taken = sm().process_event(e);
        eventReturned(e); // the caller's event is the one the callbacks had
        return taken;
    }
    std::string status() override { return sm().status(); }
    bool is2(int, int) override { return false; }
    bool is1(int) override { return false; }
    bool parentIs(int) override { return false; }
    void set3(int, int, int) override {}
    void set2(int, int) override {}
    void set1(int) override {}
    void moveConstruct(uint8_t fill, bool keep) override
    {
        zombie.destroy();
        Holder<Sm> old = h;
        h = Holder<Sm> {};
        h.make(fill, std::move(*old.sm));
        if (keep)
            zombie = old;
        else
            old.destroy();
    }
    void moveAssignInto(IMachine& into) override
    {
        static_cast<MachineBase&>(into).sm() = std::move(sm());
    }
    void destroyZombie() override { zombie.destroy(); }
    bool hasZombie() override { return zombie.sm != nullptr; }
    void moveBack() override
    {
        *zombie.sm = std::move(*h.sm);
        std::swap(h, zombie);
    }
    size_t objSize() override { return sizeof(Sm); }
};
}
