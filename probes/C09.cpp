#include "probe.h"
namespace nested {
struct S1 {};
struct A {};
struct B {};
struct C {};
struct D {};
struct Inner {
    static constexpr auto make_transition_table() { return hsm::transition_table(*hsm::state<D> + hsm::event<e3> = hsm::state<D>); }
};
struct Sub {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<A> + hsm::event<e2> = hsm::state<Inner>,
            *hsm::state<B> + hsm::event<e3> = hsm::state<C>);
    }
};
struct Root {
    static constexpr auto make_transition_table() { return hsm::transition_table(*hsm::state<S1> + hsm::event<e1> = hsm::state<Sub>); }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e1 {});
    sm.process_event(e2 {}); // the first region enters a machine with one region
    sm.process_event(e3 {});
    sm.set(0, hsm::state<Sub>, hsm::state<A>);
    note(sm.is(1, hsm::state<Sub>, hsm::state<C>) ? "C" : "B");
}
Add a { "second-region-while-first-is-nested", "C", run };
}
namespace leaving {
struct S1 {};
struct A {};
struct B {};
struct C {};
struct Sub {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<A> + hsm::event<e1> = hsm::state<A>,
            *hsm::state<B> + hsm::event<e1> = hsm::state<C>);
    }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<S1> + hsm::event<e2> = hsm::state<Sub>,
            hsm::exit<Sub, C> + hsm::event<e3> = hsm::state<S1>);
    }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e2 {});
    sm.process_event(e1 {});
    sm.process_event(e3 {}); // the second region leaves the machine
    if (sm.is(hsm::state<Root>, hsm::state<S1>))
        note("left");
    if (sm.is(hsm::state<Sub>, hsm::state<A>))
        note("first-region-still-inside");
}
Add a { "second-region-leaves", "left", run };
}
