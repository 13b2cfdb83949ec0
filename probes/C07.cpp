#include "probe.h"
namespace {
struct S1 {};
struct A {};
struct B {};
struct Inner {
    static constexpr auto make_transition_table() { return hsm::transition_table(*hsm::state<A> + hsm::event<e1> = hsm::state<B>); }
};
struct C {};
struct Sub {
    static constexpr auto make_transition_table() { return hsm::transition_table(*hsm::state<C> + hsm::event<e1> = hsm::state<Inner>); }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<S1> + hsm::event<e2> = hsm::state<Sub>,
            hsm::state<S1> + hsm::event<e3> = hsm::history<Sub>,
            hsm::state<Sub> + hsm::event<e4> = hsm::state<S1>);
    }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e2 {});
    sm.process_event(e1 {});
    sm.process_event(e4 {}); // left from inside of the nested machine
    sm.process_event(e3 {});
    if (sm.is(hsm::state<Inner>, hsm::state<A>))
        note("Inner.A");
    if (sm.is(hsm::state<Sub>, hsm::state<C>))
        note("Sub.C");
}
Add a { "history-of-nested-machine", "Inner.A", run };
}
