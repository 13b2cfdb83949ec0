#include "probe.h"
namespace {
struct S1 {};
struct A {};
struct Sub {
    static constexpr auto make_transition_table() { return hsm::transition_table(*hsm::state<A> + hsm::event<e1> = hsm::state<A>); }
    static constexpr auto defer_events() { return hsm::events<e3>; }
};
struct Act {
    template <class... T> void operator()(T&...) const { note("recalled"); }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<S1> + hsm::event<e2> = hsm::state<Sub>,
            hsm::state<Sub> + hsm::event<e4> = hsm::state<S1>,
            hsm::state<S1> + hsm::event<e3> / Act {} = hsm::state<S1>);
    }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e2 {});
    sm.process_event(e3 {});
    sm.process_event(e4 {});
    if (rec.empty())
        note("lost");
}
Add a { "deferred-by-submachine", "recalled", run };
}
