#include "probe.h"
namespace {
struct S1 {};
struct A {};
struct B {};
struct C {};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<S1> + hsm::event<e1> = hsm::state<S1>,
            *hsm::state<A> + hsm::event<e1> = hsm::state<B>,
            hsm::state<B> = hsm::state<C>);
    }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e1 {});
    if (sm.is(1, hsm::state<Root>, hsm::state<B>))
        note("B");
    if (sm.is(1, hsm::state<Root>, hsm::state<C>))
        note("C");
}
Add a { "region-without-anonymous-transition", "C", run };
}
