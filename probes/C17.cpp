#include "probe.h"
namespace {
struct S1 {};
struct A {};
struct B {};
struct C {};
struct D {};
struct Sub {
    static constexpr auto make_transition_table()
    {
        constexpr auto yes = [](auto&...) { return true; };
        constexpr auto act = [](auto&...) { note("action"); };
        return hsm::transition_table(
            hsm::state<B> <= *hsm::state<A>,
            hsm::state<C> <= hsm::state<B>[yes],
            hsm::state<D> <= hsm::state<C>[yes] / act);
    }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        constexpr auto act = [](auto&...) { note("action"); };
        return hsm::transition_table(
            hsm::state<Sub> <= *hsm::state<S1> + hsm::event<e1>,
            hsm::state<A> <= hsm::exit<Sub, D>,
            hsm::state<B> <= hsm::state<A> / act);
    }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e1 {});
    if (sm.is(hsm::state<B>))
        note("B");
}
Add a { "prefix-anonymous", "action action B", run };
}
